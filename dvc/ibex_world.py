"""Contracts of the part of IBEX that the sources use (IBEX is a dependency).

An interval is a value of the sort Iv: `emp`, `lb`, `ub`.  `inf` is a number
larger than every double; a point belongs to an interval if it is finite and
within the bounds.  Bounds of an empty interval are NaN, with which every
comparison is false.
"""
import z3

from .interp import Cont, Infeasible, Obj, Ref, Unsupported, qt
from .theory import B, I as INT, R


class NaN:
    """The double NaN."""

    def __repr__(self):
        return 'NaN'


NAN = NaN()


class IbexMixin:
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.intervals()

    def intervals(self):
        th = self.th
        self.Iv = th.sort('Iv')
        fn = z3.Function
        self.emp = fn('emp', self.Iv, B)
        self.lb = fn('lb', self.Iv, R)
        self.ub = fn('ub', self.Iv, R)
        self.midf = fn('mid', self.Iv, R)
        self.diamf = fn('diam', self.Iv, R)
        self.mkIv = fn('mkIv', R, R, self.Iv)
        self.ivE = z3.Const('emptyIv', self.Iv)
        self.inf, self.dmax, self.dmin, self.deps = z3.Reals('inf dbl_max dbl_min dbl_eps')
        self.isdbl = fn('isdbl', R, B)
        self.nextup = fn('nextup', R, R)
        self.nextdn = fn('nextdn', R, R)
        # integers among the reals (mixed arithmetic is avoided)
        self.isint = fn('isint', R, B)
        self.floorf, self.ceilf = fn('floor', R, R), fn('ceil', R, R)
        self.scalar_types['Interval'] = self.Iv
        self.scalar_types['ibex::Interval'] = self.Iv
        i = z3.Const('i', self.Iv)
        x, y, d = z3.Reals('x y d')
        A, f = th.ax, th.forall
        emp, lb, ub, mk = self.emp, self.lb, self.ub, self.mkIv
        A('dbl', z3.And(0 < self.dmin, self.dmin < 1, 2 ** 53 < self.dmax, self.dmax < self.inf,
                        0 < self.deps, self.deps < 1, self.isdbl(self.dmax),
                        self.isdbl(-self.dmax)))
        A('isint', f([x, y], z3.Implies(z3.And(self.isint(x), self.isint(y), x < y + 1), x <= y),
                     [(self.isint(x), self.isint(y))]))
        A('iv.bounds', f([i], z3.Or(emp(i), z3.And(
            lb(i) <= ub(i), lb(i) < self.inf, ub(i) > -self.inf, lb(i) >= -self.inf,
            ub(i) <= self.inf)), [lb(i), ub(i)]))
        A('iv.mk', f([x, y], z3.And(
            emp(mk(x, y)) == z3.Or(x > y, x >= self.inf, y <= -self.inf),
            z3.Implies(z3.Not(emp(mk(x, y))), z3.And(lb(mk(x, y)) == x, ub(mk(x, y)) == y))),
            [mk(x, y)]))
        A('iv.empty', emp(self.ivE))
        A('iv.mid', f([i], z3.Implies(z3.Not(emp(i)), z3.And(
            lb(i) <= self.midf(i), self.midf(i) <= ub(i), -self.inf < self.midf(i),
            self.midf(i) < self.inf)), [self.midf(i)]))
        # the neighbours of a double; nothing between them is a double
        A('nextup', f([x], z3.Implies(x < self.inf, z3.And(
            x < self.nextup(x), self.nextup(x) <= self.inf)), [self.nextup(x)]))
        A('nextup2', f([x, d], z3.Implies(z3.And(self.isdbl(d), d > x), d >= self.nextup(x)),
                       [(self.nextup(x), self.isdbl(d))]))
        A('nextdn', f([x], z3.Implies(x > -self.inf, z3.And(
            x > self.nextdn(x), self.nextdn(x) >= -self.inf)), [self.nextdn(x)]))
        A('nextdn2', f([x, d], z3.Implies(z3.And(self.isdbl(d), d < x), d <= self.nextdn(x)),
                       [(self.nextdn(x), self.isdbl(d))]))

    def mem(self, x, i):
        return z3.And(z3.Not(self.emp(i)), self.lb(i) <= x, x <= self.ub(i), x > -self.inf,
                      x < self.inf)

    def default_term(self, I, sort, t):
        if sort == self.Iv:
            return self.mkIv(-self.inf, self.inf)
        return super().default_term(I, sort, t)

    # ------------------------------------------------------------ Interval
    def ctor_Interval(self, I, n, t, args, ct):
        v = [self.rd(I, a) for a in args]
        if not v:
            return self.mkIv(-self.inf, self.inf)
        if len(v) == 1 and z3.is_expr(v[0]) and v[0].sort() == self.Iv:
            return v[0]
        return self.iv(I, v[0], v[1] if len(v) > 1 else v[0])

    def iv(self, I, x, y):
        x, y = self.num(x), self.num(y)
        if x is NAN or y is NAN:
            return self.ivE
        return self.mkIv(self.named(I, x), self.named(I, y))

    def named(self, I, x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            r = I.fresh(x.sort(), 'x')
            I.assume(r == x)
            return r
        return x

    def num(self, x):
        if x is NAN:
            return x
        if isinstance(x, (int, float)):
            return z3.RealVal(str(x))
        if z3.is_expr(x) and x.sort() == INT:
            return z3.ToReal(x)
        if z3.is_expr(x) and x.sort() == R:
            return x
        raise Unsupported('bound %r' % (x,))

    def rd(self, I, a):
        return I.load(a) if isinstance(a, Ref) else a

    def asIv(self, I, v):
        if z3.is_expr(v) and v.sort() == self.Iv:
            return v
        return self.iv(I, v, v)

    def bound(self, I, i, fn):
        if I.branch(self.emp(i)):
            return NAN
        return fn(i)

    def meet(self, I, x, y):
        if I.branch(z3.Or(self.emp(x), self.emp(y))):
            return self.ivE
        a, b, c, d = self.lb(x), self.ub(x), self.lb(y), self.ub(y)
        return self.mkIv(c if I.branch(a < c) else a, b if I.branch(b < d) else d)

    def join(self, I, x, y):
        if I.branch(self.emp(x)):
            return y
        if I.branch(self.emp(y)):
            return x
        a, b, c, d = self.lb(x), self.ub(x), self.lb(y), self.ub(y)
        return self.mkIv(a if I.branch(a < c) else c, d if I.branch(b < d) else b)

    def same(self, x, y):
        e, g = self.emp(x), self.emp(y)
        return z3.Or(z3.And(e, g), z3.And(z3.Not(e), z3.Not(g), self.lb(x) == self.lb(y),
                                          self.ub(x) == self.ub(y)))

    def std_method_ext(self, I, obj, v, name, a, n):
        if z3.is_expr(v) and v.sort() == self.Iv:
            emp, lb, ub = self.emp(v), self.lb(v), self.ub(v)
            if name == 'lb':
                return self.bound(I, v, self.lb)
            if name == 'ub':
                return self.bound(I, v, self.ub)
            if name == 'mid':
                return self.bound(I, v, self.midf)
            if name == 'diam':
                I.assume(self.diamf(v) >= 0)
                return self.diamf(v)
            if name == 'is_empty':
                return emp
            if name == 'is_degenerated':
                return z3.Or(emp, lb == ub)
            if name == 'is_unbounded':
                return z3.And(z3.Not(emp), z3.Or(lb == -self.inf, ub == self.inf))
            if name == 'is_bisectable':
                return z3.And(z3.Not(emp), lb < self.midf(v), self.midf(v) < ub)
            if name == 'contains':
                if a[0] is NAN:
                    return z3.BoolVal(False)
                return self.mem(self.num(a[0]), v)
            if name == 'is_subset':
                b = a[0]
                return z3.Or(emp, z3.And(z3.Not(self.emp(b)), self.lb(b) <= lb, ub <= self.ub(b)))
            if name == 'set_empty':
                I.store(obj, self.ivE)
                return None
            if name == 'bisect':
                I.oblige(z3.And(z3.Not(emp), lb < self.midf(v), self.midf(v) < ub),
                         'Interval::bisect is called on a bisectable interval')
                # a ratio strictly between 0 and 1: any split point inside
                m = I.fresh(R, 'split')
                I.assume(z3.And(lb < m, m < ub, m > -self.inf, m < self.inf))
                return Obj('pair', {'first': self.mkIv(lb, m), 'second': self.mkIv(m, ub)})
        r = self.iv_operator(I, obj, name, [v] + list(a))
        if r is not NotImplemented:
            return r
        return super().std_method_ext(I, obj, v, name, a, n)

    def iv_operator(self, I, ref, name, v):
        isiv = lambda x: z3.is_expr(x) and x.sort() == self.Iv
        if not v or not any(isiv(x) for x in v):
            return NotImplemented
        if name == 'operator=' and isiv(v[0]):
            I.store(ref, self.asIv(I, v[1]))
            return ref
        if name in ('operator&=', 'operator|=', 'operator&', 'operator|') and len(v) == 2:
            r = (self.meet if '&' in name else self.join)(I, self.asIv(I, v[0]), self.asIv(I, v[1]))
            if name.endswith('='):
                I.store(ref, r)
                return ref
            return r
        if name in ('operator==', 'operator!=') and len(v) == 2 and isiv(v[0]) and isiv(v[1]):
            e = self.same(v[0], v[1])
            return e if name == 'operator==' else z3.Not(e)
        return NotImplemented

    # ------------------------------------------------------------ doubles
    def binop(self, I, op, x, y, n):
        if x is NAN or y is NAN:
            if op in ('==', '<', '<=', '>', '>='):
                return z3.BoolVal(False)
            if op == '!=':
                return z3.BoolVal(True)
            if op in '+-*/':
                return NAN
        return super().binop(I, op, x, y, n)

    def neg(self, I, v, n):
        return NAN if v is NAN else super().neg(I, v, n)

    def isdouble(self, n):
        return n is not None and qt(n).replace('const', '').strip() in ('double', 'long double')

    def std_value_function(self, I, name, v, a, argn, n):
        if not v and name in ('max', 'min', 'lowest', 'infinity', 'epsilon', 'quiet_NaN'):
            if self.isdouble(n):
                return {'max': self.dmax, 'lowest': -self.dmax, 'min': self.dmin,
                        'infinity': self.inf, 'epsilon': self.deps, 'quiet_NaN': NAN}[name]
            if qt(n) == 'int' and name != 'infinity':
                return z3.IntVal({'max': 2 ** 31 - 1}.get(name, -2 ** 31))
        if v and any(x is NAN for x in v):
            if name == 'isnan':
                return z3.BoolVal(True)
            if name in ('nextafter', 'floor', 'ceil', 'trunc', 'fabs', 'abs'):
                return NAN
        if name == 'nextafter' and len(v) == 2:
            x, y = self.num(v[0]), self.num(v[1])
            if I.branch(x == y):
                return y
            return self.nextup(x) if I.branch(x < y) else self.nextdn(x)
        if name == 'isnan' and len(v) == 1:
            return z3.BoolVal(False)
        if name in ('floor', 'ceil') and len(v) == 1:
            x = self.num(v[0])
            if not I.branch(z3.And(-self.inf < x, x < self.inf)):
                return x
            y = (self.floorf if name == 'floor' else self.ceilf)(x)
            I.assume(z3.And(self.isint(y), z3.And(y <= x, x < y + 1) if name == 'floor' else
                            z3.And(x <= y, y < x + 1)))
            return y
        r = self.iv_operator(I, a[0] if a else None, name, v)
        if r is not NotImplemented:
            return r
        return super().std_value_function(I, name, v, a, argn, n)
