"""Machine arithmetic: doubles as (class, real) pairs, integers with widths.

`XR` is the set of IEEE doubles seen from their values: finite reals, the two
infinities and NaN.  Comparisons and the operations below follow IEEE 754; an
operation whose exact result need not be representable returns an unspecified
double.  Integers are mathematical integers with the range of their C type:
signed overflow is an obligation, unsigned arithmetic and conversions wrap.
"""
import z3

from .interp import Unsupported, norm_type, qt
from .theory import B, I as INT, R
from .world import World

XR = z3.Datatype('XR')
XR.declare('fin', ('re', R))
XR.declare('pinf')
XR.declare('minf')
XR.declare('nan')
XR = XR.create()

WIDTH = {'int': (32, 1), 'unsigned int': (32, 0), 'unsigned': (32, 0), 'long': (64, 1),
         'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0),
         'short': (16, 1), 'unsigned short': (16, 0), 'char': (8, 1), 'signed char': (8, 1),
         'unsigned char': (8, 0), 'int64_t': (64, 1), 'uint64_t': (64, 0), 'int32_t': (32, 1),
         'uint32_t': (32, 0), 'size_t': (64, 0), 'std::size_t': (64, 0), 'bool': (1, 0)}


def bounds(t):
    b = norm_type(t)
    w = WIDTH.get(b[0]) or WIDTH.get(b[4])
    if w is None:
        raise Unsupported('integer type %s' % t)
    n, s = w
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)


def is_int_type(t):
    b = norm_type(t)
    return b[0] in WIDTH or b[4] in WIDTH


def xlt(x, y):
    return z3.And(z3.Not(XR.is_nan(x)), z3.Not(XR.is_nan(y)), z3.Or(
        z3.And(XR.is_fin(x), XR.is_fin(y), XR.re(x) < XR.re(y)),
        z3.And(XR.is_minf(x), z3.Not(XR.is_minf(y))),
        z3.And(XR.is_pinf(y), z3.Not(XR.is_pinf(x)))))


def xeq(x, y):
    return z3.And(z3.Not(XR.is_nan(x)), x == y)


class Whole:
    """whole(x): the real x is a whole number; distinct ones differ by at least one."""

    def __init__(self, th):
        self.whole = z3.Function('whole', R, B)
        x, y = z3.Reals('x y')
        th.ax('whole', z3.ForAll([x, y], z3.Implies(
            z3.And(self.whole(x), self.whole(y), x < y), x + 1 <= y),
            patterns=[z3.MultiPattern(self.whole(x), self.whole(y))]))

    def trunc(self, I, r):
        """The integer part of r (towards zero), by its defining inequalities."""
        t = I.fresh(R, 'trunc')
        I.assume(self.whole(t))
        I.assume(z3.If(r >= 0, z3.And(t <= r, r < t + 1), z3.And(t - 1 < r, r <= t)))
        return t

    def floor(self, I, r):
        t = I.fresh(R, 'floor')
        I.assume(z3.And(self.whole(t), t <= r, r < t + 1))
        return t


class MachineWorld(World):
    def __init__(self, prog):
        super().__init__(prog)
        self.wh = Whole(self.th)
        self.whole = self.wh.whole

    def desc(self, t):
        base, args, is_ref, is_ptr, full = norm_type(t)
        if base in ('double',) and not is_ptr:
            return ('z', XR)
        return super().desc(t)

    def default_term(self, I, sort, t):
        if sort == XR:
            return XR.fin(z3.RealVal(0))

    def float_literal(self, s):
        return XR.fin(super().float_literal(s))

    def fresh_int(self, I, t, name):
        v = I.fresh(INT, name)
        lo, hi = bounds(t)
        I.assume(z3.And(v >= lo, v <= hi))
        return v

    def integral_cast(self, I, n, v):
        if z3.is_expr(v) and v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        lo, hi = bounds(qt(n))
        m = hi - lo + 1
        return z3.If(z3.And(v >= lo, v <= hi), v, (v - lo) % m + lo)

    def int_to_float(self, I, v):
        """Exact up to 2^53; rounded (unspecified finite value) beyond."""
        v = z3.simplify(v)
        r = I.fresh(XR, 'dbl')
        I.assume(XR.is_fin(r))
        I.assume(z3.Implies(z3.And(v >= -2 ** 53, v <= 2 ** 53), XR.re(r) == z3.ToReal(v)))
        return r

    def float_to_int(self, I, n, v):
        lo, hi = bounds(qt(n))
        t = self.wh.trunc(I, XR.re(v))
        I.oblige(z3.And(XR.is_fin(v), t >= lo, t <= hi),
                 'conversion of a double to an integer is in range')
        return z3.ToInt(t)

    def xre(self, I, exact):
        r = I.fresh(XR, 'dbl')
        return r

    def binop(self, I, op, x, y, n):
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() == XR and y.sort() == XR:
            c = {'<': lambda: xlt(x, y), '>': lambda: xlt(y, x), '==': lambda: xeq(x, y),
                 '!=': lambda: z3.Not(xeq(x, y)), '<=': lambda: z3.Or(xlt(x, y), xeq(x, y)),
                 '>=': lambda: z3.Or(xlt(y, x), xeq(x, y))}
            if op in c:
                return c[op]()
            return I.fresh(XR, 'dbl')        # rounded result: unspecified
        if z3.is_expr(x) and x.sort() == INT and op in ('+', '-', '*', '<<', '>>') and n is not None:
            if op in ('<<', '>>'):
                y = z3.simplify(y)
                if not z3.is_int_value(y):
                    raise Unsupported('shift by a variable')
                k = y.as_long()
                r = x * (1 << k) if op == '<<' else x / (1 << k)
            else:
                r = {'+': x + y, '-': x - y, '*': x * y}[op]
            return self.ranged(I, r, qt(n))
        return super().binop(I, op, x, y, n)

    def ranged(self, I, r, t):
        lo, hi = bounds(t)
        if lo < 0:
            I.oblige(z3.And(r >= lo, r <= hi), 'no signed overflow')
            return r
        return z3.If(z3.And(r >= lo, r <= hi), r, r % (hi + 1))

    def neg(self, I, v, n):
        if v.sort() == XR:
            return z3.If(XR.is_fin(v), XR.fin(-XR.re(v)), z3.If(
                XR.is_pinf(v), XR.minf, z3.If(XR.is_minf(v), XR.pinf, XR.nan)))
        return self.ranged(I, -v, qt(n))

    def global_var(self, I, n, d):
        if d.get('name') == 'digits':
            t = self.source(n)
            for k, v in (('double', 53), ('float', 24), ('int64_t', 63), ('uint64_t', 64),
                         ('int', 31), ('unsigned', 32)):
                if '<' + k in t or 'std::' + k in t:
                    return I.alloc(z3.IntVal(v))
        return super().global_var(I, n, d)

    def std_value_function(self, I, name, v, a, argn, n):
        if name in ('min', 'max', 'lowest') and not v:
            t = qt(n)
            if is_int_type(t):
                lo, hi = bounds(t)
                return z3.IntVal(hi if name == 'max' else lo)
            if norm_type(t)[0] == 'double':
                big = z3.RealVal(str(int(1.7976931348623157e308)))
                return XR.fin({'max': big, 'lowest': -big,
                               'min': z3.RealVal('1/%d' % 2 ** 1022)}[name])
        if v and z3.is_expr(v[0]) and v[0].sort() == XR:
            x = v[0]
            if name == 'modf':
                tr = self.wh.trunc(I, XR.re(x))
                t = z3.If(XR.is_fin(x), XR.fin(tr), x)
                I.store(v[1] if hasattr(v[1], 'loc') else a[1], t)
                return z3.If(XR.is_fin(x), XR.fin(XR.re(x) - tr), z3.If(
                    XR.is_nan(x), XR.nan, XR.fin(z3.RealVal(0))))
            fin = lambda r: z3.If(XR.is_fin(x), XR.fin(r), x)
            if name == 'trunc':
                return fin(self.wh.trunc(I, XR.re(x)))
            if name == 'floor':
                return fin(self.wh.floor(I, XR.re(x)))
            if name == 'ceil':
                return fin(-self.wh.floor(I, -XR.re(x)))
            if name in ('fabs', 'abs'):
                return z3.If(XR.is_fin(x), XR.fin(z3.If(XR.re(x) >= 0, XR.re(x), -XR.re(x))),
                             z3.If(XR.is_nan(x), XR.nan, XR.pinf))
            if name == 'isnan':
                return XR.is_nan(x)
            if name == 'isinf':
                return z3.Or(XR.is_pinf(x), XR.is_minf(x))
            if name == 'isfinite':
                return XR.is_fin(x)
        return super().std_value_function(I, name, v, a, argn, n)
