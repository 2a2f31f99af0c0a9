"""P14: expansion keeps the value, on the real cells and helper functions.

One assignment en0 is fixed (arbitrary), as in P08, whose contracts of the operators and
factories are used here."""
import z3

from ..frontend import SYM
from ..interp import Cont, CppThrow, Obj, Opaque, Ref, Unsupported
from ..symbolic_world import BINARY, ECELLS, S_, UNARY
from ..templates import scope_values
from ..theory import B, R
from ..world import Cand, snap_get
from . import p08

SOURCES = [SYM + 'symbolic_expression.cc', SYM + 'symbolic_expression_cell.cc']
TRUSTED = ['the operators, elementary functions and the two factories by contract (P08)',
           'the laws of powers: b^x b^y = b^(x+y), b^1 = b, and that a power with a positive '
           'integer exponent is defined']
ASSUMPTIONS = ['doubles are real numbers: rounding and overflow are not modelled',
               'termination of the recursion is not proved']

ANON = S_ + '(anon)::'
VIS = ANON + 'DivExpandVisitor'


class ExpandWorld(p08.PWorld):
    def __init__(self, prog):
        super().__init__(prog)
        self.expands = z3.Function('expands', self.E, B)
        self.allX = self.MED.fold_all('expandsA', lambda x, c: self.expands(x))
        self.allXM = self.MEE.fold_all('expandsM', lambda b, x: z3.And(
            self.expands(b), self.expands(x)))
        C = self.contracts
        for cls in ('Expression', 'ExpressionCell'):
            C[S_ + cls + '::Expand'] = self.expand
        C[ANON + 'ExpandMultiplication'] = self.multiply
        C[ANON + 'ExpandPow'] = self.power
        C[VIS + '::Simplify'] = self.divide
        self.extra_candidates.append(self.ret_templates)

    # ------------------------------------------------------------ contracts
    def keeps(self, r, pre, value):
        return [('where the operands and the operation are defined, so is the result, with the '
                 'value of the operation', z3.Implies(pre, z3.And(
                     self.df(r), self.v(r) == value)))]

    def expand_facts(self, t, r):
        return self.keeps(r, self.df(t), self.v(t))

    def expand(self, I, this, args, n):
        t = I.load(this)
        if isinstance(t, Obj):
            t = self.unptr(I, t)
        if not I.branch(self.expands(t)):
            raise CppThrow('Expand', n)
        r = I.fresh(self.E, 'expanded')
        self.assume_facts(I, self.expand_facts(t, r))
        return r

    def supported(self, k, t):
        """Conditional terms are not supported (see the code)."""
        x = self.expands
        if k in ('IfThenElse', 'NaN'):
            return z3.BoolVal(False)
        if k in UNARY:
            return x(self.arg(t))
        if k in BINARY:
            return z3.And(x(self.arg1(t)), x(self.arg2(t)))
        if k == 'Add':
            return self.allX(self.amap(t))
        if k == 'Mul':
            return self.allXM(self.mmap(t))
        return z3.BoolVal(True)

    def product_facts(self, xs, r):
        d, v = [self.df(x) for x in xs], z3.RealVal(1)
        v = self.v(xs[0]) * self.v(xs[1])
        for x in xs[2:]:
            v = v * self.v(x)
        return self.keeps(r, z3.And(*d), v)

    def multiply(self, I, this, args, n):
        xs = [self.asE(I, a) for a in args]
        r = I.fresh(self.E, 'product')
        self.assume_facts(I, self.product_facts(xs, r))
        self.laws(I, '*', xs[0], xs[1], None)
        return r

    def power_facts(self, x, y, r):
        if y.sort() == self.E:
            return self.keeps(r, z3.And(self.df(x), self.df(y), self.powdef(
                self.v(x), self.v(y))), self.powf(self.v(x), self.v(y)))
        return self.keeps(r, self.df(x), self.powf(self.v(x), z3.ToReal(y)))

    def power(self, I, this, args, n):
        x, y = self.asE(I, args[0]), self.ld(I, args[1])
        if isinstance(y, Obj):
            y = self.asE(I, args[1])
        if y.sort() == z3.IntSort():
            I.oblige(y >= 1, 'the exponent is positive')
        elif y.sort() != self.E:
            raise Unsupported('ExpandPow')
        r = I.fresh(self.E, 'power')
        self.assume_facts(I, self.power_facts(x, y, r))
        return r

    def divide_facts(self, x, c, r):
        return self.keeps(r, self.df(x), self.divf(self.v(x), c))

    def divide(self, I, this, args, n):
        x, c = self.asE(I, args[0]), self.ld(I, args[1])
        I.oblige(c != 0, 'the divisor is not zero')
        r = I.fresh(self.E, 'quotient')
        self.assume_facts(I, self.divide_facts(x, c, r))
        return r

    # ------------------------------------------------------------ loops
    def ret_templates(self, I, node, entry, havoced, mods, iters, accs, pterm, term):
        out = []
        E = self.E
        xs, reals = [], []
        for _loc, _p, x in scope_values(entry):
            t = term(x)
            if t is None or isinstance(x, Cont):
                continue
            if t.sort() == E:
                xs.append(t)
            if t.sort() == R:
                reals.append(t)
        xs = list({x.get_id(): x for x in xs}.values())
        reals = list({x.get_id(): x for x in reals}.values())
        for loc, path in accs:
            v0 = snap_get(entry, loc, path)
            t0 = term(v0)
            if t0 is None:
                continue
            at = lambda s, loc=loc, path=path: term(snap_get(s, loc, path))
            if path and path[-1] == 'expr_to_coeff_map_':
                M, _nm, fold, d, _ok = self.parts('+')
                cp = path[:-1] + ('constant_',)
                c0 = term(snap_get(entry, loc, cp))
                ct = lambda s, loc=loc, cp=cp: term(snap_get(s, loc, cp))
                for it in iters:
                    for q in reals:
                        def divided(s, at=at, ct=ct, it=it, t0=t0, c0=c0, q=q, M=M, d=d):
                            P = pterm(s, it)
                            if P is None or P.sort() != M.sort:
                                return None
                            return z3.Implies(z3.And(d(t0), d(P), q != 0), z3.And(
                                d(at(s)), self.total('+', ct(s), at(s)) == self.total(
                                    '+', c0, t0) + self.inv(q) * self.vsum(P, self.en0)))
                        out.append(Cand('what was processed is taken in, divided', divided))
                continue
            if isinstance(v0, Cont) or t0.sort() != E:
                continue
            for it in iters:
                for k in [None] + xs:
                    def total(s, at=at, it=it, t0=t0, k=k):
                        P = pterm(s, it)
                        if P is None or P.sort() != self.MED.sort:
                            return None
                        a = self.vsum(P, self.en0)
                        pre = [self.df(t0), self.dA(P)]
                        if k is not None:
                            a = a * self.v(k)
                            pre.append(self.df(k))
                        return z3.Implies(z3.And(*pre), z3.And(
                            self.df(at(s)), self.v(at(s)) == self.v(t0) + a))
                    out.append(Cand('the sum of what was processed', total))

                def prod(s, at=at, it=it, t0=t0):
                    P = pterm(s, it)
                    if P is None or P.sort() != self.MEE.sort:
                        return None
                    return z3.Implies(z3.And(self.df(t0), self.dM(P)), z3.And(
                        self.df(at(s)), self.v(at(s)) == self.v(t0) * self.vprod(P, self.en0)))
                out.append(Cand('the product of what was processed', prod))
        return out


def world(prog):
    return ExpandWorld(prog)


def tasks(prog, w):
    out = []
    v, d = w.v, w.df

    def short(fn):
        return fn['type']['qualType'].replace('dreal::drake::symbolic::', '')

    def cell(cls, k, fn):
        def t(I):
            t = I.fresh(w.E, 't')
            I.assume(w.ekind(t) == w.KE[k])
            if k not in ('NaN', 'UninterpretedFunction'):
                I.assume(d(t))
            try:
                r = w.ld(I, I.inline(fn, w.cellptr(I, t).fields['ptr'], [], None))
            except CppThrow:
                I.oblige(z3.Not(w.supported(k, t)),
                         'an error only where a part is not supported')
                return
            w.oblige_facts(I, w.expand_facts(t, w.asE(I, r)))
            if k == 'UninterpretedFunction':
                I.oblige(w.asE(I, r) == t, 'an uninterpreted function stays as it is')
        return t
    for cls, k in ECELLS.items():
        for fn in prog.find(S_ + cls + '::Expand'):
            out.append((cls + '::Expand', cell(cls, k, fn)))

    def handle(fn):
        def t(I):
            t = I.fresh(w.E, 't')
            try:
                r = w.ld(I, I.inline(fn, I.alloc(t), [], None))
            except CppThrow:
                I.oblige(z3.Not(w.expands(t)), 'an error only where the cell reports one')
                return
            w.oblige_facts(I, w.expand_facts(t, w.asE(I, r)))
        return t
    for fn in prog.find(S_ + 'Expression::Expand'):
        out.append(('Expression::Expand', handle(fn)))

    def multiply(fn, alias):
        def t(I):
            args = w.arguments(I, fn, alias)
            xs = [w.asE(I, a) for a in args]
            I.assume(z3.And(*[d(x) for x in xs]))
            w.laws(I, '*', xs[0], xs[1], None)
            # the denominators of quotients
            a2, b2 = v(w.arg2(xs[0])), v(w.arg2(xs[1]))
            i = w.inv
            I.assume(z3.Implies(z3.And(a2 != 0, b2 != 0), i(a2 * b2) == i(a2) * i(b2)))
            r = w.asE(I, w.ld(I, I.inline(fn, None, args, None)))
            w.oblige_facts(I, w.product_facts(xs, r))
        return t
    for fn in prog.find(ANON + 'ExpandMultiplication'):
        n = len(p08.I_params(fn))
        out.append(('ExpandMultiplication/%d' % n, multiply(fn, False)))
        out.append(('ExpandMultiplication/%d aliased' % n, multiply(fn, True)))

    def power(fn):
        def t(I):
            args = w.arguments(I, fn)
            x, y = w.asE(I, args[0]), w.ld(I, args[1])
            b = v(x)
            I.assume(d(x))
            pd = w.powdef
            if y.sort() == w.E:
                I.assume(z3.And(d(y), pd(b, v(y))))
                I.assume(w.law_small(b))
            else:
                I.assume(y >= 1)
                h = z3.ToReal(y / 2)
                one = z3.RealVal(1)
                for q in (z3.ToReal(y), h, h + h, one):
                    I.assume(z3.Implies(z3.And(z3.IsInt(q), q >= 1), pd(b, q)))
                I.assume(w.law_small(b))
                I.assume(w.law_sum(b, h, h))
                I.assume(w.law_sum(b, h + h, one))
                I.assume(z3.Or(z3.ToReal(y) == h + h, z3.ToReal(y) == h + h + 1))
            r = w.asE(I, w.ld(I, I.inline(fn, None, args, None)))
            w.oblige_facts(I, w.power_facts(x, y, r))
        return t
    for fn in prog.find(ANON + 'ExpandPow'):
        out.append(('ExpandPow %s' % short(fn), power(fn)))

    def division(fn, k=None):
        def t(I):
            x, c = I.fresh(w.E, 'x'), I.fresh(R, 'n')
            I.assume(z3.And(d(x), c != 0))
            if k is not None:
                I.assume(w.ekind(x) == w.KE[k])
            # the reciprocals of products
            a2 = v(w.arg2(x))
            i = w.inv
            I.assume(z3.Implies(a2 != 0, i(a2 * c) == i(a2) * i(c)))
            r = w.asE(I, w.ld(I, I.inline(fn, I.alloc(Obj(VIS, {})), [
                I.alloc(x), I.alloc(c)], None)))
            w.oblige_facts(I, w.divide_facts(x, c, r))
        return t
    for fn in prog.find(VIS + '::Simplify'):
        out.append(('DivExpandVisitor::Simplify', division(fn)))
    return out
