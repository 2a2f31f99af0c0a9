"""P13: differentiation, on the real cells, against the rules of calculus."""
import z3

from ..factory_world import FactoryWorld
from ..frontend import SYM
from ..interp import CppThrow, Opaque, Ref
from ..symbolic_world import BINARY, ECELLS, S_, UNARY
from ..theory import B, R

SOURCES = [SYM + 'symbolic_expression.cc', SYM + 'symbolic_expression_cell.cc']
TRUSTED = ['the constructors of expressions and the two factories by contract (P08)',
           'the rules of calculus: linearity, product, quotient and chain rule, the derivatives '
           'of the elementary functions']
ASSUMPTIONS = ['doubles are real numbers',
               'all arithmetic terms that occur are defined at the point; every part is '
               'differentiable there; bases of powers in products are not zero there']

POW = S_ + 'DifferentiatePow'


class DiffWorld(FactoryWorld):
    def __init__(self, prog, lemmas=True):
        super().__init__(prog)
        th, E, V, Env = self.th, self.E, self.V, self.Env
        fn = z3.Function
        self.D = fn('D', E, R)              # partial derivative by x0 at en0
        self.dpow = fn('Dpow', E, E, R)
        self.canD = fn('differentiates', E, B)
        self.x0, self.en0 = z3.Const('x0', V), z3.Const('en0', Env)
        th.ax('x0', self.vid(self.x0) != 0)
        self.P0 = z3.Real('product')
        v = self.v = lambda e: self.val(e, self.en0)
        x, y = z3.Reals('px py')
        pw = self.powf
        th.ax('square', th.forall([x], pw(x, z3.RealVal(2)) == x * x, [pw(x, z3.RealVal(2))]))
        e = z3.Const('de', E)
        K = self.KE
        th.ax('D.const', th.forall([e], z3.Implies(self.ekind(e) == K['Constant'], z3.And(
            self.D(e) == 0, self.canD(e))), [self.D(e)]))
        self.sumD = self.MED.fold_sum('sumD', lambda k, c: c * self.D(k))
        self.allD = self.MED.fold_all('allD', lambda k, c: self.canD(k))
        self.logD = self.MEE.fold_sum('logD', lambda b, g: self.P0 * self.dpow(b, g) * pw(
            v(b), -v(g)))
        self.accreal['E'] = [('val', lambda t: v(t), ())]
        self.procreal[self.MED.sort.name()] = [('sumD', self.sumD, ())]
        self.procreal[self.MEE.sort.name()] = [('logD', self.logD, ())]
        C = self.contracts
        for cls in ('Expression', 'ExpressionCell'):
            C[S_ + cls + '::Differentiate'] = self.differentiate
        C[POW] = self.differentiate_pow

    def is_const(self, e):
        return self.ekind(e) == self.KE['Constant']

    def dpow_is(self, f, g):
        """The derivative of f^g."""
        v, pw, D = self.v, self.powf, self.D
        lnf = self.fn1['Log'](v(f))
        d = self.dpow(f, g)
        return z3.And(
            z3.Implies(self.is_const(g), d == v(g) * pw(v(f), v(g) - 1) * D(f)),
            z3.Implies(z3.And(self.is_const(f), z3.Not(self.is_const(g))),
                       d == lnf * pw(v(f), v(g)) * D(g)),
            z3.Implies(z3.Not(z3.Or(self.is_const(f), self.is_const(g))),
                       d == pw(v(f), v(g) - 1) * v(g) * D(f) + lnf * pw(v(f), v(g)) * D(g)))

    def pow_ok(self, f, g):
        return z3.Or(z3.And(self.canD(f), self.canD(g)),
                     z3.And(self.is_const(g), self.canD(f)),
                     z3.And(self.is_const(f), z3.Not(self.is_const(g)), self.canD(g)))

    def differentiate_pow(self, I, this, args, n):
        f, g, x = [self.ld(I, a) for a in args]
        I.oblige(x == self.x0, 'derivatives by the same variable')
        if not I.branch(self.pow_ok(f, g)):
            raise CppThrow('DifferentiatePow', n)
        r = I.fresh(self.E, 'd')
        I.assume(self.v(r) == self.dpow(f, g))
        return r

    def pow_facts(self, f, g):
        """b^g = b^(g-1) b where a general power is differentiable (b > 0)."""
        v, pw = self.v, self.powf
        return z3.Implies(z3.Not(z3.Or(self.is_const(g), self.is_const(f))), z3.And(
            v(f) > 0, pw(v(f), v(g)) == pw(v(f), v(g) - 1) * v(f)))

    def differentiate(self, I, this, args, n):
        t = I.load(this)
        x = self.ld(I, args[0])
        if not I.branch(self.canD(t)):
            raise CppThrow('Differentiate', n)
        r = I.fresh(self.E, 'd')
        I.oblige(x == self.x0, 'derivatives by the same variable')
        I.assume(self.v(r) == self.D(t))
        return r

    def post_arith(self, I, op, x, y):
        r = I.fresh(self.E, 'e')
        a, b = self.v(x), self.v(y) if y is not None else None
        I.assume(self.v(r) == self.arith(op, a, b))
        if op == '/':
            I.assume(b != 0)            # defined at the point
        return r


def world(prog):
    return DiffWorld(prog)


def tasks(prog, w):
    out = []
    v, D, x0 = w.v, w.D, w.x0
    f1 = w.fn1

    def setting(I, k, t):
        """The derivative of a term of that kind (None: not supported); what must be
        differentiable; facts that hold at such a point."""
        if k in ('Constant', 'RealConstant'):
            return (D(t) == 0), z3.BoolVal(True)
        if k == 'Var':
            return D(t) == z3.If(w.evar(t) == x0, z3.RealVal(1), z3.RealVal(0)), z3.BoolVal(True)
        if k in ('Abs', 'Min', 'Max', 'IfThenElse', 'UninterpretedFunction'):
            free = z3.Not(w.SV.mem(x0, w.efv(t)))
            return z3.Implies(free, D(t) == 0), free
        if k == 'NaN':
            return z3.BoolVal(True), z3.BoolVal(False)
        if k == 'Add':
            return D(t) == w.sumD(w.amap(t)), w.allD(w.amap(t))
        if k == 'Mul':
            I.assume(w.P0 == w.vprod(w.mmap(t), w.en0))
            # the lemma below: the product rule
            return D(t) == w.c0(t) * w.logD(w.mmap(t)), None
        if k in BINARY:
            f, g = w.arg1(t), w.arg2(t)
            a, b = v(f), v(g)
            both = z3.And(w.canD(f), w.canD(g))
            if k == 'Div':
                I.assume(b != 0)
                return D(t) * b * b == D(f) * b - a * D(g), both
            if k == 'Pow':
                return D(t) == w.dpow(f, g), w.pow_ok(f, g)
            if k == 'Atan2':
                I.assume(a * a + b * b != 0)
                return D(t) * (a * a + b * b) == b * D(f) - a * D(g), both
        f = w.arg(t)
        a, ok = v(f), w.canD(f)
        if k == 'Log':
            I.assume(a > 0)
            return D(t) * a == D(f), ok
        if k == 'Exp':
            return D(t) == f1['Exp'](a) * D(f), ok
        if k == 'Sqrt':
            s = f1['Sqrt'](a)
            I.assume(z3.And(a > 0, s > 0, s * s == a))
            return 2 * D(t) * s == D(f), ok
        if k == 'Sin':
            return D(t) == f1['Cos'](a) * D(f), ok
        if k == 'Cos':
            return D(t) == -f1['Sin'](a) * D(f), ok
        if k == 'Tan':
            c = f1['Cos'](a)
            I.assume(c != 0)
            return D(t) * c * c == D(f), ok
        if k in ('Asin', 'Acos'):
            s = f1['Sqrt'](1 - a * a)
            I.assume(z3.And(-1 < a, a < 1, s > 0, s * s == 1 - a * a))
            return D(t) * s == (D(f) if k == 'Asin' else -D(f)), ok
        if k == 'Atan':
            return D(t) * (1 + a * a) == D(f), ok
        if k == 'Sinh':
            return D(t) == f1['Cosh'](a) * D(f), ok
        if k == 'Cosh':
            return D(t) == f1['Sinh'](a) * D(f), ok
        if k == 'Tanh':
            c = f1['Cosh'](a)
            I.assume(c >= 1)
            return D(t) * c * c == D(f), ok
        raise KeyError(k)

    def rule(cls, k, fn):
        def t(I):
            t = I.fresh(w.E, 't')
            I.assume(w.ekind(t) == w.KE[k])
            d, ok = setting(I, k, t)
            I.assume(d)
            try:
                r = w.ld(I, I.inline(fn, I.alloc(t), [I.alloc(x0)], None))
            except CppThrow:
                if ok is not None:
                    I.oblige(z3.Not(ok), 'an error only where a part cannot be differentiated')
                return
            if ok is not None and k != 'Add':
                I.oblige(ok, 'an error where the operation cannot be differentiated')
            I.oblige(v(r) == D(t), 'the value is the derivative')
        return t
    for cls, k in ECELLS.items():
        for fn in prog.find(S_ + cls + '::Differentiate'):
            out.append((cls + '::Differentiate', rule(cls, k, fn)))

    def power(fn):
        def t(I):
            f, g = I.fresh(w.E, 'f'), I.fresh(w.E, 'g')
            I.assume(w.pow_facts(f, g))
            I.assume(w.dpow_is(f, g))
            try:
                r = w.ld(I, I.inline(fn, None, [I.alloc(f), I.alloc(g), I.alloc(x0)], None))
            except CppThrow:
                I.oblige(z3.Not(w.pow_ok(f, g)),
                         'an error only where a part cannot be differentiated')
                return
            I.oblige(w.pow_ok(f, g), 'an error where a part cannot be differentiated')
            I.oblige(v(r) == w.dpow(f, g), 'the value is the derivative of the power')
        return t
    for fn in prog.find(POW):
        out.append(('DifferentiatePow', power(fn)))

    def handle(fn):
        def t(I):
            t = I.fresh(w.E, 't')
            try:
                r = w.ld(I, I.inline(fn, I.alloc(t), [I.alloc(x0)], None))
            except CppThrow:
                I.oblige(z3.Not(w.canD(t)), 'an error only where the cell reports one')
                return
            I.oblige(w.canD(t), 'an error where the cell reports one')
            I.oblige(v(r) == D(t), 'the value is the derivative')
        return t
    for fn in prog.find(S_ + 'Expression::Differentiate'):
        out.append(('Expression::Differentiate', handle(fn)))
    return out


def lemma_tasks(prog, w):
    """The product rule: with p the product of the powers and l the sum of (p_i)'/p_i,
    the derivative of the product is p l (induction over the factors)."""
    l, p, dp, q, dq, inv = z3.Reals('l p dp q dq inv')

    def base(I):
        I.oblige(z3.RealVal(0) == z3.RealVal(1) * z3.RealVal(0), 'the empty product')

    def step(I):
        # the rest is p with derivative p l; one more factor q, with q inv = 1
        I.assume(z3.And(dp == p * l, q * inv == 1))
        I.oblige(dp * q + p * dq == (p * q) * (l + dq * inv), 'one more factor')
    return [('product rule, base', base), ('product rule, step', step)]


class _Main:
    SOURCES, world, tasks = SOURCES, staticmethod(world), staticmethod(tasks)


class _Lemmas:
    SOURCES, world, tasks = SOURCES, staticmethod(world), staticmethod(lemma_tasks)


GROUPS = [_Main, _Lemmas]
