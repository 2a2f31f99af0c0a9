"""P08: the constructors of expressions, on the real operators, factories and cells.

One assignment en0 is fixed (arbitrary).  d(e) says that e is defined there.  The contract of
an operation: where the operands are defined and the operation is, so is the result, and its
value is the operation applied to theirs.  Each function is verified against it, with the
contracts of the others in place of the calls it makes."""
import z3

from ..cell_world import CellWorld
from ..frontend import SYM
from ..interp import Cont, CppThrow, Obj, Ref, Unsupported, norm_type, qt
from ..symbolic_world import BINARY, S_, UNARY
from ..theory import B, R
from ..world import Cand, snap_get

SOURCES = [SYM + 'symbolic_expression.cc', SYM + 'symbolic_expression_cell.cc']
TRUSTED = ['std::map; std::pow, fabs, min, max compute the functions they are named after',
           'the laws of powers: b^x b^y = b^(x+y); b^0 = 1; b^1 = b; (b^x)^y = b^(xy) for '
           'integers x, y; b^2 = b b; sqrt(b b) = |b|',
           'the constructors of cells compute only attributes besides storing their arguments '
           '(P15)']
ASSUMPTIONS = ['doubles are real numbers: rounding, overflow and NaN are not modelled',
               'products of integer exponents fit in an int']


class PWorld(CellWorld):
    def __init__(self, prog):
        super().__init__(prog)
        self.symbols()
        self.definedness()
        self.powers()
        self.operations()
        self.factories()

    def symbols(self):
        self.en0 = z3.Const('en0', self.Env)
        self.isint = z3.Function('is_integer', R, B)
        self.df = z3.Function('defined', self.E, B)
        self.dF = z3.Function('definedF', self.F, B)
        self.powdef = z3.Function('powdef', R, R, B)
        self.inv = z3.Function('inv', R, R)

    def v(self, e):
        return self.val(e, self.en0)

    def domain(self, k, a, b=None):
        """Where the operation is defined."""
        if k in ('Log', 'Sqrt'):
            return a >= 0
        if k in ('Asin', 'Acos'):
            return z3.And(a >= -1, a <= 1)
        if k in ('Div', '/'):
            return b != 0
        if k == 'Pow':
            return self.powdef(a, b)
        return z3.BoolVal(True)

    def definedness(self):
        th, E, v, d = self.th, self.E, self.v, self.df
        e = z3.Const('de', E)
        k, K = self.ekind(e), self.KE
        self.dA = self.MED.fold_all('definedA', lambda x, c: d(x))
        self.dM = self.MEE.fold_all('definedM', lambda b, x: z3.And(
            d(b), d(x), self.powdef(v(b), v(x))))
        C = K['Constant']
        const, zero = self.isconst, self.iszero
        # representation invariants of the maps
        self.okA = self.MED.fold_all('okA', lambda x, c: z3.Not(const(x)))
        self.okM = self.MEE.fold_all('okM', lambda b, x: z3.And(
            z3.Not(z3.And(const(b), const(x))), z3.Not(zero(x))))

        def ax(q, f):
            th.ax('defined.' + q, th.forall([e], z3.Implies(k == K[q], d(e) == f),
                                            [(d(e), k)]))
        for q in ('Constant', 'RealConstant', 'Var'):
            ax(q, z3.BoolVal(True))
        for q in ('NaN', 'UninterpretedFunction'):
            ax(q, z3.BoolVal(False))
        a, b, c = self.arg(e), self.arg1(e), self.arg2(e)
        for q in UNARY:
            ax(q, z3.And(d(a), self.domain(q, v(a))))
        for q in BINARY:
            ax(q, z3.And(d(b), d(c), self.domain(q, v(b), v(c))))
        ax('Add', self.dA(self.amap(e)))
        ax('Mul', self.dM(self.mmap(e)))
        h = self.holds(self.icond(e), self.en0)
        ax('IfThenElse', z3.And(self.dF(self.icond(e)), z3.Implies(h, d(self.ithen(e))),
                                z3.Implies(z3.Not(h), d(self.ielse(e)))))
        # representation invariants of the cells (obliged where cells are built)
        for q, f, t in self.invariants(e):
            th.ax('inv.' + q, th.forall([e], z3.Implies(k == K[q], f), [(k, t)]))

    def isconst(self, x):
        return self.ekind(x) == self.KE['Constant']

    def iszero(self, x):
        return z3.And(self.isconst(x), self.cval(x) == 0)

    def entry_ok(self, b, x):
        return z3.And(z3.Not(z3.And(self.isconst(b), self.isconst(x))), z3.Not(self.iszero(x)))

    def invariants(self, e):
        A, M = self.amap(e), self.mmap(e)
        return [('Add', z3.And(A != self.MED.empty, self.okA(A)), A),
                ('Mul', z3.And(M != self.MEE.empty, self.okM(M), self.c0(e) != 0), M),
                ('Pow', self.entry_ok(self.arg1(e), self.arg2(e)), self.arg2(e))]

    def powers(self):
        th = self.th
        b, x, y = z3.Reals('pb px py')
        pd, I, all_ = self.powdef, self.isint, th.forall
        th.ax('is_integer', all_([x], I(x) == z3.And(
            z3.IsInt(x), x >= -2 ** 31, x <= 2 ** 31 - 1), [I(x)]))
        th.ax('pow.domain', all_([b, x], z3.Implies(pd(b, x), z3.Or(b >= 0, I(x))), [pd(b, x)]))
        th.ax('div', all_([x, y], self.divf(x, y) == x * self.inv(y), [self.divf(x, y)]))
        th.ax('inv', all_([y], z3.Implies(y != 0, z3.And(
            self.inv(y) * y == 1, self.inv(y) != 0)), [self.inv(y)]))

    # the laws are stated at the points that occur
    def law_sum(self, b, x, y):
        pw, pd = self.powf, self.powdef
        return z3.Implies(z3.And(pd(b, x), pd(b, y)), z3.And(
            pd(b, x + y), pw(b, x) * pw(b, y) == pw(b, x + y)))

    def law_small(self, b):
        pw, pd = self.powf, self.powdef
        r = [(z3.RealVal(0), z3.RealVal(1)), (z3.RealVal(1), b), (z3.RealVal(2), b * b)]
        return z3.And(*[z3.And(pd(b, n), pw(b, n) == t) for n, t in r])

    def law_pow(self, b, x, y):
        pw, pd, I = self.powf, self.powdef, self.isint
        return z3.Implies(z3.And(I(x), I(y), pd(b, x), pd(pw(b, x), y)), z3.And(
            pd(b, x * y), pw(b, x * y) == pw(pw(b, x), y)))

    # ---------------------------------------------------------------- operations
    def operations(self):
        C = self.contracts
        anon = S_ + '(anon)::'
        C[anon + 'is_integer'] = lambda I, t, a, n: self.isint(self.ld(I, a[0]))
        fresh = lambda so: lambda I, t, a, n: I.fresh(so, 'attribute')
        for q in ('determine_polynomial', 'determine_include_ite'):
            C[anon + q] = fresh(B)
        for cls in ('ExpressionAdd', 'ExpressionMul'):
            C[S_ + cls + '::ExtractVariables'] = lambda I, t, a, n: Cont(
                self.SV, I.fresh(self.SV.sort, 'variables'))
        for q in ('Formula::True', 'Formula::False', 'Formula::GetFreeVariables',
                  'Formula::include_ite'):
            C[S_ + q] = self.client[S_ + q]
        self.qsum = self.QE().fold_sum('qsum', lambda x: self.v(x))
        self.qprod = self.QE().fold_sum('qprod', lambda x: self.v(x), z3.RealVal(1),
                                        lambda p, q: p * q)
        self.qd = self.QE().fold_all('qdefined', lambda x: self.df(x))
        self.extra_candidates.append(self.templates)

    def QE(self):
        return self.th.seq_of(self.E)

    def post_op(self, I, op, x, y, r):
        """facts: (name, formula) of the result of an operation"""
        a = self.v(x)
        b = self.v(y) if y is not None else None
        pre = [self.df(x), self.domain(op, a, b)] + ([self.df(y)] if y is not None else [])
        out = [('where the operands and the operation are defined, so is the result, and its '
                'value is the operation applied to their values',
                z3.Implies(z3.And(*pre), z3.And(
                    self.df(r), self.v(r) == self.arith(op, a, b))))]
        if op == 'Pow':
            out.append(('the power of constants is a constant', z3.Implies(
                z3.And(self.isconst(x), self.isconst(y)), self.isconst(r))))
            out.append(('other powers are no constants', z3.Implies(
                self.entry_ok(x, y), z3.Not(self.isconst(r)))))
        return out

    def laws(self, I, op, x, y, r):
        a = self.v(x)
        b = self.v(y) if y is not None else None
        if op == '*':
            i = self.inv
            I.assume(z3.Implies(z3.And(a != 0, b != 0), i(a * b) == i(a) * i(b)))

    def post_arith(self, I, op, x, y):
        r = I.fresh(self.E, 'e')
        self.assume_facts(I, self.post_op(I, op, x, y, r))
        self.laws(I, op, x, y, r)
        return r

    def facts_ite(self, r, c, a, b):
        h = self.holds(c, self.en0)
        d = self.df
        return [('where the selected branch is defined, so is the result, with its value',
                 z3.Implies(z3.And(self.dF(c), z3.Implies(h, d(a)), z3.Implies(z3.Not(h), d(b))),
                            z3.And(d(r), self.v(r) == z3.If(h, self.v(a), self.v(b)))))]

    def std_value_function(self, I, name, v, a, argn, n):
        if name == 'infinity':
            return I.fresh(R, 'infinity')
        if name in ('lowest', 'max', 'min') and not v:
            return z3.IntVal({'lowest': -2 ** 31, 'min': -2 ** 31, 'max': 2 ** 31 - 1}[name])
        if name == 'nextafter':
            return I.fresh(R, 'next')
        return super().std_value_function(I, name, v, a, argn, n)

    def std_function_ext(self, I, name, v, a, argn, n):
        if all(z3.is_expr(x) for x in v):
            if name in ('fabs', 'abs') and len(v) == 1:
                return z3.If(v[0] >= 0, v[0], -v[0])
            if name == 'pow':
                return self.powf(v[0], v[1])
            if name == 'modf' and len(v) == 2:
                return z3.If(z3.IsInt(v[0]), z3.RealVal(0), v[0] - z3.ToReal(z3.ToInt(v[0])))
            if name == 'isfinite':
                return z3.BoolVal(True)
            if name == 'isnan':
                return z3.BoolVal(False)
        return super().std_function_ext(I, name, v, a, argn, n)

    # ---------------------------------------------------------------- cells
    def expression_term(self, I, k, f):
        t = I.fresh(self.E, 'cell')
        I.assume(self.ekind(t) == self.KE[k])
        val = lambda x: x.term if isinstance(x, Cont) else x
        for nm, x in f.items():
            fn = {'constant_': 'c0', 'v_': 'cval'}.get(nm) or self.EFIELD.get(nm)
            if nm.startswith('^') or fn is None or nm in (
                    'kind_', 'variables_', 'include_ite_', 'hash_', 'is_polynomial_',
                    'is_expanded_'):
                continue
            x = val(x)
            if z3.is_expr(x):
                I.assume(getattr(self, fn)(t) == x)
        for q, g, _t in self.invariants(t):
            if q == k:
                I.oblige(g, 'the invariant of Expression%s' % k)
        return t

    # ---------------------------------------------------------------- factories
    def factories(self):
        C = self.contracts
        for op in '+*':
            cls = S_ + ('ExpressionAddFactory' if op == '+' else 'ExpressionMulFactory')
            for m, f in (('AddExpression', self.fac_add), ('Add', self.fac_add),
                         ('AddTerm', self.fac_term), ('AddMap', self.fac_map),
                         ('Negate', self.fac_neg), ('GetExpression', self.fac_get)):
                C[cls + '::' + m] = f(op)

    def parts(self, op):
        if op == '+':
            return self.MED, 'expr_to_coeff_map_', self.vsum, self.dA, self.okA
        return self.MEE, 'base_to_exponent_map_', self.vprod, self.dM, self.okM

    def state(self, I, this, op):
        o = I.load(this)
        M, nm, fold, d, ok = self.parts(op)
        if not isinstance(o, Obj):
            raise Unsupported('factory')
        m = o.fields[nm]
        if isinstance(m, Obj) and m.cls == 'initlist' and not m.fields['items']:
            m = Cont(M, M.empty)
        return o.fields['constant_'], m.term

    def total(self, op, c, m):
        fold = self.parts(op)[2]
        return c + fold(m, self.en0) if op == '+' else c * fold(m, self.en0)

    def comb(self, op, a, b):
        return a + b if op == '+' else a * b

    def fac_step(self, op, I, c0, m0, c1, m1, pre, amount):
        """The factory goes from (c0, m0) to (c1, m1) by taking in `amount`."""
        M, nm, fold, d, ok = self.parts(op)
        return [('the invariant of the factory', ok(m1)),
                ('what it stands for is combined with the operand', z3.Implies(
                    z3.And(d(m0), pre), z3.And(d(m1), self.total(op, c1, m1) == self.comb(
                        op, self.total(op, c0, m0), amount))))]

    def change(self, op, I, this, pre, amount):
        M, nm, fold, d, ok = self.parts(op)
        c0, m0 = self.state(I, this, op)
        I.oblige(ok(m0), 'the invariant of the factory')
        c1, m1 = I.fresh(R, 'c'), I.fresh(M.sort, 'm')
        o = I.load(this)
        I.store(this, Obj(o.cls, dict(o.fields, **{'constant_': c1, nm: Cont(M, m1)})))
        self.assume_facts(I, self.fac_step(op, I, c0, m0, c1, m1, pre, amount))
        return this

    def operand(self, I, a):
        x = self.ld(I, a)
        if isinstance(x, Obj):
            x = self.unptr(I, x)
        return self.asE(I, x)

    def fac_add(self, op):
        def c(I, this, args, n):
            x = self.operand(I, args[0])
            return self.change(op, I, this, self.df(x), self.v(x))
        return c

    def term_pre(self, I, op, a):
        """(structural requirement, definedness, value) of an added term"""
        if op == '+':
            c, x = a
            return z3.Not(self.isconst(x)), self.df(x), c * self.v(x)
        b, x = a
        return self.entry_ok(b, x), z3.And(
            self.df(b), self.df(x), self.powdef(self.v(b), self.v(x))), \
            self.powf(self.v(b), self.v(x))

    def fac_term(self, op):
        def c(I, this, args, n):
            a = [self.ld(I, x) for x in args]
            ok, d, amount = self.term_pre(I, op, a)
            I.oblige(ok, 'the term is no constant')
            return self.change(op, I, this, d, amount)
        return c

    def fac_map(self, op):
        def c(I, this, args, n):
            M, nm, fold, d, ok = self.parts(op)
            m = self.ld(I, args[0]).term
            I.oblige(ok(m), 'the invariant of the factory')
            return self.change(op, I, this, d(m), fold(m, self.en0))
        return c

    def neg_step(self, op, I, c0, m0, c1, m1):
        M, nm, fold, d, ok = self.parts(op)
        return [('the invariant of the factory', ok(m1)),
                ('what it stands for is negated', z3.Implies(d(m0), z3.And(
                    d(m1), self.total(op, c1, m1) == -self.total(op, c0, m0))))]

    def fac_neg(self, op):
        def c(I, this, args, n):
            M, nm, fold, d, ok = self.parts(op)
            c0, m0 = self.state(I, this, op)
            I.oblige(ok(m0), 'the invariant of the factory')
            c1, m1 = I.fresh(R, 'c'), I.fresh(M.sort, 'm')
            o = I.load(this)
            I.store(this, Obj(o.cls, dict(o.fields, **{'constant_': c1, nm: Cont(M, m1)})))
            self.assume_facts(I, self.neg_step(op, I, c0, m0, c1, m1))
            return this
        return c

    def get_facts(self, op, c, m, r):
        M, nm, fold, d, ok = self.parts(op)
        out = [('the result has the value that the factory stands for', z3.Implies(
            d(m), z3.And(self.df(r), self.v(r) == self.total(op, c, m))))]
        if op == '*':
            out.append(('a product with factors is no constant', z3.Implies(
                z3.And(c != 0, m != M.empty), z3.Not(self.isconst(r)))))
        return out

    def fac_get(self, op):
        def c(I, this, args, n):
            M, nm, fold, d, ok = self.parts(op)
            c0, m0 = self.state(I, this, op)
            o = I.load(this)
            I.oblige(z3.Not(I.as_bool(o.fields['get_expression_is_called_'])),
                     'the expression is taken out once')
            I.oblige(ok(m0), 'the invariant of the factory')
            r = I.fresh(self.E, 'built')
            self.assume_facts(I, self.get_facts(op, c0, m0, r))
            I.store(this, Obj(o.cls, dict(o.fields, **{
                'get_expression_is_called_': z3.BoolVal(True),
                nm: Cont(M, I.fresh(M.sort, 'limbo'))})))
            return r
        return c

    # ---------------------------------------------------------------- loops
    def templates(self, I, node, entry, havoced, mods, iters, accs, pterm, term):
        out = []
        for loc, path in accs:
            if not path or path[-1] not in ('expr_to_coeff_map_', 'base_to_exponent_map_'):
                continue
            op = '+' if path[-1][0] == 'e' else '*'
            M, nm, fold, d, ok = self.parts(op)
            cp = path[:-1] + ('constant_',)
            t0, c0 = term(snap_get(entry, loc, path)), term(snap_get(entry, loc, cp))
            if t0 is None or c0 is None:
                continue
            at = lambda s, loc=loc, path=path: term(snap_get(s, loc, path))
            ct = lambda s, loc=loc, cp=cp: term(snap_get(s, loc, cp))
            out.append(Cand('the invariant of the factory', lambda s, at=at, ok=ok: ok(at(s))))
            def once(s, loc=loc, gp=path[:-1] + ('get_expression_is_called_',)):
                f = snap_get(s, loc, gp)
                return None if f is None else I.as_bool(f) == I.as_bool(snap_get(entry, loc, gp))
            out.append(Cand('the expression has not been taken out', once))
            for it in iters:
                def negated(s, it=it, at=at, t0=t0, d=d, fold=fold, M=M):
                    P = pterm(s, it)
                    if P is None or P.sort() != M.sort:
                        return None
                    return z3.Implies(d(t0), z3.And(d(at(s)), fold(at(s), self.en0) + 2 * fold(
                        P, self.en0) == fold(t0, self.en0)))
                out.append(Cand('what was walked is negated', negated))

                def total(s, it=it, at=at, ct=ct, op=op, t0=t0, c0=c0, d=d, fold=fold, M=M):
                    P = pterm(s, it)
                    if P is None:
                        return None
                    if P.sort() == M.sort:
                        dp, amount = d(P), fold(P, self.en0)
                    elif P.sort() == self.QE().sort:
                        dp, amount = self.qd(P), (self.qsum if op == '+' else self.qprod)(P)
                    else:
                        return None
                    return z3.Implies(z3.And(d(t0), dp), z3.And(d(at(s)), self.total(
                        op, ct(s), at(s)) == self.comb(op, self.total(op, c0, t0), amount)))
                out.append(Cand('what was processed is taken in', total))
        return out


def world(prog):
    return PWorld(prog)


OPS = {'+': '+', '-': '-', '*': '*', '/': '/'}


def tasks(prog, w):
    out = []
    v, d = w.v, w.df

    def is_e(p):
        return norm_type(qt(p))[0].split('::')[-1] == 'Expression'

    def short(fn):
        return fn['type']['qualType'].replace('dreal::drake::symbolic::', '')

    def lemmas(I, op, x, y):
        """The laws of powers at the points that the simplifications use."""
        K, P = w.KE, w.KE['Pow']
        ps = [x] + ([y] if y is not None else [])
        for p in ps:
            I.assume(z3.Implies(w.ekind(p) == P, w.law_small(v(w.arg1(p)))))
        a = v(x)
        b = v(y) if y is not None else None
        I.assume(w.law_small(a))
        if op == '*':
            I.assume(w.law_small(b))
            x1, x2, y1, y2 = v(w.arg1(x)), v(w.arg2(x)), v(w.arg1(y)), v(w.arg2(y))
            I.assume(z3.Implies(z3.And(w.ekind(x) == P, w.ekind(y) == P), w.law_sum(x1, x2, y2)))
            I.assume(z3.Implies(w.ekind(x) == P, w.law_sum(x1, x2, z3.RealVal(1))))
            I.assume(z3.Implies(w.ekind(y) == P, w.law_sum(y1, z3.RealVal(1), y2)))
        if op == 'Pow':
            x1, x2 = v(w.arg1(x)), v(w.arg2(x))
            I.assume(z3.Implies(w.ekind(x) == P, w.law_pow(x1, x2, b)))
        if op == 'Sqrt':
            q = v(w.arg1(x))
            I.assume(w.fn1['Sqrt'](q * q) == z3.If(q >= 0, q, -q))

    def operation(fn, op, how, alias=False, method=False):
        """how: 'value' (returns it), 'assign' (left in the first operand)"""
        def t(I):
            args = w.arguments(I, fn, alias)
            this = None
            if method:
                this = I.alloc(I.fresh(w.E, 'this'))
                xs = [I.load(this)]
            else:
                xs = [w.asE(I, a) for a in args]
            x = xs[0]
            y = xs[1] if len(xs) > 1 else None
            o = op
            if op in ('++', '--'):
                o, y = op[0], w.mkC(z3.RealVal(1))
            lemmas(I, o, x, y)
            w.laws(I, o, x, y, None)
            # only where the operands and the operation are defined
            I.assume(z3.And(*[d(z) for z in (x, y) if z is not None]))
            I.assume(w.domain(o, v(x), v(y) if y is not None else None))
            try:
                r = I.inline(fn, this, args, None)
            except CppThrow:
                I.oblige(z3.BoolVal(False), 'no error where the operation is defined')
                return
            if how == 'assign':
                where = args[0] if not method else this
                if isinstance(r, Ref):
                    I.oblige(w.asE(I, r) == w.asE(I, where), 'the operand itself is returned')
                r = where
            if how == 'post':
                I.oblige(w.asE(I, r) == x, 'the old value is returned')
                r = this
            w.oblige_facts(I, w.post_op(I, o, x, y, w.asE(I, r)))
        return t
    for name, q in [(o, 'operator' + o) for o in '+-*/'] + [(o, 'operator%s=' % o)
                                                             for o in '+-*/']:
        for fn in prog.find(S_ + q):
            ps = I_params(fn)
            if fn['kind'] != 'FunctionDecl' or not ps or not all(is_e(p) for p in ps):
                continue
            op = name if len(ps) == 2 else ('neg' if name == '-' else None)
            how = 'assign' if q.endswith('=') else 'value'
            if op is None:
                continue
            out.append(('%s %s' % (q, short(fn)), operation(fn, op, how)))
            if len(ps) == 2 and all('&' in qt(p) and '&&' not in qt(p) for p in ps):
                out.append(('%s %s aliased' % (q, short(fn)), operation(fn, op, how, True)))
    for q in ('++', '--'):
        for fn in prog.find(S_ + 'Expression::operator' + q):
            post = len(I_params(fn)) == 1
            out.append(('operator%s %s' % (q, short(fn)), operation(
                fn, q, 'post' if post else 'assign', method=True)))
    for k in UNARY + ['Pow', 'Atan2', 'Min', 'Max']:
        for fn in prog.find(S_ + k.lower()):
            ps = I_params(fn)
            if ps and all(is_e(p) for p in ps):
                out.append(('%s %s' % (k.lower(), short(fn)), operation(fn, k, 'value')))

    def ite(fn):
        def t(I):
            args = w.arguments(I, fn)
            c, a, b = [I.load(x) for x in args]
            r = w.asE(I, I.inline(fn, None, args, None))
            w.oblige_facts(I, w.facts_ite(r, c, a, b))
        return t
    for fn in prog.find(S_ + 'if_then_else'):
        out.append(('if_then_else', ite(fn)))

    def nary(fn, op):
        def t(I):
            s = I.fresh(w.QE().sort, 's')
            I.assume(w.qd(s))
            r = w.asE(I, I.inline(fn, None, [I.alloc(Cont(w.QE(), s))], None))
            I.oblige(d(r), 'the result is defined where the operands are')
            I.oblige(v(r) == (w.qsum if op == '+' else w.qprod)(s),
                     'the value is that of all operands combined')
        return t
    for q, op in (('Sum', '+'), ('Prod', '*')):
        for fn in prog.find(S_ + q):
            out.append((q, nary(fn, op)))

    out.extend(factory_tasks(prog, w, short))
    out.extend(leaf_tasks(prog, w))
    return out


def leaf_tasks(prog, w):
    out = []
    v, d = w.v, w.df

    def number(ct):
        def t(I):
            x = I.fresh(R, 'x')
            e = w.construct_handle(I, 'Expression', ct, [I.alloc(x)])
            I.oblige(z3.And(w.isconst(e), w.cval(e) == x), 'the constant has that value')
        return t
    out.append(('Expression(double)', number('void (const double)')))

    def variable(ct):
        def t(I):
            x = I.fresh(w.V, 'x')
            try:
                e = w.construct_handle(I, 'Expression', ct, [I.alloc(x)])
            except CppThrow:
                I.oblige(z3.Or(w.vid(x) == 0, w.vtype(x) == w.VT['BOOLEAN']),
                         'only dummy and Boolean variables are rejected')
                return
            I.oblige(z3.And(d(e), v(e) == w.rval(w.en0, x)),
                     'the value is that of the variable')
        return t
    out.append(('Expression(Variable)', variable('void (const %sVariable &)' % '')))

    def integer(fn):
        def t(I):
            x = I.fresh(R, 'x')
            r = I.as_bool(w.ld(I, I.inline(fn, None, [I.alloc(x)], None)))
            I.oblige(r == w.isint(x), 'whole numbers that fit in an int')
        return t
    for fn in prog.find(S_ + '(anon)::is_integer'):
        out.append(('is_integer', integer(fn)))
    return out


def I_params(fn):
    return [c for c in fn.get('inner', ()) if c['kind'] == 'ParmVarDecl']


def factory_tasks(prog, w, short):
    out = []
    v, d = w.v, w.df

    def method(op, fn, name):
        M, nm, fold, dm, ok = w.parts(op)

        def t(I):
            c0, m0 = I.fresh(R, 'c0'), I.fresh(M.sort, 'm0')
            I.assume(ok(m0))
            cls = 'ExpressionAddFactory' if op == '+' else 'ExpressionMulFactory'
            called = I.fresh(B, 'called')
            this = I.alloc(Obj(S_ + cls, {
                'constant_': c0, nm: Cont(M, m0), 'get_expression_is_called_': called}))
            if name in ('AddExpression', 'Add', 'operator='):
                x = I.fresh(w.E, 'x')
                if name == 'AddExpression':
                    args = [I.alloc(x)]
                else:
                    I.assume(w.ekind(x) == w.KE['Add' if op == '+' else 'Mul'])
                    args = [w.cellptr(I, x)]
                for p in (w.law_small(v(x)),):
                    I.assume(p)
                pre, amount = d(x), v(x)
            elif name == 'AddConstant':
                c = I.fresh(R, 'c')
                args, pre, amount = [I.alloc(c)], z3.BoolVal(True), c
            elif name == 'AddTerm':
                a = [I.fresh(R, 'coeff') if op == '+' else I.fresh(w.E, 'base'),
                     I.fresh(w.E, 'term')]
                args = [I.alloc(x) for x in a]
                okt, pre, amount = w.term_pre(I, op, a)
                I.assume(okt)
                if op == '*':
                    b, x = a
                    old = w.MEE.get(m0, b)
                    I.assume(w.law_small(v(b)))
                    I.assume(w.law_sum(v(b), v(old), v(x)))
                    I.assume(z3.Implies(w.ekind(b) == w.KE['Pow'], w.law_pow(
                        v(w.arg1(b)), v(w.arg2(b)), v(x))))
            elif name == 'AddMap':
                m = I.fresh(M.sort, 'm')
                I.assume(ok(m))
                args, pre, amount = [I.alloc(Cont(M, m))], dm(m), fold(m, w.en0)
            else:
                args, pre, amount = [], z3.BoolVal(True), None
            I.assume(z3.And(dm(m0), pre))
            try:
                r = I.inline(fn, this, args, None)
            except CppThrow:
                I.oblige(called if name == 'GetExpression' else z3.BoolVal(False),
                         'no error where the operand is defined')
                return
            if name == 'GetExpression':
                I.oblige(z3.Not(called), 'the expression is taken out once')
                I.oblige(I.as_bool(I.load(this).fields['get_expression_is_called_']),
                         'the expression is taken out once')
                w.oblige_facts(I, w.get_facts(op, c0, m0, w.asE(I, r)))
                return
            if not isinstance(r, Ref) or r.loc != this.loc:
                I.oblige(z3.BoolVal(False), 'the factory itself is returned')
            c1, m1 = w.state(I, this, op)
            if name == 'Negate':
                w.oblige_facts(I, w.neg_step(op, I, c0, m0, c1, m1))
            elif name == 'operator=':
                I.oblige(ok(m1), 'the invariant of the factory')
                I.oblige(dm(m1), 'what it stands for is defined')
                I.oblige(w.total(op, c1, m1) == amount, 'what it stands for is the operand')
            else:
                w.oblige_facts(I, w.fac_step(op, I, c0, m0, c1, m1, pre, amount))
        return t
    for op, cls in (('+', 'ExpressionAddFactory'), ('*', 'ExpressionMulFactory')):
        for name in ('AddExpression', 'Add', 'operator=', 'AddConstant', 'AddTerm', 'AddMap',
                     'Negate', 'GetExpression'):
            for fn in prog.find(S_ + cls + '::' + name):
                if fn.get('isImplicit') or 'const %s &' % cls in short(fn) or \
                        '%s &&' % cls in short(fn):
                    continue
                out.append(('%s::%s' % (cls, name), method(op, fn, name)))
    return out
