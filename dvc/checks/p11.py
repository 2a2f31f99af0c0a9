"""P11: evaluation, on the real cells and handles."""
import z3

from ..cell_world import CellWorld
from ..frontend import SYM
from ..interp import Cont, CppThrow, Obj, Ref, Unsupported, norm_type, qt
from ..symbolic_world import BINARY, ECELLS, FCELLS, S_, UNARY
from ..theory import B, I as INT, R
from ..world import Cand, snap_get

SOURCES = [SYM + 'symbolic_formula.cc', SYM + 'symbolic_formula_cell.cc',
           SYM + 'symbolic_expression.cc', SYM + 'symbolic_expression_cell.cc']
TRUSTED = ['std::log, exp, sqrt, pow, sin, ... compute the functions they are named after',
           'std::accumulate, all_of, any_of (as the loops that define them)',
           'the contracts of Variables and Environment (P18)']
ASSUMPTIONS = ['doubles are real numbers: rounding, overflow to infinity and NaN are not modelled',
               'the environment maps no variable to NaN (obliged where environments are built)']

STD = {'log': 'Log', 'exp': 'Exp', 'sqrt': 'Sqrt', 'sin': 'Sin', 'cos': 'Cos', 'tan': 'Tan',
       'asin': 'Asin', 'acos': 'Acos', 'atan': 'Atan', 'sinh': 'Sinh', 'cosh': 'Cosh',
       'tanh': 'Tanh'}


class EvalWorld(CellWorld):
    def __init__(self, prog):
        super().__init__(prog)
        C, M = self.contracts, self.MVR
        self.isint = z3.Function('is_integer', R, B)
        C[S_ + '(anon)::is_integer'] = lambda I, t, a, n: self.isint(self.ld(I, a[0]))
        x = z3.Real('ix')
        self.th.ax('is_integer', self.th.forall([x], self.isint(x) == z3.And(
            z3.IsInt(x), x >= -2 ** 31, x <= 2 ** 31 - 1), [self.isint(x)]))
        self.transparent.add('map_')
        self.accreal['Real'] = [('value', lambda t: t, ())]
        for cls, ok, value in (('Expression', self.okE, self.val),
                               ('Formula', self.okF, self.holds)):
            C[S_ + cls + 'Cell::Evaluate'] = self.evaluate(ok, value)
        for cls in ('UnaryExpressionCell', 'BinaryExpressionCell'):
            C[S_ + cls + '::DoEvaluate'] = self.do_evaluate
        self.m0 = z3.Const('m0', M.sort)
        ok = self.okE
        self.allok = self.SF.fold_all('allok', lambda f: self.okF(f, self.m0))
        self.allokA = self.MED.fold_all('allokA', lambda k, c: ok(k, self.m0))
        # the value of an operand, and the domain of the power
        self.allokM = self.MEE.fold_all('allokM', lambda k, x: z3.And(
            ok(k, self.m0), ok(x, self.m0), self.powdom(
                self.val(k, self.env_of(self.m0)), self.val(x, self.env_of(self.m0)))))
        en = self.env_of(self.m0)
        self.procreal[self.MED.sort.name()] = [('sum', lambda t: self.vsum(t, en), ())]
        self.procreal[self.MEE.sort.name()] = [('product', lambda t: self.vprod(t, en), ())]
        self.proc[self.SF.sort.name()] = [
            ('all', lambda t: self.allh(t, en), ()), ('some', lambda t: z3.Not(
                self.noneh(t, en)), ())]
        self.extra_candidates.append(self.templates)
        # dom(env)
        C[S_ + 'Environment::domain'] = self.domain
        self.dom = z3.Function('dom', M.sort, self.SV.sort)
        m, v = z3.Const('dm', M.sort), z3.Const('dv', self.V)
        self.th.ax('dom', self.th.forall([m, v], self.SV.mem(v, self.dom(m)) == M.has(m, v),
                                         [self.SV.mem(v, self.dom(m)), M.has(m, v)]))
        # the size of a part is at most that of the whole (finite sets)
        s, t = z3.Const('ds', self.SV.sort), z3.Const('dt', self.SV.sort)
        self.witness = z3.Function('not_in', self.SV.sort, self.SV.sort, self.V)
        w = self.witness(s, t)
        self.th.ax('card.subset', self.th.forall([s, m], z3.Or(
            self.SV.card(s) <= M.card(m), z3.And(
                self.SV.mem(self.witness(s, self.dom(m)), s),
                z3.Not(M.has(m, self.witness(s, self.dom(m)))))),
            [(self.SV.card(s), M.card(m))]))

    def powdom(self, b, x):
        return z3.Not(z3.And(b < 0, z3.Not(self.isint(x))))

    def domain(self, I, this, args, n):
        return Cont(self.SV, self.dom(I.load(this).term))

    def do_evaluate(self, I, this, args, n):
        cls = I.ghost['class']
        fn, = I.prog.find(S_ + cls + '::DoEvaluate')
        return I.inline(fn, this, [a if isinstance(a, Ref) else I.alloc(a) for a in args], n)

    def std_function_ext(self, I, name, v, a, argn, n):
        if all(z3.is_expr(x) for x in v):
            if name in STD and len(v) == 1:
                return self.fn1[STD[name]](v[0])
            if name in ('fabs', 'abs') and len(v) == 1:
                return z3.If(v[0] >= 0, v[0], -v[0])
            if name == 'pow':
                return self.powf(v[0], v[1])
            if name == 'atan2':
                return self.atan2f(v[0], v[1])
            if name == 'lowest' and not v:
                return z3.IntVal(-2 ** 31)
            if name == 'max' and not v:
                return z3.IntVal(2 ** 31 - 1)
            if name == 'modf' and len(v) == 2:
                return z3.If(z3.IsInt(v[0]), z3.RealVal(0), v[0] - z3.ToReal(z3.ToInt(v[0])))
            if name == 'isfinite':
                self.assumptions.add('doubles are finite')
                return z3.BoolVal(True)
        return super().std_function_ext(I, name, v, a, argn, n)

    def templates(self, I, node, entry, havoced, mods, iters, accs, pterm, term):
        out = []
        folds = {self.SF.sort.name(): self.allok, self.MED.sort.name(): self.allokA,
                 self.MEE.sort.name(): self.allokM}
        for it in iters:
            def c(s, it=it):
                P = pterm(s, it)
                f = P is not None and folds.get(P.sort().name())
                return f(P) if f is not None and f is not False else None
            out.append(Cand('every operand so far evaluates', c))
            for nm, f in (('every operand so far holds', self.allh),
                          ('no operand so far holds', self.noneh)):
                def c2(s, it=it, f=f):
                    P = pterm(s, it)
                    return f(P, self.env_of(self.m0)) if P is not None and \
                        P.sort() == self.SF.sort else None
                out.append(Cand(nm, c2))
        for loc, path in accs:
            t0 = term(snap_get(entry, loc, path))
            if t0 is not None and t0.sort() == B:
                out.append(Cand('the flag is still as at the start', lambda s, loc=loc, path=path,
                                t0=t0: term(snap_get(s, loc, path)) == t0))
        return out


def world(prog):
    return EvalWorld(prog)


def domain_of(w, k, v):
    """Where the operation is defined (arguments v)."""
    if k in ('Log', 'Sqrt'):
        return v[0] >= 0
    if k in ('Asin', 'Acos'):
        return z3.And(v[0] >= -1, v[0] <= 1)
    if k == 'Div':
        return v[1] != 0
    if k == 'Pow':
        return w.powdom(v[0], v[1])
    return z3.BoolVal(True)


def tasks(prog, w):
    out = []
    m0 = w.m0
    en = w.env_of(m0)

    def run(I, fn, t):
        try:
            return w.ld(I, I.inline(fn, I.alloc(t), [I.alloc(Cont(w.MVR, m0, True))], None))
        except CppThrow:
            return None

    def expression(cls, k, fn):
        def body(I):
            I.ghost['class'] = cls
            t = I.fresh(w.E, 't')
            I.assume(w.ekind(t) == w.KE[k])
            val = lambda x: w.val(x, en)
            ok = lambda x: w.okE(x, m0)
            if k in ('NaN', 'UninterpretedFunction'):
                good = z3.BoolVal(False)
            elif k in ('Constant', 'RealConstant'):
                good = z3.BoolVal(True)
            elif k == 'Var':
                good = w.MVR.has(m0, w.evar(t))
            elif k == 'Add':
                good = w.allokA(w.amap(t))
            elif k == 'Mul':
                good = w.allokM(w.mmap(t))
            elif k == 'IfThenElse':
                c = w.icond(t)
                good = z3.And(w.okF(c, m0), z3.If(w.holds(c, en), ok(w.ithen(t)),
                                                 ok(w.ielse(t))))
            else:
                ps = [w.arg(t)] if k in UNARY else [w.arg1(t), w.arg2(t)]
                good = z3.And(*[ok(p) for p in ps] + [domain_of(w, k, [val(p) for p in ps])])
            r = run(I, fn, t)
            if r is None:
                I.oblige(z3.Not(good), 'evaluation fails only if a variable has no value or an '
                         'argument is outside the domain')
                return
            I.oblige(good, 'evaluation fails if a variable has no value or an argument is '
                     'outside the domain')
            if k == 'RealConstant':
                I.oblige(r == z3.If(w.rcuse(t), w.rclb(t), w.rcub(t)), 'the representative')
                return
            I.oblige(r == val(t), 'the value of the term')
        return body

    def formula(cls, k, fn):
        def body(I):
            t = I.fresh(w.F, 't')
            I.assume(w.kind(t) == w.KF[k])
            known = z3.BoolVal(True)
            if k in ('And', 'Or'):
                every = w.allok(w.ops_(t))
                decided = z3.Not(w.allh(w.ops_(t), en)) if k == 'And' else z3.Not(
                    w.noneh(w.ops_(t), en))
            elif k == 'Forall':
                every = z3.BoolVal(False)
            elif k == 'Var':
                every = w.MVR.has(m0, w.fvar(t))
            elif k == 'Not':
                every = w.okF(w.opnd(t), m0)
            elif k in ('True', 'False'):
                every = z3.BoolVal(True)
            else:
                every = z3.And(w.okE(w.lhs(t), m0), w.okE(w.rhs(t), m0))
                if k in ('Eq', 'Neq'):
                    # the statement is about environments for all the variables
                    v = z3.Const('kv', w.V)
                    for x in (w.lhs(t), w.rhs(t)):
                        I.assume(z3.ForAll([v], z3.Implies(w.SV.mem(v, w.efv(x)),
                                                           w.MVR.has(m0, v)),
                                           patterns=[w.SV.mem(v, w.efv(x))]))
            r = run(I, fn, t)
            if r is None:
                I.oblige(z3.Not(every), 'evaluation fails only if some operand cannot be '
                         'evaluated')
                return
            if k in ('And', 'Or'):
                I.oblige(z3.Or(every, decided), 'what cannot be evaluated does not matter')
            else:
                I.oblige(every, 'evaluation fails if an operand cannot be evaluated')
            I.oblige(I.as_bool(r) == w.holds(t, en), 'the truth value of the formula')
        return body

    def first(cls, name, chain):
        for c in chain:
            fs = prog.find(S_ + c + '::' + name)
            if fs:
                return fs[0]
        return None
    def integer(fn):
        def body(I):
            v = I.fresh(R, 'v')
            r = w.ld(I, I.inline(fn, None, [I.alloc(v)], None))
            I.oblige(I.as_bool(r) == w.isint(v), 'integers in the range of int')
        return body
    for fn in prog.find(S_ + '(anon)::is_integer'):
        out.append(('is_integer', integer(fn)))
    for cls, k in ECELLS.items():
        fn = first(cls, 'Evaluate', [cls] + (['UnaryExpressionCell'] if k in UNARY else [])
                   + (['BinaryExpressionCell'] if k in BINARY else []))
        if fn is not None:
            out.append((cls + '::Evaluate', expression(cls, k, fn)))
    for cls, k in FCELLS.items():
        for fn in prog.find(S_ + cls + '::Evaluate'):
            out.append((cls + '::Evaluate', formula(cls, k, fn)))
    def handle(cls, fn):
        def body(I):
            isE = cls == 'Expression'
            t = I.fresh(w.E if isE else w.F, 't')
            ok = w.okE if isE else w.okF
            r = run(I, fn, t)
            if r is None:
                I.oblige(z3.Not(ok(t, m0)), 'evaluation fails only if that of the cell does')
                return
            I.oblige(ok(t, m0), 'evaluation fails if that of the cell does')
            I.oblige((w.val(t, en) == r) if isE else (w.holds(t, en) == I.as_bool(r)),
                     'the value of the term')
        return body
    for cls in ('Expression', 'Formula'):
        for fn in prog.find(S_ + cls + '::Evaluate'):
            out.append((cls + '::Evaluate', handle(cls, fn)))
    return out
