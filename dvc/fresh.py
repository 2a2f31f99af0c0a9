"""Freshness of variables.

Variables carry an id; the constructor of Variable takes the next id from a
counter (the clock).  `bel(f, n)` says that every variable that occurs in `f`
has an id below `n`; `agreeB(e, e', n)` that two assignments agree on those
variables.  Facts about `bel` on results of constructors are part of the
constructors' contracts (a result is built from the variables of its operands).
"""
import z3

from .interp import Ref, Cont
from .theory import B, I as INT, R

NOW = Ref('NOW')


def add_fresh(w):
    th, F, E, V, Env = w.th, w.F, w.E, w.V, w.Env
    KF, KE = w.KF, w.KE
    fn = z3.Function
    w.bel = fn('bel', F, INT, B)
    w.ebel = fn('ebel', E, INT, B)
    w.allbel = w.SF.fold_all('allbel', lambda x, n: w.bel(x, n), (INT,))
    w.vbel = w.SV.fold_all('vbel', lambda v, n: w.vid(v) < n, (INT,))
    w.mbel = w.MED.fold_all('mbel', lambda k, v, n: w.ebel(k, n), (INT,))
    w.pbel = w.MEE.fold_all('pbel', lambda k, v, n: z3.And(w.ebel(k, n), w.ebel(v, n)), (INT,))
    w.agreeB = fn('agreeB', Env, Env, INT, B)
    f = z3.Const('f', F)
    e = z3.Const('e', E)
    n, m = z3.Ints('n m')
    a, b = z3.Consts('a b', Env)
    v = z3.Const('v', V)
    k = w.kind(f)
    for nm, d in (('True', True), ('False', True), ('Var', w.vid(w.fvar(f)) < n),
                  ('And', w.allbel(w.ops_(f), n)), ('Or', w.allbel(w.ops_(f), n)),
                  ('Not', w.bel(w.opnd(f), n)),
                  ('Forall', z3.And(w.vbel(w.qvars(f), n), w.bel(w.qbody(f), n)))):
        th.ax('bel.' + nm, th.forall([f, n], z3.Implies(k == KF[nm], w.bel(f, n) == d),
                                     [(w.bel(f, n), k)]))
    th.ax('bel.rel', th.forall([f, n], z3.Implies(w.isrel(k), w.bel(f, n) == z3.And(
        w.ebel(w.lhs(f), n), w.ebel(w.rhs(f), n))), [(w.bel(f, n), k)]))
    ke = w.ekind(e)
    for nm, d in (('Constant', True), ('RealConstant', True), ('NaN', True),
                  ('Var', w.vid(w.evar(e)) < n),
                  ('Add', w.mbel(w.amap(e), n)), ('Mul', w.pbel(w.mmap(e), n)),
                  ('IfThenElse', z3.And(w.bel(w.icond(e), n), w.ebel(w.ithen(e), n),
                                        w.ebel(w.ielse(e), n))),
                  ('UninterpretedFunction', w.vbel(w.ufvars(e), n))):
        th.ax('ebel.' + nm, th.forall([e, n], z3.Implies(ke == KE[nm], w.ebel(e, n) == d),
                                      [(w.ebel(e, n), ke)]))
    from .symbolic_world import UNARY, BINARY
    th.ax('ebel.un', th.forall([e, n], z3.Implies(z3.Or(*[ke == KE[x] for x in UNARY]), w.ebel(
        e, n) == w.ebel(w.arg(e), n)), [(w.ebel(e, n), ke)]))
    th.ax('ebel.bin', th.forall([e, n], z3.Implies(z3.Or(*[ke == KE[x] for x in BINARY]), w.ebel(
        e, n) == z3.And(w.ebel(w.arg1(e), n), w.ebel(w.arg2(e), n))), [(w.ebel(e, n), ke)]))
    # monotone in n; values depend only on the variables that occur
    th.ax('bel.mono', th.forall([f, n, m], z3.Implies(z3.And(w.bel(f, n), n <= m), w.bel(f, m)),
                                [(w.bel(f, n), w.bel(f, m))]))
    th.ax('ebel.mono', th.forall([e, n, m], z3.Implies(z3.And(w.ebel(e, n), n <= m), w.ebel(e, m)),
                                 [(w.ebel(e, n), w.ebel(e, m))]))
    th.ax('frame', th.forall([f, a, b, n], z3.Implies(
        z3.And(w.bel(f, n), w.agreeB(a, b, n)), w.holds(f, a) == w.holds(f, b)),
        [(w.bel(f, n), w.agreeB(a, b, n), w.holds(f, a)),
         (w.bel(f, n), w.agreeB(a, b, n), w.holds(f, b))]))
    th.ax('eframe', th.forall([e, a, b, n], z3.Implies(
        z3.And(w.ebel(e, n), w.agreeB(a, b, n)), w.val(e, a) == w.val(e, b)),
        [(w.ebel(e, n), w.agreeB(a, b, n), w.val(e, a)),
         (w.ebel(e, n), w.agreeB(a, b, n), w.val(e, b))]))
    wit = fn('agreeB.w', Env, Env, INT, V)
    x = wit(a, b, n)
    th.ax('agreeB', th.forall([a, b, n], z3.Or(w.agreeB(a, b, n), z3.And(w.vid(x) < n, z3.Or(
        w.bval(a, x) != w.bval(b, x), w.rval(a, x) != w.rval(b, x)))), [w.agreeB(a, b, n)]))

    def fh(I, r, parts, how, exprs):
        s = [w.bel(p, n) for p in parts] + [w.ebel(x, n) for x in exprs]
        if how == 'nary':
            s = [w.allbel(w.nary_set, n)]
        if how == 'forall':
            s += [w.vbel(w.forall_vars, n)]
        I.assume(z3.ForAll([n], z3.Implies(z3.And(*s), w.bel(r, n)), patterns=[w.bel(r, n)]))

    def eh(I, r, parts, forms):
        s = [w.ebel(p, n) for p in parts] + [w.bel(x, n) for x in forms]
        I.assume(z3.ForAll([n], z3.Implies(z3.And(*s), w.ebel(r, n)), patterns=[w.ebel(r, n)]))
    w.formula_hooks = getattr(w, 'formula_hooks', []) + [fh]
    w.expr_hooks = getattr(w, 'expr_hooks', []) + [eh]

    def fresh(I, v):
        now = I.load(NOW)
        I.assume(w.vid(v) == now)
        I.store(NOW, now + 1)
    w.fresh_hooks = getattr(w, 'fresh_hooks', []) + [fresh]


def start_clock(I):
    n = I.fresh(INT, 'now')
    I.mem['NOW'] = n
    I.assume(n >= 1)
    return n
