"""P16: strengthening and weakening by delta."""
import z3

from ..interp import Cont, CppThrow, Obj
from ..symbolic_world import SymWorld, S_
from ..theory import B, R
from ..world import Cand, snap_get

SOURCES = ['dreal/symbolic/symbolic.cc']
TRUSTED = ['contracts of the formula and expression constructors (P06, P07, P08)',
           'no expression constructor introduces a conditional or a NaN (P15)',
           'rebuilding two expressions from their own parts does not change whether comparing them '
           'is decided at construction']
ASSUMPTIONS = ['doubles are real numbers']
V = 'dreal::(anon)::DeltaStrengthenVisitor::'


def add_clean(w):
    """clean(f): quantifier-free and without conditionals or NaN; eclean(e) likewise."""
    F, E, K, KE = w.F, w.E, w.KF, w.KE
    w.clean = z3.Function('clean', F, B)
    w.eclean = z3.Function('eclean', E, B)
    w.allclean = w.SF.fold_all('allclean', lambda x: w.clean(x))
    f, e = z3.Const('f', F), z3.Const('e', E)
    k, ke = w.kind(f), w.ekind(e)
    w.th.ax('clean', w.th.forall([f], w.clean(f) == z3.And(
        k != K['Forall'],
        z3.Implies(z3.Or(k == K['And'], k == K['Or']), w.allclean(w.ops_(f))),
        z3.Implies(k == K['Not'], w.clean(w.opnd(f))),
        z3.Implies(w.isrel(k), z3.And(w.eclean(w.lhs(f)), w.eclean(w.rhs(f))))),
        [(w.clean(f), k)]))
    un = z3.Or(*[ke == KE[q] for q in w.unary_kinds])
    bi = z3.Or(*[ke == KE[q] for q in w.binary_kinds])
    b = z3.Const('b', E)
    w.th.ax('eclean', w.th.forall([e], z3.Implies(w.eclean(e), z3.And(
        ke != KE['IfThenElse'], ke != KE['NaN'], z3.Implies(un, w.eclean(w.arg(e))),
        z3.Implies(bi, z3.And(w.eclean(w.arg1(e)), w.eclean(w.arg2(e)))))),
        [(w.eclean(e), ke)]))
    w.th.ax('eclean.add', w.th.forall([e, b], z3.Implies(
        z3.And(w.eclean(e), ke == KE['Add'], w.MED.has(w.amap(e), b)), w.eclean(b)),
        [(w.eclean(e), w.MED.has(w.amap(e), b))]))
    w.th.ax('eclean.mul', w.th.forall([e, b], z3.Implies(
        z3.And(w.eclean(e), ke == KE['Mul'], w.MEE.has(w.mmap(e), b)),
        z3.And(w.eclean(b), w.eclean(w.MEE.get(w.mmap(e), b)))),
        [(w.eclean(e), w.MEE.has(w.mmap(e), b))]))
    x = z3.Real('x')
    w.th.ax('eclean.c', w.th.forall([x], w.eclean(w.mkC(x)), [w.mkC(x)]))
    v = z3.Const('v', w.V)
    w.th.ax('eclean.v', w.th.forall([v], w.eclean(w.mkEV(v)), [w.mkEV(v)]))

    def ehook(I, r, parts, forms):
        if not forms:
            I.assume(z3.Implies(z3.And(*[w.eclean(p) for p in parts]), w.eclean(r)))
    w.expr_hooks = getattr(w, 'expr_hooks', []) + [ehook]
    w.accreal_clean = True
    w.acc[w.SF.sort.name()] = w.acc.get(w.SF.sort.name(), []) + [
        ('allclean', lambda t: w.allclean(t), ())]
    w.acc['E'] = w.acc.get('E', []) + [('eclean', lambda t: w.eclean(t), ())]


def add_folds(w):
    """folds(x, y): comparing x and y is decided when the comparison is built."""
    w.folds = z3.Function('folds', w.E, w.E, B)
    w.rebuilt = z3.Function('rebuilt', w.E, w.E, B)
    f = z3.Const('f', w.F)
    a, b, c, d = z3.Consts('a b c d', w.E)
    w.th.ax('folds.cell', w.th.forall([f], z3.Implies(
        w.isrel(w.kind(f)), z3.Not(w.folds(w.lhs(f), w.rhs(f)))),
        [(w.kind(f), w.lhs(f)), (w.kind(f), w.rhs(f))]))
    w.th.ax('folds.rebuilt', w.th.forall([a, b, c, d], z3.Implies(
        z3.And(w.rebuilt(a, b), w.rebuilt(c, d)), w.folds(a, c) == w.folds(b, d)),
        [(w.rebuilt(a, b), w.rebuilt(c, d), w.folds(a, c))]))

    def fhook(I, r, parts, how, exprs):
        if how == 'rel':
            I.assume(z3.Or(w.folds(*exprs), w.isrel(w.kind(r))))
    w.formula_hooks = getattr(w, 'formula_hooks', []) + [fhook]


def one_way(w):
    """holds(acc) versus the folds over what is done, one direction at a time."""
    def h(I, node, entry, havoced, mods, iters, accs, pterm, term):
        out = []
        en = z3.Const('q0', w.Env)
        for loc, path in accs:
            e0 = term(snap_get(entry, loc, path))
            if e0 is None or e0.sort() not in (w.F, w.SF.sort):
                continue
            for it in iters:
                for fold in (w.allh, w.noneh) if e0.sort() == w.SF.sort else ():
                    for fwd in (True, False):
                        def at2(s, loc=loc, path=path, it=it, e0=e0, fold=fold, fwd=fwd):
                            t, P = term(snap_get(s, loc, path)), pterm(s, it)
                            if t is None or P is None or P.sort() != w.SF.sort:
                                return None
                            l, r = fold(t, en), z3.And(fold(e0, en), fold(P, en))
                            return z3.ForAll([en], z3.Implies(l, r) if fwd else z3.Implies(r, l),
                                             patterns=[fold(t, en)])
                        out.append(Cand('values of the members of acc', at2))
                if e0.sort() != w.F:
                    continue
                for nm, con, fold in (('and all', z3.And, w.allh),
                                      ('or some', z3.Or, lambda P, e: z3.Not(w.noneh(P, e)))):
                    for fwd in (True, False):
                        def at(s, loc=loc, path=path, it=it, e0=e0, con=con, fold=fold, fwd=fwd):
                            t, P = term(snap_get(s, loc, path)), pterm(s, it)
                            if t is None or P is None or P.sort() != w.SF.sort:
                                return None
                            l, r = w.holds(t, en), con(w.holds(e0, en), fold(P, en))
                            return z3.ForAll([en], z3.Implies(l, r) if fwd else z3.Implies(r, l),
                                             patterns=[w.holds(t, en)])
                        out.append(Cand('holds(acc) %s old %s(done)' % (
                            'implies' if fwd else 'is implied by', nm), at))
        return out
    w.extra_candidates.append(h)


def world(prog):
    w = SymWorld(prog)
    add_clean(w)
    add_folds(w)
    one_way(w)

    def visit(I, this, args, n):
        x, d = w.lv(I, args[0]), w.lv(I, args[1])
        if x.sort() == w.E:
            I.oblige(w.eclean(x), 'the visited expression has no conditional and no NaN')
            r = I.fresh(w.E, 'e')
            epost(w, I, x, r, True)
            return r
        I.oblige(w.clean(x), 'the visited formula is quantifier-free and has no conditional and no NaN')
        I.oblige(d != 0, 'delta is not zero')
        r = I.fresh(w.F, 'f')
        fpost(w, I, x, d, r, True)
        return r
    w.contracts[V + 'Visit'] = visit
    return w


def epost(w, I, e, r, mk=False):
    facts = [('same value under every assignment', w.forall_env(
        lambda en: w.val(r, en) == w.val(e, en), lambda en: w.val(r, en))),
        ('no conditional and no NaN in the result', w.eclean(r))]
    if mk:
        I.assume(w.ekind(r) >= 0)
        I.assume(w.rebuilt(r, e))
    for nm, x in facts:
        I.assume(x) if mk else I.oblige(x, nm)


def fpost(w, I, f, d, r, mk=False):
    en = z3.Const('en', w.Env)
    facts = [('with positive delta the result implies the formula', z3.Implies(d > 0, z3.ForAll(
        [en], z3.Implies(w.holds(r, en), w.holds(f, en)), patterns=[w.holds(r, en)]))),
        ('with negative delta the formula implies the result', z3.Implies(d < 0, z3.ForAll(
            [en], z3.Implies(w.holds(f, en), w.holds(r, en)), patterns=[w.holds(r, en)])))]
    if mk:
        I.assume(w.kind(r) >= 0)
    for nm, x in facts:
        I.assume(x) if mk else I.oblige(x, nm)


def tasks(prog, w):
    this = lambda I: I.alloc(Obj(V[:-2], {}))
    overload = {}
    for fn in prog.find(V + 'Visit'):
        overload['Formula' if 'Formula (' in fn['type']['qualType'] else 'Expression'] = fn

    def visit_e(I):
        e, d = I.fresh(w.E, 'e'), I.fresh(R, 'delta')
        I.assume(w.eclean(e))
        r = I.inline(overload['Expression'], this(I), [I.alloc(e), I.alloc(d)], None)
        epost(w, I, e, w.lv(I, r))

    def visit_f(I):
        f, d = I.fresh(w.F, 'f'), I.fresh(R, 'delta')
        I.assume(w.clean(f))
        I.assume(d != 0)
        I.branch(d > 0)
        r = I.inline(overload['Formula'], this(I), [I.alloc(f), I.alloc(d)], None)
        fpost(w, I, f, d, w.lv(I, r))

    def top(nm, sign):
        def t(I):
            f, d = I.fresh(w.F, 'f'), I.fresh(R, 'delta')
            I.assume(w.clean(f))
            I.assume(d > 0)
            r = I.inline(prog.find('dreal::' + nm)[0], None, [I.alloc(f), I.alloc(d)], None)
            r = w.lv(I, r)
            en = z3.Const('en', w.Env)
            a, b = (r, f) if sign > 0 else (f, r)
            I.oblige(z3.ForAll([en], z3.Implies(w.holds(a, en), w.holds(b, en))),
                     'the strengthened formula implies the original' if sign > 0 else
                     'the original implies the weakened formula')
        return (nm, t)
    return [('DeltaStrengthenVisitor::Visit(Expression)', visit_e),
            ('DeltaStrengthenVisitor::Visit(Formula)', visit_f),
            top('DeltaStrengthen', 1), top('DeltaWeaken', -1)]
