"""P06: the logical connectives, on the real constructors and cells."""
import z3

from ..cell_world import CellWorld
from ..frontend import SYM
from ..interp import Cont, CppThrow, Obj, Ref, norm_type, qt
from ..symbolic_world import S_
from ..world import Cand, snap_get

SOURCES = [SYM + 'symbolic_formula.cc', SYM + 'symbolic_formula_cell.cc', 'dreal/symbolic/symbolic.cc']
TRUSTED = ['Formula::EqualTo is structural equality (P10)',
           'the reference count of a cell is one only if the handle at hand is its only owner (P09)',
           'contracts of Variables (P18); std::set']


def world(prog):
    w = CellWorld(prog)
    w.nonlinear = False
    sfn = w.SF.sort.name()
    for k in ('And', 'Or'):
        w.acc[sfn] = w.acc[sfn] + [('operands of ' + k, w.okops[k], ())]
        w.proc[sfn] = w.proc[sfn] + [('operands of ' + k, w.okops[k], ())]
    w.extra_candidates.append(lambda *a: collected(w, *a))
    return w


def collected(w, I, node, entry, havoced, mods, iters, accs, pterm, term):
    """What a loop collects comes from what it has walked over."""
    out = []
    SF = w.SF
    for loc, path in accs:
        e0 = snap_get(entry, loc, path)
        if not isinstance(e0, Cont) or e0.ops is not SF:
            continue
        out.append(Cand('members are only added', lambda s, loc=loc, path=path, e0=e0: SF.card(
            term(snap_get(s, loc, path))) >= SF.card(e0.term)))
        for it in iters:
            pe = pterm(entry, it)
            if pe is None or pe.sort() != SF.sort:
                continue
            full = snap_get(entry, *it).snap.term
            for nm, fl in w.flat.items():
                def at(s, fl=fl, it=it, loc=loc, path=path):
                    t, P = term(snap_get(s, loc, path)), pterm(s, it)
                    if t is None or P is None:
                        return None
                    g = z3.Const('cg', w.F)
                    return z3.ForAll([g], z3.Implies(SF.mem(g, t), z3.Or(
                        SF.mem(g, e0.term), SF.mem(g, fl(full)))), patterns=[SF.mem(g, t)])
                out.append(Cand('collected from the members: ' + nm, at))

            def exact(s, it=it, loc=loc, path=path):
                t, P = term(snap_get(s, loc, path)), pterm(s, it)
                if t is None or P is None:
                    return None
                g = z3.Const('cg', w.F)
                return z3.ForAll([g], SF.mem(g, t) == z3.Or(SF.mem(g, e0.term), SF.mem(g, P)),
                                 patterns=[SF.mem(g, t)])
            out.append(Cand('collected exactly the members walked over', exact))
    return out


def tasks(prog, w):
    out = []

    def sig(fn):
        return fn['type']['qualType']

    def values(I, args):
        return [w.ld(I, a) for a in args]

    def task(q, facts, alias=False, filt=lambda fn: True):
        for fn in prog.find(q):
            if not filt(fn):
                continue
            ps = [c for c in fn.get('inner', ()) if c['kind'] == 'ParmVarDecl']
            names = [norm_type(qt(p))[0] for p in ps]
            for al in ((False, True) if len(set(names)) < len(names) else (False,)):
                def t(I, fn=fn, al=al):
                    args = w.arguments(I, fn, al)
                    vs = values(I, args)
                    for v in vs:
                        if z3.is_expr(v) and v.sort() == w.V:
                            I.assume(w.vtype(v) == w.VT['BOOLEAN'])
                    r = w.ld(I, I.inline(fn, None, args, None))
                    fs = facts(I, r, vs, args)
                    w.oblige_facts(I, fs)
                out.append(('%s%s%s' % (q.replace(S_, ''), sig(fn).replace('dreal::drake::symbolic::', ''),
                                        ' aliased' if al else ''), t))

    def bin2(isand):
        return lambda I, r, vs, args: w.facts_nary2(r, w.asF0(vs[0]), w.asF0(vs[1]), isand)
    w.asF0 = lambda v: w.mkVar(v) if v.sort() == w.V else v

    def inpl(isand):
        def f(I, r, vs, args):
            return w.facts_nary2(r, vs[0], vs[1], isand) + [
                ('the first operand becomes the result', w.ld(I, args[0]) == r)]
        return f
    boolean = lambda fn: 'Variables' not in sig(fn) and 'Expression' not in sig(fn)
    for op, a in (('&&', True), ('||', False)):
        task(S_ + 'operator' + op, bin2(a))
    task(S_ + 'Formula::make_conjunction', inpl(True))
    task(S_ + 'Formula::make_disjunction', inpl(False))
    task(S_ + 'make_conjunction', lambda I, r, vs, args: w.facts_nary(r, vs[0].term, True))
    task(S_ + 'make_disjunction', lambda I, r, vs, args: w.facts_nary(r, vs[0].term, False))
    task(S_ + 'operator!', lambda I, r, vs, args: w.facts_not(r, w.asF0(vs[0])))
    for op in ('==', '!='):
        task(S_ + 'operator' + op, lambda I, r, vs, args, op=op: w.facts_boolrel(
            r, op, w.asF0(vs[0]), w.asF0(vs[1])), filt=boolean)

    def t(I):
        fn, = prog.find(S_ + 'forall')
        args = w.arguments(I, fn)
        r = w.ld(I, I.inline(fn, None, args, None))
        w.oblige_forall(I, r, w.ld(I, args[0]).term, w.ld(I, args[1]))
    out.append(('forall', t))

    def conn(g):
        return lambda I, r, vs, args: [('the result means the connective of the operands', w.forall_env(
            lambda en: w.holds(r, en) == g(*[w.holds(w.asF0(v), en) for v in vs]),
            lambda en: w.holds(r, en)))]
    task('dreal::imply', conn(z3.Implies))
    task('dreal::iff', conn(lambda a, b: a == b))
    task(S_ + 'detail::logic_and', bin2(True))
    for nm, fold, neg in (('make_conjunction', w.qallh, lambda b: b),
                          ('make_disjunction', w.qnoneh, z3.Not)):
        task('dreal::' + nm, lambda I, r, vs, args, fold=fold, neg=neg: [(
            'the result means the connective of the members', w.forall_env(
                lambda en: w.holds(r, en) == neg(fold(vs[0].term, en)),
                lambda en: w.holds(r, en)))])

    def ctor(I):
        v = I.fresh(w.V, 'v')
        o = I.alloc(v)
        bad = z3.Or(w.vid(v) == 0, w.vtype(v) != w.VT['BOOLEAN'])
        try:
            r = w.construct_handle(I, 'Formula', 'void (const dreal::drake::symbolic::Variable &)', [o])
        except CppThrow:
            I.oblige(bad, 'only a dummy or non-Boolean variable is rejected')
            return
        I.oblige(z3.Not(bad), 'a dummy or non-Boolean variable is rejected')
        I.oblige(r == w.mkVar(v), 'the formula is the variable')
    out.append(('Formula(const Variable&)', ctor))

    def mixed(op):
        def t(I):
            fn = [f for f in prog.find(S_ + 'operator' + op)
                  if sig(f).count('Variable &') == 2][0]
            args = w.arguments(I, fn)
            a, b = values(I, args)
            ba, bb = w.vtype(a) == w.VT['BOOLEAN'], w.vtype(b) == w.VT['BOOLEAN']
            try:
                r = w.ld(I, I.inline(fn, None, args, None))
            except CppThrow:
                I.oblige(ba != bb, 'only mixed types are rejected')
                return
            I.oblige(ba == bb, 'mixed types are rejected')
        return t
    for op in ('==', '!='):
        out.append(('operator%s(Variable, Variable) of mixed types' % op, mixed(op)))

    for f, k in (('True', w.fT), ('False', w.fF)):
        def t(I, f=f, k=k):
            fn, = prog.find(S_ + 'Formula::' + f)
            I.oblige(w.ld(I, I.inline(fn, None, [], None)) == k, 'the constant')
        out.append(('Formula::' + f, t))
    return out
