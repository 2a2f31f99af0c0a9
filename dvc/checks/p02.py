"""P02: naive CNF conversion."""
import z3

from ..interp import Ref, Obj, Unsupported, Cont
from ..symbolic_world import SymWorld, S_
from ..theory import B
from ..world import Cand, snap_get
from .p01 import add_nnf
from . import p01

SOURCES = ['dreal/util/naive_cnfizer.cc', 'dreal/symbolic/symbolic.cc']
TRUSTED = ['contracts of &&, ||, !, make_conjunction, make_disjunction, forall and the comparison '
           'operators (proved in P06, P07)', 'contract of Nnfizer::Convert (proved in P01)']


def add_cnf(w):
    """cnf(f), cl(f): conjunctive normal form / clause, up to literals."""
    K, F = w.KF, w.F
    w.lit = lambda f: z3.And(w.kind(f) != K['And'], w.kind(f) != K['Or'], z3.Implies(
        w.kind(f) == K['Not'], z3.And(w.kind(w.opnd(f)) != K['And'],
                                      w.kind(w.opnd(f)) != K['Or'])))
    w.lits = w.SF.fold_all('lits', w.lit)
    w.cl = z3.Function('cl', F, B)
    w.allcl = w.SF.fold_all('allcl', lambda x: w.cl(x))
    w.cnf = z3.Function('cnf', F, B)
    w.allcnf = w.SF.fold_all('allcnf', lambda x: w.cnf(x))
    f = z3.Const('f', F)
    k = w.kind(f)
    w.th.ax('cl', w.th.forall([f], w.cl(f) == z3.Or(w.lit(f), z3.And(
        k == K['Or'], w.lits(w.ops_(f)))), [w.cl(f)]))
    w.th.ax('cnf', w.th.forall([f], w.cnf(f) == z3.Or(w.cl(f), z3.And(
        k == K['And'], w.allcl(w.ops_(f)))), [w.cnf(f)]))
    w.acc['F'].append(('cnf', lambda t: w.cnf(t), ()))
    s = w.SF.sort.name()
    w.acc[s] += [('allcnf', lambda t: w.allcnf(t), ()), ('allcl', lambda t: w.allcl(t), ())]


def f_locals(I, w, snap):
    out = {}
    for fr in snap[2][-1:]:
        for k, r in fr.items():
            if isinstance(r, Ref) and r.loc in snap[0]:
                try:
                    v = snap_get(snap, r.loc, r.path) if all(isinstance(p, str) for p in r.path) else None
                except Exception:
                    v = None
                if z3.is_expr(v) and v.sort() == w.F:
                    out[v.get_id()] = v
    return list(out.values())


def distribute(w):
    """allh(acc) == allh(old) and (holds(x) or allh(done)), x a formula in scope."""
    def h(I, node, entry, havoced, mods, iters, accs, pterm, term):
        out = []
        en = z3.Const('q0', w.Env)
        for loc, path in accs:
            e0 = term(snap_get(entry, loc, path))
            if e0 is None or e0.sort() != w.SF.sort:
                continue
            for it in iters:
                for i, x in enumerate(f_locals(I, w, entry)):
                    def at(snap, loc=loc, path=path, it=it, x=x, e0=e0):
                        t, P = term(snap_get(snap, loc, path)), pterm(snap, it)
                        if t is None or P is None or P.sort() != w.SF.sort:
                            return None
                        return z3.ForAll([en], w.allh(t, en) == z3.And(
                            w.allh(e0, en), z3.Or(w.holds(x, en), w.allh(P, en))),
                            patterns=[w.allh(t, en)])
                    out.append(Cand('allh(acc)==allh(old) and (holds(local %d) or allh(done))' % i, at))
        return out
    w.extra_candidates.append(h)


def world(prog):
    w = SymWorld(prog)
    add_nnf(w)
    w.push = z3.BoolVal(True)
    add_cnf(w)
    distribute(w)

    def visit(I, this, args, n):
        f = w.lv(I, args[0])
        I.oblige(w.nnf(f, w.push), 'Visit is called on a formula in negation normal form')
        r = I.fresh(w.F, 'cnf')
        post(w, I, f, r, True)
        return r

    def convert(I, this, args, n):
        f = w.lv(I, args[0])
        r = I.fresh(w.F, 'cnf')
        post(w, I, f, r, True)
        return r

    def nnf(I, this, args, n):
        return p01.post(w, I, w.lv(I, args[0]), z3.BoolVal(True), w.lv(I, args[1]))
    w.contracts['dreal::NaiveCnfizer::Visit'] = visit
    w.contracts['dreal::NaiveCnfizer::Convert'] = convert
    w.contracts['dreal::Nnfizer::Convert'] = nnf
    w.nonlinear = False
    return w


def post(w, I, f, r, mk=False):
    facts = [('same truth value under every assignment', w.forall_env(
        lambda en: w.holds(r, en) == w.holds(f, en), lambda en: w.holds(r, en))),
        ('result is in conjunctive normal form', w.cnf(r))]
    if mk:
        I.assume(w.kind(r) >= 0)
    for nm, x in facts:
        I.assume(x) if mk else I.oblige(x, nm)


def tasks(prog, w):
    def this(I):
        return I.alloc(Obj('dreal::NaiveCnfizer', {'nnfizer_': Obj('dreal::Nnfizer', {})}))

    def visit(I):
        f = I.fresh(w.F, 'f')
        I.assume(w.nnf(f, w.push))
        r = I.inline(prog.find('dreal::NaiveCnfizer::Visit')[0], this(I), [I.alloc(f)], None)
        post(w, I, f, w.lv(I, r))

    def convert(I):
        f = I.fresh(w.F, 'f')
        r = I.inline(prog.find('dreal::NaiveCnfizer::Convert')[0], this(I), [I.alloc(f)], None)
        post(w, I, f, w.lv(I, r))
    return [('NaiveCnfizer::Visit', visit), ('NaiveCnfizer::Convert', convert)]
