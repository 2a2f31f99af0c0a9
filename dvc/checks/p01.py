"""P01: negation normal form."""
import z3

from ..interp import Ref, Obj, Unsupported
from ..symbolic_world import SymWorld, S_
from ..theory import B

SOURCES = ['dreal/util/nnfizer.cc', 'dreal/symbolic/symbolic.cc']


def add_nnf(w):
    """nnf(f, push): negation only on variables, forall and (unless push) comparisons."""
    K = w.KF
    w.nnf = z3.Function('nnf', w.F, B, B)
    w.alln = w.SF.fold_all('alln', lambda x, b: w.nnf(x, b), (B,))
    f = z3.Const('f', w.F)
    b = z3.Const('b', B)
    k, ko = w.kind(f), w.kind(w.opnd(f))
    body = z3.If(z3.Or(k == K['And'], k == K['Or']), w.alln(w.ops_(f), b),
                 z3.If(k == K['Not'], z3.Or(ko == K['Var'], ko == K['Forall'],
                                            z3.And(z3.Not(b), w.isrel(ko))), True))
    w.th.ax('nnf', w.th.forall([f, b], w.nnf(f, b) == body, [(w.nnf(f, b), k)]))

    def hook(I, r, parts, how, exprs):
        I.assume(z3.Or(w.kind(r) == w.kind(r)))
    w.acc[w.SF.sort.name()].append(('alln', lambda t: w.alln(t, w.push), ()))


def world(prog):
    w = SymWorld(prog)
    add_nnf(w)

    def visit(I, this, args, n):
        f, pol, push = (w.lv(I, a) for a in args)
        return post(w, I, f, pol, push)
    w.contracts['dreal::Nnfizer::Visit'] = visit
    w.nonlinear = False
    return w


def post(w, I, f, pol, push, r=None):
    mk = r is None
    if mk:
        r = I.fresh(w.F, 'nnf')
    facts = [('same truth value under every assignment', w.forall_env(
        lambda en: w.holds(r, en) == (w.holds(f, en) == pol), lambda en: w.holds(r, en))),
        ('result is in negation normal form', w.nnf(r, push))]
    if mk:
        I.assume(w.kind(r) >= 0)
    for nm, x in facts:
        I.assume(x) if mk else I.oblige(x, nm)
    return r


def tasks(prog, w):
    def visit(I):
        f = I.fresh(w.F, 'f')
        pol, push = I.fresh(B, 'polarity'), I.fresh(B, 'push')
        pol = z3.BoolVal(I.branch(pol))
        push = z3.BoolVal(I.branch(push))
        w.push = push
        fn = prog.find('dreal::Nnfizer::Visit')[0]
        this = I.alloc(Obj('dreal::Nnfizer', {}))
        r = I.inline(fn, this, [I.alloc(f), I.alloc(pol), I.alloc(push)], None)
        post(w, I, f, pol, push, w.lv(I, r))
    def convert(I):
        f = I.fresh(w.F, 'f')
        push = z3.BoolVal(I.branch(I.fresh(B, 'push')))
        fn = prog.find('dreal::Nnfizer::Convert')[0]
        this = I.alloc(Obj('dreal::Nnfizer', {}))
        r = I.inline(fn, this, [I.alloc(f), I.alloc(push)], None)
        post(w, I, f, z3.BoolVal(True), push, w.lv(I, r))
    return [('Nnfizer::Visit', visit), ('Nnfizer::Convert', convert)]
