"""P25: explanations.  What GenerateExplanation returns, and what pruning records when a box
becomes empty."""
import z3

from ..interp import Cont, Obj, Ref
from ..theory import B
from ..world import Cand, snap_get
from . import p41

SOURCES = ['dreal/contractor/contractor_cell.cc', 'dreal/contractor/contractor_status.cc',
           'dreal/contractor/contractor_ibex_fwdbwd.cc',
           'dreal/contractor/contractor_ibex_polytope.cc', 'dreal/util/box.cc']
EXTRA = 'ibex'
TRUSTED = p41.TRUSTED + ['HaveIntersection by contract (P17)']
ASSUMPTIONS = p41.ASSUMPTIONS + [
    'an iteration over a set into which elements are inserted visits every element that was in '
    'the set when it started']


class ExplainWorld(p41.PruneWorld):
    def __init__(self, prog):
        super().__init__(prog)
        self.set_grows = True
        vo = self.wops()
        self.shr = z3.Function('share', vo.sort, vo.sort, B)
        a, b, x = z3.Const('a', vo.sort), z3.Const('b', vo.sort), z3.Const('x', vo.T)
        self.th.ax('share', self.th.forall([a, b, x], z3.Implies(z3.And(
            vo.mem(x, a), vo.mem(x, b)), self.shr(a, b)), [
                (self.shr(a, b), vo.mem(x, a)), (self.shr(a, b), vo.mem(x, b))]))
        self.contracts['dreal::HaveIntersection'] = lambda I, this, args, n: self.shr(
            self.rd(I, args[0]).term, self.rd(I, args[1]).term)
        self.extra_candidates.append(self.explaining)

    def on_element(self, I, it, x):
        super().on_element(I, it, x)
        if it.snap.ops is self.SF:
            I.ghost['cur'] = x

    def recorded(self, x, a, s, t, gone=None):
        out = super().recorded(x, a, s, t)
        vo, v = self.wops(), z3.Const('v', self.wops().T)
        if gone is None:
            gone = self.emp(self.IV.nth(a['vals'], 0))
        if isinstance(x, Cont):
            j = z3.Int('j')
            y = self.FS.nth(x.term, j)
            g = z3.ForAll([j, v], z3.Implies(z3.And(0 <= j, j < self.FS.len(x.term), vo.mem(
                v, self.fv(y))), vo.mem(v, t)), patterns=[vo.mem(v, self.fv(y))])
        else:
            g = self.within(self.fv(x), t)
        return out + [('the variables are witnesses if the box is empty', z3.Implies(gone, g))]

    def within(self, a, b):
        return self.subset(a, b, self.wops())

    def due(self, f, wit):
        """Formula f has to be in the explanation."""
        vo = self.wops()
        return z3.Or(self.fv(f) == vo.empty, self.shr(wit, self.fv(f)))

    def included(self, x, used, wit):
        f = z3.Const('f', self.F)
        return z3.ForAll([f], z3.Implies(z3.And(self.SF.mem(f, used), self.due(f, wit)),
                                         self.SF.mem(f, x)), patterns=[self.SF.mem(f, used)])

    def closed(self, p, used, x):
        f, g = z3.Const('f', self.F), z3.Const('g', self.F)
        m = self.SF.mem
        return z3.ForAll([f, g], z3.Implies(z3.And(m(f, p), m(g, used), self.shr(
            self.fv(f), self.fv(g))), m(g, x)), patterns=[z3.MultiPattern(m(f, p), m(g, used))])

    def explaining(self, I, node, entry, havoced, mods, iters, accs, pterm, term):
        out = []
        g = I.ghost.get('explain')
        if g is None:
            g = I.ghost.get('record')
            if g is None:
                return out
            cs, fs, a = g
            j, vo = z3.Int('j'), self.wops()
            v, y = z3.Const('v', vo.T), self.FS.nth(fs, j)
            for it in list(iters) + list(accs):
                def at(s, it=it):
                    p = snap_get(s, *it)
                    if hasattr(p, 'snap') and p.snap.ops is self.FS:
                        p = self.FS.len(fs) if p.p is None else p.p
                    if not (z3.is_expr(p) and p.sort() == z3.IntSort()):
                        return None
                    t = snap_get(s, cs.loc, cs.path + ('unsat_witness_',)).term
                    return z3.Implies(self.emp(self.IV.nth(a['vals'], 0)), z3.ForAll(
                        [j, v], z3.Implies(z3.And(0 <= j, j < p, vo.mem(v, self.fv(y))), vo.mem(
                            v, t)), patterns=[vo.mem(v, self.fv(y))]))
                out.append(Cand('the variables up to here are witnesses', at))
            return out
        used, wit = g
        sets = [a for a in accs if isinstance(snap_get(havoced, *a), Cont) and snap_get(
            havoced, *a).ops is self.SF]
        flags = [a for a in accs if z3.is_expr(snap_get(havoced, *a)) and snap_get(
            havoced, *a).sort() == B]

        def K(s, k):
            v = snap_get(s, *k)
            return z3.BoolVal(v) if isinstance(v, bool) else v
        X = lambda s, x: snap_get(s, *x).term
        cur = I.ghost.get('cur')
        m = self.SF.mem
        f = z3.Const('f', self.F)
        sit = [it for it in iters if pterm(entry, it) is not None and
               pterm(entry, it).sort() == self.SF.sort]
        for x in sets:
            x0 = X(entry, x)
            out.append(Cand('within the used', lambda s, x=x: self.subset(X(s, x), used, self.SF)))
            out.append(Cand('nothing is taken out', lambda s, x=x, x0=x0: self.subset(
                x0, X(s, x), self.SF)))
            out.append(Cand('what is due is included', lambda s, x=x: self.included(
                X(s, x), used, wit)))
            for it in sit:
                P = lambda s, it=it: pterm(s, it)
                out.append(Cand('what is due so far is included', lambda s, x=x, P=P: None if P(
                    s) is None else self.included(X(s, x), P(s), wit)))
            for k in flags:
                k0 = K(entry, k)
                out.append(Cand('closed unless it goes on', lambda s, x=x, k=k: z3.Or(
                    K(s, k), self.closed(X(s, x), used, X(s, x)))))
                out.append(Cand('unchanged unless it goes on', lambda s, x=x, k=k, x0=x0: z3.Or(
                    K(s, k), X(s, x) == x0)))
                out.append(Cand('it goes on if it did', lambda s, k=k, k0=k0: z3.Or(
                    K(s, k), z3.Not(k0))))
                for it in sit:
                    P = lambda s, it=it: pterm(s, it)
                    out.append(Cand('closed so far unless it goes on', lambda s, x=x, k=k, P=P:
                                    None if P(s) is None else z3.Or(
                                        K(s, k), self.closed(P(s), used, X(s, x)))))
                    if cur is not None:
                        out.append(Cand('closed for this one so far unless it goes on', lambda s, x=x,
                                        k=k, P=P: None if P(s) is None else z3.Or(
                                            K(s, k), z3.ForAll([f], z3.Implies(z3.And(
                                                m(f, P(s)), self.shr(self.fv(cur), self.fv(f))),
                                                m(f, X(s, x))), patterns=[m(f, P(s))]))))
        return out


def world(prog):
    return ExplainWorld(prog)


def tasks(prog, w):
    def parts(I):
        vo = w.wops()
        return I.fresh(w.SF.sort, 'used'), I.fresh(vo.sort, 'witness')

    def spec(I, x, used, wit):
        I.oblige(w.subset(x, used, w.SF), 'only recorded constraints are in the explanation')
        I.oblige(w.included(x, used, wit),
                 'constraints on a witness and constraints without variables are in it')
        I.oblige(z3.Or(wit == w.wops().empty, w.closed(x, used, x)),
                 'a recorded constraint that shares a variable with one in it is in it')

    def generate(I):
        used, wit = parts(I)
        I.ghost['explain'] = (used, wit)
        r = I.inline(prog.find('dreal::GenerateExplanation')[0], None, [
            I.alloc(Cont(w.wops(), wit)), I.alloc(Cont(w.SF, used))], None)
        spec(I, w.rd(I, r).term, used, wit)

    def explanation(I):
        cs = w.mkstatus(I)
        a = w.status(I, cs)
        I.ghost['explain'] = (a['used'], a['wit'])
        r = I.inline(prog.find('dreal::ContractorStatus::Explanation')[0], cs, [], None)
        spec(I, w.rd(I, r).term, a['used'], a['wit'])
    out = [('GenerateExplanation', generate), ('ContractorStatus::Explanation', explanation)]

    def emptied(nm, body):
        """If the box becomes empty, the constraints and their variables are recorded."""
        def t(I):
            body(I)
            f, a, b = I.ghost['pruned']
            gone = z3.And(z3.Not(w.emp(w.IV.nth(a['vals'], 0))), w.emp(w.IV.nth(b['vals'], 0)))
            x = Cont(w.FS, f['formulas_'].term) if 'formulas_' in f else f['f_']
            for why, goal in w.recorded(x, a, b['used'], b['wit'], gone):
                I.oblige(z3.Implies(gone, goal), 'the box is empty: ' + why)
        return (nm, t)
    all_ = p41.tasks(prog, w)
    out += [emptied(*x) for x in all_ if 'Ibex' in x[0]]
    out += [x for x in all_ if x[0].startswith('ContractorStatus::') or x[0] == 'Join']
    return out
