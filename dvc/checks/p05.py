"""P05: Boolean abstraction.

The assignment `C` is arbitrary on the variables that existed before and gives each introduced
variable the truth value of the predicate recorded for it.  It is given that value when the
predicate is recorded, which is allowed once per variable, for a variable created by the same
call and a predicate that contains only older variables; so at every state of every history the
values at `C` are the values of the formula in which introduced variables are replaced by what
they stand for."""
import z3

from ..fresh import NOW, add_fresh, start_clock
from ..interp import Cont, CppThrow, IterV, Obj, Ref, Unsupported
from ..symbolic_world import S_, SymWorld
from ..templates import scope_values
from ..theory import B, I as INT
from ..world import Cand, snap_get

SOURCES = ['dreal/util/predicate_abstractor.cc', 'dreal/symbolic/symbolic.cc']
TRUSTED = ['contracts of &&, ||, !, make_conjunction, make_disjunction and the comparison '
           'operators (proved in P06, P07)',
           'a variable created by its constructor did not exist before (P18)',
           'a formula depends only on the variables that occur in it (P15)']
ASSUMPTIONS = []
CLS = 'dreal::PredicateAbstractor'


class AWorld(SymWorld):
    def __init__(self, prog):
        super().__init__(prog)
        add_fresh(self)
        self.nonlinear = False
        self.opaque |= {'stringstream', 'basic_stringstream'}
        th, F, V, Env = self.th, self.F, self.V, self.Env
        self.M, self.N = th.map_of(V, F), th.map_of(F, V)
        M, N = self.M, self.N
        K, h, bv = self.KF, self.holds, self.bval
        self.enC = z3.Const('C', Env)
        fm, fn = M.fold_all, N.fold_all
        self.defs = fm('defs', lambda k, f, en: bv(en, k) == h(f, en), (Env,))
        self.keys_below = fm('keys_below', lambda k, f, n: self.vid(k) < n, (INT,))
        self.bools = fm('bool_keys', lambda k, f: self.vtype(k) == self.VT['BOOLEAN'])
        self.back = fm('inverse_1', lambda k, f, n: z3.And(N.has(n, f), N.get(n, f) == k),
                       (N.sort,))
        self.forth = fn('inverse_2', lambda f, k, m: z3.And(M.has(m, k), M.get(m, k) == f),
                        (M.sort,))
        self.kept = fm('kept_1', lambda k, f, m: z3.And(M.has(m, k), M.get(m, k) == f), (M.sort,))
        self.kept2 = fn('kept_2', lambda f, k, n: z3.And(N.has(n, f), N.get(n, f) == k),
                        (N.sort,))
        # formulas whose leaves are Boolean variables and truth constants
        self.bo = z3.Function('boolean_only', F, B)
        self.allbo = self.SF.fold_all('all_boolean_only', lambda x: self.bo(x))
        f = z3.Const('f', F)
        k = self.kind(f)
        th.ax('bo', th.forall([f], self.bo(f) == z3.Or(
            k == K['True'], k == K['False'], k == K['Var'],
            z3.And(z3.Or(k == K['And'], k == K['Or']), self.allbo(self.ops_(f))),
            z3.And(k == K['Not'], self.bo(self.opnd(f)))), [(self.bo(f), k)]))
        self.acc[self.SF.sort.name()].append(('allbo', lambda t: self.allbo(t), ()))
        C = self.contracts
        C[CLS + '::Visit'] = self.visit
        self.fresh_hooks.append(self.created)
        self.extra_candidates.append(self.templates)
        self.here = []

    def opaque_type(self, base):
        return base.endswith('AbstractorStat') or super().opaque_type(base)

    # ---------------------------------------------------------------- ghosts
    def created(self, I, v):
        now = I.load(NOW)
        for _l, _p, x in scope_values(I.snapshot()):
            if isinstance(x, Cont) and x.ops is self.SF:
                I.assume(self.allbel(x.term, now - 1))
            elif z3.is_expr(x) and x.sort() == self.F:
                I.assume(self.bel(x, now - 1))
        self.here.append(v)

    def on_put(self, I, ops, before, k, v):
        if ops is self.M:
            done = I.ghost.get('recorded', ())
            I.assume(z3.Implies(z3.And(
                z3.Or([k == x for x in self.here]), z3.Not(self.M.has(before, k)),
                *[k != x for x in done], self.bel(v, self.vid(k))),
                self.bval(self.enC, k) == self.holds(v, self.enC)))
            I.ghost['recorded'] = done + (k,)

    def on_element(self, I, it, x):
        if z3.is_expr(x) and x.sort() == self.F and 'NOW' in I.mem:
            I.assume(self.bel(x, I.load(NOW)))
        return super().on_element(I, it, x)

    # ---------------------------------------------------------------- contracts
    def inv(self, M, N, now):
        return [('introduced variables exist', self.keys_below(M, now)),
                ('introduced variables are Boolean', self.bools(M)),
                ('the predicate of a variable is abstracted by that variable', self.back(M, N)),
                ('the variable of a predicate stands for that predicate', self.forth(N, M)),
                ('introduced variables have the values of what they stand for',
                 self.defs(M, self.enC))]

    def grown(self, M0, N0, M1, N1):
        return [('a recorded variable keeps its predicate', self.kept(M0, M1)),
                ('a recorded predicate keeps its variable', self.kept2(N0, N1))]

    def visit_facts(self, f, r, s0, s1, n0, n1):
        return self.inv(*s1, n1) + self.grown(*s0, *s1) + [
            ('time goes on', n1 >= n0),
            ('the abstraction contains only Boolean variables', self.bo(r)),
            ('the abstraction has the truth value of the formula',
             self.holds(r, self.enC) == self.holds(f, self.enC))]

    def maps(self, I, this):
        o = I.load(this)
        out = []
        for ops in (self.M, self.N):
            c = [(k, x) for k, x in o.fields.items() if isinstance(x, Cont) and x.ops is ops]
            if len(c) != 1:
                raise Unsupported('the two maps')
            out.append(c[0])
        return out

    def state(self, I, this):
        return [c.term for _k, c in self.maps(I, this)]

    def visit(self, I, this, args, n):
        f = self.lv(I, args[0])
        s0 = self.state(I, this)
        n0, n1 = I.load(NOW), I.fresh(INT, 'now')
        for nm, g in self.inv(*s0, n0):
            I.oblige(g, nm)
        r, M1, N1 = I.fresh(self.F, 'abs'), I.fresh(self.M.sort, 'm'), I.fresh(self.N.sort, 'n')
        I.assume(self.kind(r) >= 0)
        I.assume(self.bel(f, n0))
        I.assume(self.bel(r, n1))
        self.assume_facts(I, self.visit_facts(f, r, s0, (M1, N1), n0, n1))
        I.store(NOW, n1)
        o = I.load(this)
        (km, _), (kn, _) = self.maps(I, this)
        I.store(this, Obj(o.cls, dict(o.fields, **{km: Cont(self.M, M1), kn: Cont(self.N, N1)})))
        self.arbitrary_fields(I, this, (km, kn))
        return r

    # ---------------------------------------------------------------- loops
    def templates(self, I, node, entry, havoced, mods, iters, accs, pterm, term):
        out = []
        add = lambda nm, f: out.append(Cand(nm, f))
        seqs = {}
        for loc, path in accs:
            e0 = term(snap_get(entry, loc, path))
            if e0 is None:
                continue
            at = lambda s, loc=loc, path=path: term(snap_get(s, loc, path))
            seqs.setdefault(e0.sort().name(), []).append((at, e0, loc))
        now = (lambda s: term(snap_get(s, 'NOW', ())))
        n0 = now(entry)
        if n0 is None:
            return out
        add('time goes on', lambda s: now(s) >= n0)
        for m, m0, l in seqs.get(self.M.sort.name(), ()):
            for n, p0, l2 in seqs.get(self.N.sort.name(), ()):
                if l != l2:
                    continue
                for i in range(5):
                    add('invariant', lambda s, m=m, n=n, i=i: self.inv(m(s), n(s), now(s))[i][1])
                for i in range(2):
                    add('growth', lambda s, m=m, n=n, m0=m0, p0=p0, i=i: self.grown(
                        m0, p0, m(s), n(s))[i][1])
        for a, a0, _l in seqs.get('F', ()):
            add('exists', lambda s, a=a: self.bel(a(s), now(s)))
            add('abstracted', lambda s, a=a: self.bo(a(s)))
            for it in iters:
                p0 = pterm(entry, it)
                if p0 is None or p0.sort() not in (self.SF.sort, self.QF.sort):
                    continue
                al, no = (self.allh, self.noneh) if p0.sort() == self.SF.sort else (
                    self.qallh, self.qnoneh)
                add('conjunction', lambda s, a=a, a0=a0, it=it, al=al: self.holds(
                    a(s), self.enC) == z3.And(self.holds(a0, self.enC), al(
                        pterm(s, it), self.enC)))
                add('disjunction', lambda s, a=a, a0=a0, it=it, no=no: self.holds(
                    a(s), self.enC) == z3.Or(self.holds(a0, self.enC), z3.Not(no(
                        pterm(s, it), self.enC))))
        for a, a0, _l in seqs.get(self.SF.sort.name(), ()):
            add('exist', lambda s, a=a: self.allbel(a(s), now(s)))
            for it in iters:
                p0 = pterm(entry, it)
                if p0 is None or p0.sort() not in (self.SF.sort, self.QF.sort):
                    continue
                for fo, fp in ((self.allh, self.qallh), (self.noneh, self.qnoneh)):
                    fp = fo if p0.sort() == self.SF.sort else fp
                    add('same value', lambda s, a=a, it=it, fo=fo, fp=fp: fo(
                        a(s), self.enC) == fp(pterm(s, it), self.enC))
        return out


def world(prog):
    return AWorld(prog)


def tasks(prog, w):
    out = []

    def setup(I):
        M, N = I.fresh(w.M.sort, 'M0'), I.fresh(w.N.sort, 'N0')
        n0 = start_clock(I)
        for nm, g in w.inv(M, N, n0):
            I.assume(g)
        w.here = []
        o = w.default(I, CLS)
        if not isinstance(o, Obj):
            raise Unsupported('the abstractor')
        o = I.alloc(o)
        (km, _), (kn, _) = w.maps(I, o)
        x = I.load(o)
        I.store(o, Obj(x.cls, dict(x.fields, **{km: Cont(w.M, M), kn: Cont(w.N, N)})))
        w.arbitrary_fields(I, o, (km, kn))
        return o, (M, N), n0

    def visit(fn, k):
        def t(I):
            f = I.fresh(w.F, 'f')
            I.assume(w.kind(f) == w.KF[k])
            o, s0, n0 = setup(I)
            I.assume(w.bel(f, n0))
            r = w.lv(I, I.inline(fn, o, [I.alloc(f)], None))
            w.oblige_facts(I, w.visit_facts(f, r, s0, w.state(I, o), n0, I.load(NOW)))
        return t
    for fn in prog.find(CLS + '::Visit'):
        for k in w.KF:
            out.append(('Visit, %s' % k, visit(fn, k)))

    def convert(fn, many):
        def t(I):
            o, s0, n0 = setup(I)
            if many:
                fs = I.fresh(w.QF.sort, 'formulas')
                I.assume(w.qallbel(fs, n0))
                r = w.lv(I, I.inline(fn, o, [I.alloc(Cont(w.QF, fs))], None))
                want = w.qallh(fs, w.enC)
            else:
                f = I.fresh(w.F, 'f')
                I.assume(w.bel(f, n0))
                r = w.lv(I, I.inline(fn, o, [I.alloc(f)], None))
                want = w.holds(f, w.enC)
            for nm, g in w.inv(*w.state(I, o), I.load(NOW)) + w.grown(*s0, *w.state(I, o)):
                I.oblige(g, nm)
            I.oblige(w.bo(r), 'the abstraction contains only Boolean variables')
            I.oblige(w.holds(r, w.enC) == want,
                     'the abstraction has the truth value of the formulas')
        return t
    w.qallbel = w.QF.fold_all('qallbel', lambda x, n: w.bel(x, n), (INT,))
    for fn in prog.find(CLS + '::Convert'):
        many = 'vector' in fn['type']['qualType']
        out.append(('Convert(%s)' % ('formulas' if many else 'formula'), convert(fn, many)))

    def lookup(fn, byvar):
        def t(I):
            o, s0, n0 = setup(I)
            ops, m = (w.M, s0[0]) if byvar else (w.N, s0[1])
            x = I.fresh(w.V if byvar else w.F, 'key')
            try:
                r = w.lv(I, I.inline(fn, o, [I.alloc(x)], None))
            except CppThrow:
                I.oblige(z3.Not(ops.has(m, x)), 'only unknown keys are refused')
                return
            I.oblige(ops.has(m, x), 'unknown keys are refused')
            I.oblige(r == ops.get(m, x), 'what was recorded is found')
            I.oblige(z3.And(*[a == b for a, b in zip(s0, w.state(I, o))]), 'nothing changes')
        return t
    for fn in prog.find(CLS + '::operator[]'):
        byvar = 'Variable &)' in fn['type']['qualType'] or '(const Variable' in fn['type']['qualType']
        out.append(('operator[](%s)' % ('variable' if byvar else 'predicate'), lookup(fn, byvar)))
    return out
