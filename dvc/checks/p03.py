"""P03: the clause encoder with auxiliary variables.

Two assignments are fixed.  `S` is arbitrary: where it satisfies the produced clauses, it
satisfies the formula.  `C` is arbitrary on the variables that exist when Convert is called,
and gives each auxiliary variable the truth value of the sub-formula it stands for: where it
satisfies the formula, it satisfies the produced clauses.  An auxiliary variable is given its
value when it is created (it did not exist before, so no term contains it), or, in
VisitForall, when it is recorded with a formula that was there before the variable."""
import z3

from ..fresh import NOW, add_fresh, start_clock
from ..interp import Cont, IterV, Obj, Ref, Unsupported
from ..symbolic_world import S_, SymWorld
from ..templates import scope_values
from ..theory import B, I as INT
from ..world import Cand, snap_get
from .p02 import add_cnf

SOURCES = ['dreal/util/tseitin_cnfizer.cc', 'dreal/symbolic/symbolic.cc']
TRUSTED = ['contracts of &&, ||, !, make_conjunction, make_disjunction, forall (proved in P06)',
           'contracts of NaiveCnfizer::Convert (P02), get_clauses, is_clause, is_atomic and '
           'HaveIntersection (P17)',
           'a variable created by its constructor did not exist before (P18)',
           'a formula depends only on its free variables (P15)']
ASSUMPTIONS = []
CLS = 'dreal::TseitinCnfizer'


class TWorld(SymWorld):
    def __init__(self, prog):
        super().__init__(prog)
        add_cnf(self)
        add_fresh(self)
        self.nonlinear = False
        self.opaque |= {'TseitinCnfizerStat'}
        th, F, V, Env = self.th, self.F, self.V, self.Env
        self.M = th.map_of(V, F)
        MS = self.M.sort
        K, h, bv = self.KF, self.holds, self.bval
        self.enS, self.enC = z3.Consts('S C', Env)
        self.envs = [self.enS, self.enC]
        fa = self.M.fold_all
        self.defs = fa('defs', lambda k, f, en: bv(en, k) == h(f, en), (Env,))
        self.defx = fa('defs_but', lambda k, f, x, en: z3.Or(k == x, bv(en, k) == h(f, en)),
                       (V, Env))
        self.head = fa('defs_head', lambda k, f, x, en: z3.If(
            k == x, h(f, en), bv(en, k) == h(f, en)), (V, Env))
        self.keys_below = fa('keys_below', lambda k, f, n: self.vid(k) < n, (INT,))
        self.keys_from = fa('keys_from', lambda k, f, n: self.vid(k) >= n, (INT,))
        self.newer = fa('new_keys_from', lambda k, f, a, n: z3.Or(
            self.M.has(a, k), self.vid(k) >= n), (MS, INT))
        self.bools = fa('bool_keys', lambda k, f: self.vtype(k) == self.VT['BOOLEAN'])
        self.simple = lambda f: z3.Or(self.lit(f), z3.And(
            z3.Or(self.kind(f) == K['And'], self.kind(f) == K['Or']), self.lits(self.ops_(f))))
        self.simples = fa('simple_values', lambda k, f: self.simple(f))
        # literals: those that are new keys, and the value with the definition unfolded
        SF = self.SF
        new = lambda x, a, b: z3.And(self.kind(x) == K['Var'], self.M.has(b, self.fvar(x)),
                                     z3.Not(self.M.has(a, self.fvar(x))))
        self.new = new
        self.old = SF.fold_all('no_new', lambda x, a, b: z3.Not(new(x, a, b)), (MS, MS))
        self.unfold = SF.fold_all('unfolded', lambda x, a, b, en: z3.If(
            new(x, a, b), h(self.M.get(b, self.fvar(x)), en), h(x, en)), (MS, MS, Env))
        self.allq = SF.fold_all('quantified', lambda x, vs, en: h(self.mkForall(vs, x), en),
                                (self.SV.sort, Env))
        self.qcl = self.QF.fold_all('qclauses', lambda x: self.cl(x))
        f = z3.Const('tf', F)
        e, e2 = z3.Consts('te te2', Env)
        vs, ws = z3.Consts('tv tw', self.SV.sort)
        self.disjoint = z3.Function('disjoint', self.SV.sort, self.SV.sort, B)
        th.ax('coincide', th.forall([f, e, e2, vs], z3.Implies(
            z3.And(self.disjoint(self.fv(f), vs), self.agree(e, e2, vs)),
            h(f, e) == h(f, e2)), [(self.disjoint(self.fv(f), vs), self.agree(e, e2, vs))]))
        self.id0 = z3.Int('id0')
        C = self.contracts
        C[CLS + '::Visit'] = self.visit
        C['dreal::NaiveCnfizer::Convert'] = self.naive
        C['dreal::HaveIntersection'] = self.have_intersection
        C['dreal::get_clauses'] = self.clauses
        C['dreal::is_clause'] = lambda I, t, a, n: self.cl(self.lv(I, a[0]))
        C['dreal::(anon)::Cnfize'] = self.cnfize
        self.fresh_hooks.append(self.created)
        self.extra_candidates.append(self.templates)

    # ---------------------------------------------------------------- ghosts
    subformula = None

    def created(self, I, v):
        """A variable was created: the assignment C gets its value for it."""
        f = self.subformula
        if f is None:
            return
        self.existing(I)
        self.here.append(v)
        I.assume(z3.Implies(self.kind(f) != self.KF['Forall'],
                            self.bval(self.enC, v) == self.holds(f, self.enC)))

    def existing(self, I):
        """Terms that exist contain only variables that exist."""
        now = I.load(NOW)
        for _l, _p, x in scope_values(I.snapshot()):
            if isinstance(x, IterV):
                continue
            if isinstance(x, Cont):
                if x.ops is self.SF:
                    I.assume(self.allbel(x.term, now - 1))
            elif z3.is_expr(x) and x.sort() == self.F:
                I.assume(self.bel(x, now - 1))

    def on_element(self, I, it, x):
        if z3.is_expr(x) and x.sort() == self.F and 'NOW' in I.mem:
            I.assume(self.bel(x, I.load(NOW)))
        return super().on_element(I, it, x)

    def on_put(self, I, ops, before, k, v):
        """VisitForall records a formula for a variable it created and that is newer than
        the formula."""
        f = self.subformula
        if ops is self.M and f is not None:
            done = I.ghost.get('recorded', ())
            I.assume(z3.Implies(z3.And(
                self.kind(f) == self.KF['Forall'], z3.Or([k == x for x in self.here]),
                z3.Not(self.M.has(before, k)), *[k != x for x in done],
                self.bel(v, self.vid(k))),
                self.bval(self.enC, k) == self.holds(v, self.enC)))
            I.ghost['recorded'] = done + (k,)

    def opaque_type(self, base):
        return base.endswith('CnfizerStat') or super().opaque_type(base)

    # ---------------------------------------------------------------- contracts
    def inv(self, M, now):
        return [('the keys of the map exist', self.keys_below(M, now)),
                ('the keys of the map are fresh', self.keys_from(M, self.id0)),
                ('the keys of the map are Boolean', self.bools(M)),
                ('every definition is a literal or a connective of literals', self.simples(M))]

    def visit_facts(self, f, r, M0, M1, n0, n1):
        v = self.fvar(r)
        out = list(self.inv(M1, n1))
        out.append(('time goes on', n1 >= n0))
        out.append(('new keys are new variables', self.newer(M1, M0, n0)))
        out.append(('the result is a literal', self.lit(r)))
        for en in self.envs:
            out.append(('definitions are kept', z3.Implies(
                self.defs(M1, en), self.defs(M0, en))))
            out.append(('where the definitions hold, the result is equivalent to the formula',
                        z3.Implies(self.defs(M1, en), self.holds(r, en) == self.holds(f, en))))
        out.append(('the auxiliary variables can be given the values of what they stand for',
                    z3.Implies(self.defs(M0, self.enC), self.defs(M1, self.enC))))
        out.append(('the result is a new variable with its definition, unless nothing is new',
                    z3.Or(M1 == M0, z3.And(
                        self.new(r, M0, M1), *[z3.Implies(
                            self.defx(M1, v, en), self.holds(self.M.get(M1, v), en) ==
                            self.holds(f, en)) for en in self.envs]))))
        return out

    def map_of(self, I, this):
        o = I.load(this)
        m = o.fields.get('map_') if isinstance(o, Obj) else None
        if not isinstance(m, Cont):
            raise Unsupported('map_')
        return m

    def visit(self, I, this, args, n):
        f = self.lv(I, args[0])
        m = self.map_of(I, this)
        n0, n1 = I.load(NOW), I.fresh(INT, 'now')
        for nm, g in self.inv(m.term, n0):
            I.oblige(g, nm)
        r, M1 = I.fresh(self.F, 'literal'), I.fresh(self.M.sort, 'map')
        I.assume(self.bel(f, n0))
        I.assume(self.bel(r, n1))
        I.assume(self.kind(r) >= 0)
        self.assume_facts(I, self.visit_facts(f, r, m.term, M1, n0, n1))
        I.store(NOW, n1)
        o = I.load(this)
        I.store(this, Obj(o.cls, dict(o.fields, map_=Cont(self.M, M1))))
        return r

    def naive(self, I, this, args, n):
        f = self.lv(I, args[0])
        r = I.fresh(self.F, 'cnf')
        I.assume(self.kind(r) >= 0)
        h = self.holds
        I.assume(self.forall_env(lambda en: h(r, en) == h(f, en), lambda en: h(r, en),
                                 lambda en: h(f, en)))
        I.assume(self.cnf(r))
        return r

    def have_intersection(self, I, this, args, n):
        a, b = self.lv(I, args[0]).term, self.lv(I, args[1]).term
        for en in self.envs:
            I.assume(self.agree(en, en, b))
        return z3.Not(self.disjoint(a, b))

    def clauses(self, I, this, args, n):
        f = self.lv(I, args[0])
        I.oblige(self.cnf(f), 'get_clauses is called on a formula in CNF')
        s = I.fresh(self.SF.sort, 'clauses')
        h = self.holds
        I.assume(self.allcl(s))
        I.assume(s != self.SF.empty)
        I.assume(self.forall_env(lambda en: self.allh(s, en) == h(f, en),
                                 lambda en: self.allh(s, en), lambda en: h(f, en)))
        return Cont(self.SF, s)

    def cnfize_facts(self, b, f, c0, c1):
        out = [('only clauses are added', z3.Implies(self.qcl(c0), self.qcl(c1)))]
        for en in self.envs:
            out.append(('the added clauses say that the variable is equivalent to the formula',
                        self.qallh(c1, en) == z3.And(
                            self.qallh(c0, en), self.bval(en, b) == self.holds(f, en))))
        return out

    def cnfize(self, I, this, args, n):
        b, f = self.lv(I, args[0]), self.lv(I, args[1])
        where = args[2]
        while isinstance(I.load(where), Ref):
            where = I.load(where)
        c = I.load(where)
        I.oblige(self.simple(f), 'what is defined is a literal or a connective of literals')
        I.oblige(self.vtype(b) == self.VT['BOOLEAN'], 'the variable is Boolean')
        r = I.fresh(self.QF.sort, 'clauses')
        self.assume_facts(I, self.cnfize_facts(b, f, c.term, r))
        I.store(where, Cont(self.QF, r))
        return None

    # ---------------------------------------------------------------- loops
    def templates(self, I, node, entry, havoced, mods, iters, accs, pterm, term):
        out = []
        add = lambda nm, f: out.append(Cand(nm, f))
        fs, vs, svs, maps = [], [], [], []
        for x in entry[0].values():
            if isinstance(x, Cont) and x.ops is self.SV:
                svs.append(x.term)
        for loc, p, x in scope_values(entry):
            t = term(x)
            if isinstance(x, (IterV, Cont)) or t is None:
                continue
            if t.sort() == self.F:
                fs.append(t)
            elif t.sort() == self.V:
                vs.append(t)
        uniq = lambda xs: list({x.get_id(): x for x in xs}.values())
        fs, vs, svs = uniq(fs), uniq(vs), uniq(svs)
        seqs = {}
        for loc, path in accs:
            e0 = term(snap_get(entry, loc, path))
            if e0 is None:
                continue
            at = lambda s, loc=loc, path=path: term(snap_get(s, loc, path))
            seqs.setdefault(e0.sort().name(), []).append((at, e0, loc))
        now = (lambda s: term(snap_get(s, 'NOW', ())))
        n0 = now(entry)
        if n0 is not None and any(l == 'NOW' for l, _ in mods):
            add('time goes on', lambda s: now(s) >= n0)
        for m, m0, _l in seqs.get(self.M.sort.name(), ()):
            for i in range(4):
                add('map invariant', lambda s, m=m, i=i: self.inv(m(s), now(s))[i][1])
            add('new keys', lambda s, m=m, m0=m0: self.newer(m(s), m0, n0))
            add('canonical', lambda s, m=m, m0=m0: z3.Implies(
                self.defs(m0, self.enC), self.defs(m(s), self.enC)))
            for en in self.envs:
                add('definitions are kept', lambda s, m=m, m0=m0, en=en: z3.Implies(
                    self.defs(m(s), en), self.defs(m0, en)))
        for a, a0, _l in seqs.get(self.SF.sort.name(), ()):
            add('literals', lambda s, a=a: self.lits(a(s)))
            if n0 is not None:
                add('exist', lambda s, a=a: self.allbel(a(s), now(s)))
            add('some', lambda s, a=a, it=None: z3.Or(a(s) != self.SF.empty, z3.And(*[
                pterm(s, it) == self.SF.empty for it in iters
                if pterm(s, it) is not None and pterm(s, it).sort() == self.SF.sort])))
            for m, m0, _l in seqs.get(self.M.sort.name(), ()):
                add('new literal', lambda s, a=a, m=m, m0=m0: z3.Or(
                    m(s) == m0, z3.Not(self.old(a(s), m0, m(s)))))
            for it in iters:
                def P(s, it=it):
                    p = pterm(s, it)
                    return p if p is not None and p.sort() == self.SF.sort else None
                if P(entry) is None:
                    continue
                for en in self.envs:
                    for v in svs:
                        add('quantified', lambda s, a=a, P=P, en=en, v=v: self.allh(
                            a(s), en) == self.allq(P(s), v, en))
                    for m, m0, _l in seqs.get(self.M.sort.name(), ()):
                        add('unfolded', lambda s, a=a, P=P, m=m, m0=m0, en=en: self.unfold(
                            a(s), m0, m(s), en) == self.allh(P(s), en))
                        for fo in (self.allh, self.noneh):
                            add('equivalent where the definitions hold',
                                lambda s, a=a, P=P, m=m, en=en, fo=fo: z3.Implies(
                                    self.defs(m(s), en), fo(a(s), en) == fo(P(s), en)))
        for q, q0, _l in seqs.get(self.QF.sort.name(), ()):
            add('clauses', lambda s, q=q: self.qcl(q(s)))
            add('clauses', lambda s, q=q, q0=q0: z3.Implies(self.qcl(q0), self.qcl(q(s))))
            for it in iters:
                p0 = pterm(entry, it)
                if p0 is None:
                    continue
                for en in self.envs:
                    if p0.sort() == self.M.sort:
                        for x in fs:
                            add('head', lambda s, q=q, q0=q0, it=it, en=en, x=x: self.qallh(
                                q(s), en) == z3.And(self.qallh(q0, en), self.head(
                                    pterm(s, it), self.fvar(x), en)))
                    if p0.sort() != self.SF.sort:
                        continue
                    sides = [self.holds(x, en) for x in fs] + [self.bval(en, v) for v in vs]
                    for g in sides + [z3.Not(x) for x in sides]:
                        add('distributed', lambda s, q=q, q0=q0, it=it, en=en, g=g: self.qallh(
                            q(s), en) == z3.And(self.qallh(q0, en), z3.Or(
                                g, self.allh(pterm(s, it), en))))
                        add('distributed', lambda s, q=q, q0=q0, it=it, en=en, g=g: self.qallh(
                            q(s), en) == z3.And(self.qallh(q0, en), z3.Or(
                                g, self.noneh(pterm(s, it), en))))
                    add('appended', lambda s, q=q, q0=q0, it=it, en=en: self.qallh(
                        q(s), en) == z3.And(self.qallh(q0, en), self.allh(pterm(s, it), en)))
        return out


def world(prog):
    return TWorld(prog)


def tasks(prog, w):
    out = []

    def this(I, M):
        return I.alloc(Obj(CLS, {'map_': Cont(w.M, M), 'naive_cnfizer_': Obj(
            'dreal::NaiveCnfizer', {'nnfizer_': Obj('dreal::Nnfizer', {})})}))

    def visit(fn, k):
        def t(I):
            f, M0 = I.fresh(w.F, 'f'), I.fresh(w.M.sort, 'M0')
            I.assume(w.kind(f) == w.KF[k])
            n0 = start_clock(I)
            I.assume(w.bel(f, n0))
            I.assume(w.id0 <= n0)
            for nm, g in w.inv(M0, n0):
                I.assume(g)
            o = this(I, M0)
            w.subformula, w.here = f, []
            try:
                r = w.lv(I, I.inline(fn, o, [I.alloc(f)], None))
            finally:
                w.subformula = None
            M1 = w.map_of(I, o).term
            w.oblige_facts(I, w.visit_facts(f, r, M0, M1, n0, I.load(NOW)))
        return t
    for fn in prog.find(CLS + '::Visit'):
        for k in w.KF:
            out.append(('Visit, %s' % k, visit(fn, k)))

    def cnfize(fn, k):
        def t(I):
            f, b = I.fresh(w.F, 'f'), I.fresh(w.V, 'b')
            I.assume(w.kind(f) == w.KF[k])
            I.assume(w.simple(f))
            I.assume(w.vtype(b) == w.VT['BOOLEAN'])
            c0 = I.fresh(w.QF.sort, 'c0')
            cl = I.alloc(Cont(w.QF, c0))
            I.inline(fn, None, [I.alloc(b), I.alloc(f), cl], None)
            w.oblige_facts(I, w.cnfize_facts(b, f, c0, I.load(cl).term))
        return t
    for fn in prog.find('dreal::(anon)::Cnfize'):
        for k in w.KF:
            out.append(('Cnfize, %s' % k, cnfize(fn, k)))

    def convert(fn):
        def t(I):
            f = I.fresh(w.F, 'f')
            n0 = start_clock(I)
            I.assume(w.id0 == n0)
            I.assume(w.bel(f, n0))
            o = this(I, I.fresh(w.M.sort, 'before'))
            r = w.lv(I, I.inline(fn, o, [I.alloc(f)], None))
            if not isinstance(r, Cont):
                raise Unsupported('Convert returns no vector')
            S, C = w.enS, w.enC
            I.oblige(w.qcl(r.term), 'every produced formula is a clause')
            I.oblige(z3.Implies(w.qallh(r.term, S), w.holds(f, S)),
                     'an assignment of the clauses satisfies the formula')
            I.oblige(z3.Implies(w.holds(f, C), w.qallh(r.term, C)),
                     'an assignment of the formula can be extended to the clauses')
            M = w.map_of(I, o).term
            I.oblige(w.keys_from(M, w.id0), 'the auxiliary variables are fresh')
        return t
    for fn in prog.find(CLS + '::Convert'):
        out.append(('Convert', convert(fn)))
    return out
