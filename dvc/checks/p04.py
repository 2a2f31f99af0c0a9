"""P04: elimination of if-then-else terms.

Two assignments are fixed.  `S` is arbitrary: where it satisfies what was added and the guard, the
result of a visit has the value of what was visited.  `C` is arbitrary on the variables that
existed before and gives each variable that VisitIfThenElse introduces the value of the term it
stands for: there, the result always has the value of what was visited and everything that was
added holds.  A variable is given its value when it is created, so no term that exists contains
it, and GIVEN (ghost) collects the variables that were given a value: they are all in
ite_variables_, so C differs from any assignment of the older variables only on those.

A quantified formula is processed by an eliminator of its own; its Process is used by contract for
every assignment (`ext` gives the extension of an assignment to its variables)."""
import z3

from ..fresh import NOW, add_fresh, start_clock
from ..interp import Cont, IterV, Obj, Ref, Unsupported
from ..symbolic_world import S_, SymWorld
from ..templates import scope_values
from ..theory import B, I as INT, R
from ..world import Cand, snap_get

SOURCES = ['dreal/util/if_then_else_eliminator.cc', 'dreal/symbolic/symbolic.cc']
TRUSTED = ['contracts of the connectives, comparisons, arithmetic operators and functions '
           '(proved in P06, P07, P08)', 'contract of Nnfizer::Convert (P01)',
           'what an operator builds from operands without conditionals has no conditional; '
           'include_ite is exact (P15)',
           'a variable created by its constructor did not exist before (P18)',
           'a term depends only on the variables that occur in it (P15)']
ASSUMPTIONS = ['arithmetic is total: an operation applied outside its domain has some value']
CLS = 'dreal::IfThenElseEliminator'
GIVEN = Ref('GIVEN')


class IWorld(SymWorld):
    def __init__(self, prog):
        super().__init__(prog)
        add_fresh(self)
        th, F, E, V, Env = self.th, self.F, self.E, self.V, self.Env
        K, h, v_ = self.KF, self.holds, self.val
        SV = self.SV
        self.enS, self.enC = z3.Consts('S C', Env)
        self.envs = [self.enS, self.enC]
        self.within = SV.fold_all('within', lambda v, ws: SV.mem(v, ws), (SV.sort,))
        self.newer = SV.fold_all('newer', lambda v, ws, n: z3.Or(
            SV.mem(v, ws), self.vid(v) >= n), (SV.sort, INT))
        self.noite = self.SF.fold_all('noite', lambda x: z3.Not(self.hasite(x)))
        self.qnoite = self.QF.fold_all('qnoite', lambda x: z3.Not(self.hasite(x)))
        self.ext = z3.Function('ext', INT, Env, Env)
        self.mix = z3.Function('mix', Env, Env, INT, Env)
        f, e, v = z3.Const('f', F), z3.Const('e', E), z3.Const('v', V)
        a, b = z3.Consts('a b', Env)
        vs, n = z3.Const('vs', SV.sort), z3.Int('n')
        for k in ('True', 'False', 'Var'):
            th.ax('hasite.' + k, th.forall([f], z3.Implies(
                self.kind(f) == K[k], z3.Not(self.hasite(f))), [(self.kind(f), self.hasite(f))]))
        for k in ('Constant', 'RealConstant', 'Var', 'NaN', 'UninterpretedFunction'):
            th.ax('ehasite.' + k, th.forall([e], z3.Implies(
                self.ekind(e) == self.KE[k], z3.Not(self.ehasite(e))),
                [(self.ekind(e), self.ehasite(e))]))
        differ = lambda x: z3.Or(self.bval(a, x) != self.bval(b, x),
                                 self.rval(a, x) != self.rval(b, x))
        wit = z3.Function('agree.w', Env, Env, SV.sort, V)(a, b, vs)
        th.ax('agree.intro', th.forall([a, b, vs], z3.Or(
            self.agree(a, b, vs), z3.And(z3.Not(SV.mem(wit, vs)), differ(wit))),
            [self.agree(a, b, vs)]))
        m = self.mix(a, b, n)
        th.ax('mix', th.forall([a, b, n, v], z3.And(
            self.bval(m, v) == z3.If(self.vid(v) < n, self.bval(a, v), self.bval(b, v)),
            self.rval(m, v) == z3.If(self.vid(v) < n, self.rval(a, v), self.rval(b, v))),
            [self.bval(m, v), self.rval(m, v)]))
        # variables below the clock agree
        th.ax('agreeB.elim', th.forall([a, b, n, v], z3.Implies(
            z3.And(self.agreeB(a, b, n), self.vid(v) < n), z3.Not(differ(v))),
            [(self.agreeB(a, b, n), self.rval(b, v)), (self.agreeB(a, b, n), self.bval(b, v))]))
        self.formula_hooks.append(self.built_formula)
        self.expr_hooks.append(self.built_expr)
        self.fresh_hooks.append(self.created)
        self.extra_candidates.append(self.templates)
        C = self.contracts
        C[CLS + '::Visit'] = self.visit
        C[CLS + '::Process'] = self.process
        C['dreal::Nnfizer::Convert'] = self.nnf
        self.subexpr = self.subformula = self.guard = self.points = None
        self.calls = []

    def opaque_type(self, base):
        return base.endswith('ElimStat') or super().opaque_type(base)

    # ---------------------------------------------------------------- structure
    def built_formula(self, I, r, parts, how, exprs):
        no = [z3.Not(self.hasite(p)) for p in parts] + [z3.Not(self.ehasite(x)) for x in exprs]
        if how == 'nary':
            no = [self.noite(self.nary_set)]
        I.assume(z3.Implies(z3.And(*no), z3.Not(self.hasite(r))))
        f = self.subformula
        if how == 'forall' and f is not None:
            self.lemmas(I, f, self.forall_vars, self.mkForall(self.forall_vars, parts[0]))

    def lemmas(self, I, f, vs, g):
        """Assignments needed to compare `f` (quantified) with `g`, built from its parts."""
        qv = self.qvars(f)
        n0 = self.n0
        for e in self.envs:
            c = self.fcex(g, e)
            m = self.mix(c, e, n0)
            for nm, x in (('agree', z3.Implies(self.agree(e, c, vs), self.agree(e, m, qv))),
                          ('frame', self.agreeB(c, m, n0))):
                I.oblige(x, 'lemma: %s outside the introduced variables' % nm)
                I.assume(x)
            c = self.fcex(f, e)
            for k in self.calls:
                x = z3.Implies(self.agree(e, c, qv), self.agree(e, self.ext(k, c), vs))
                I.oblige(x, 'lemma: the extension changes only quantified variables')
                I.assume(x)

    def built_expr(self, I, r, parts, forms):
        if not forms:
            I.assume(z3.Implies(z3.And(*[z3.Not(self.ehasite(p)) for p in parts]),
                                z3.Not(self.ehasite(r))))

    # ---------------------------------------------------------------- ghosts
    def created(self, I, v):
        e = self.subexpr
        if e is None:
            return
        self.existing(I, I.load(NOW) - 1)
        g = I.load(GIVEN)
        I.assume(self.rval(self.enC, v) == self.val(e, self.enC))
        I.store(GIVEN, Cont(self.SV, self.SV.ins(g.term, v)))

    def existing(self, I, n):
        for _l, _p, x in scope_values(I.snapshot()):
            if isinstance(x, Cont):
                if x.ops is self.SF:
                    I.assume(self.allbel(x.term, n))
            elif z3.is_expr(x) and x.sort() == self.F:
                I.assume(self.bel(x, n))
            elif z3.is_expr(x) and x.sort() == self.E:
                I.assume(self.ebel(x, n))

    def on_element(self, I, it, x):
        if z3.is_expr(x) and x.sort() in (self.F, self.E) and 'NOW' in I.mem:
            I.assume((self.bel if x.sort() == self.F else self.ebel)(x, I.load(NOW)))
        return super().on_element(I, it, x)

    # ---------------------------------------------------------------- contracts
    def state(self, I, this):
        """(added formulas, introduced variables) of an eliminator, with their fields."""
        o = I.load(this)
        out = []
        for ops in (self.QF, self.SV):
            c = [(k, x.term) for k, x in o.fields.items() if isinstance(x, Cont) and x.ops is ops]
            if len(c) != 1:
                raise Unsupported('fields of the eliminator')
            out.append(c[0])
        return out

    def set_state(self, I, this, A, W):
        (ka, _), (kw, _) = self.state(I, this)
        o = I.load(this)
        old = o.fields[kw]
        I.store(this, Obj(o.cls, dict(o.fields, **{
            ka: Cont(self.QF, A), kw: Cont(self.SV, W, old.unordered)})))
        self.arbitrary_fields(I, this, (ka, kw))

    def inv(self, A, W, now, G):
        return [('what was added holds when introduced variables have the values of what they '
                 'stand for', self.qallh(A, self.enC)),
                ('introduced variables exist', self.vbel(W, now)),
                ('what was added has no conditional', self.qnoite(A)),
                ('every variable that was given a value is in variables()', self.within(G, W))]

    def grown(self, A0, W0, A1, W1, n0, n1):
        return [('time goes on', n1 >= n0),
                ('nothing that was added is lost', z3.Implies(
                    self.qallh(A1, self.enS), self.qallh(A0, self.enS))),
                ('introduced variables are kept', self.within(W0, W1)),
                ('introduced variables are new', self.newer(W1, W0, n0))]

    def same(self, x, r, en):
        if x.sort() == self.E:
            return self.val(r, en) == self.val(x, en)
        return self.holds(r, en) == self.holds(x, en)

    def visit_facts(self, x, g, r, s0, s1, n0, n1, G1):
        (A0, W0), (A1, W1) = s0, s1
        return self.inv(A1, W1, n1, G1) + self.grown(A0, W0, A1, W1, n0, n1) + [
            ('the result has no conditional', z3.Not(
                (self.ehasite if x.sort() == self.E else self.hasite)(r))),
            ('where the guard and what was added hold, the result has the value of the term',
             z3.Implies(z3.And(self.qallh(A1, self.enS), self.holds(g, self.enS)),
                        self.same(x, r, self.enS))),
            ('the result has the value of the term when introduced variables have the values of '
             'what they stand for', self.same(x, r, self.enC))]

    def visit(self, I, this, args, n):
        x, g = self.lv(I, args[0]), self.lv(I, args[1])
        s0 = tuple(t for _k, t in self.state(I, this))
        n0, n1 = I.load(NOW), I.fresh(INT, 'now')
        for nm, c in self.inv(*s0, n0, I.load(GIVEN).term):
            I.oblige(c, nm)
        r = I.fresh(x.sort(), 'visited')
        A1, W1, G1 = I.fresh(self.QF.sort, 'A'), I.fresh(self.SV.sort, 'W'), \
            I.fresh(self.SV.sort, 'G')
        I.assume((self.kind if x.sort() == self.F else self.ekind)(r) >= 0)
        bel = self.bel if x.sort() == self.F else self.ebel
        I.assume(bel(x, n0))
        I.assume(bel(r, n1))
        self.assume_facts(I, self.visit_facts(x, g, r, s0, (A1, W1), n0, n1, G1))
        I.store(NOW, n1)
        I.store(GIVEN, Cont(self.SV, G1))
        self.set_state(I, this, A1, W1)
        return r

    def process(self, I, this, args, n):
        """For every assignment; its variables are not those of the caller."""
        f = self.lv(I, args[0])
        A0, W0 = (t for _k, t in self.state(I, this))
        n0, n1 = I.load(NOW), I.fresh(INT, 'now')
        r = I.fresh(self.F, 'processed')
        A1, W1 = I.fresh(self.QF.sort, 'A'), I.fresh(self.SV.sort, 'W')
        call = I.fresh(INT, 'call')
        self.calls.append(call)
        I.assume(self.kind(r) >= 0)
        I.assume(self.bel(r, n1))
        I.assume(self.vbel(W1, n1))
        for nm, x in self.grown(A0, W0, A1, W1, n0, n1):
            I.assume(x)
        I.assume(z3.Not(self.hasite(r)))
        h = self.holds
        I.assume(self.forall_env(lambda en: z3.Implies(h(r, en), h(f, en)), lambda en: h(r, en)))
        ext = lambda en: self.ext(call, en)
        whole = lambda en: z3.And(self.agree(en, ext(en), W1), z3.Implies(
            z3.And(h(f, en), self.qallh(A0, en)), h(r, ext(en))))
        I.assume(self.forall_env(whole, ext))
        if self.subformula is not None:
            for en in self.envs:
                I.assume(whole(self.fcex(self.subformula, en)))
        I.store(NOW, n1)
        self.set_state(I, this, A1, W1)
        return r

    def nnf(self, I, this, args, n):
        f = self.lv(I, args[0])
        r = I.fresh(self.F, 'nnf')
        I.assume(self.kind(r) >= 0)
        h = self.holds
        I.assume(self.forall_env(lambda en: h(r, en) == h(f, en), lambda en: h(r, en)))
        I.assume(z3.Implies(z3.Not(self.hasite(f)), z3.Not(self.hasite(r))))
        return r

    # ---------------------------------------------------------------- loops
    def templates(self, I, node, entry, havoced, mods, iters, accs, pterm, term):
        out = []
        add = lambda nm, f: out.append(Cand(nm, f))
        seqs = {}
        for loc, path in accs:
            e0 = term(snap_get(entry, loc, path))
            if e0 is None:
                continue
            at = lambda s, loc=loc, path=path: term(snap_get(s, loc, path))
            seqs.setdefault(e0.sort().name(), []).append((at, e0, loc))
        get = lambda s, l: term(snap_get(s, l, ()))
        now = lambda s: get(s, 'NOW')
        n0 = now(entry)
        if n0 is None or get(entry, 'GIVEN') is None:
            return out
        G = lambda s: get(s, 'GIVEN')
        qs, ws = seqs.get(self.QF.sort.name(), []), seqs.get(self.SV.sort.name(), [])
        pairs = [(a, w) for a in qs for w in ws if a[2] == w[2]]
        C, S = self.enC, self.enS
        cond = []
        for (a, a0, _), (w, w0, _) in pairs:
            for i in range(4):
                add('invariant', lambda s, a=a, w=w, i=i: self.inv(
                    a(s), w(s), now(s), G(s))[i][1])
                add('growth', lambda s, a=a, w=w, a0=a0, w0=w0, i=i: self.grown(
                    a0, w0, a(s), w(s), n0, now(s))[i][1])
            if self.guard is not None:
                cond.append(lambda s, a=a: z3.And(self.qallh(a(s), S),
                                                  self.holds(self.guard, S)))
        for w, w0, _l in ws:
            for it in iters:
                p0 = pterm(entry, it)
                if p0 is not None and p0.sort() == self.SV.sort:
                    v = z3.Const('tv', self.V)
                    add('union', lambda s, w=w, w0=w0, it=it: z3.ForAll(
                        [v], self.SV.mem(v, w(s)) == z3.Or(
                            self.SV.mem(v, w0), self.SV.mem(v, pterm(s, it))),
                        patterns=[self.SV.mem(v, w(s))]))
        def both(fn):
            add('at C', lambda s: fn(s, C))
            for c in cond:
                add('at S', lambda s, c=c: z3.Implies(c(s), fn(s, S)))
        for it in iters:
            p0 = pterm(entry, it)
            if p0 is None:
                continue
            P = lambda s, it=it: pterm(s, it)
            for a, a0, _l in seqs.get('E', ()):
                add('no conditional', lambda s, a=a: z3.Not(self.ehasite(a(s))))
                if p0.sort() == self.MED.sort:
                    both(lambda s, en, a=a, a0=a0, P=P: self.val(a(s), en) == self.val(
                        a0, en) + self.vsum(P(s), en))
                if p0.sort() == self.MEE.sort:
                    both(lambda s, en, a=a, a0=a0, P=P: self.val(a(s), en) == self.val(
                        a0, en) * self.vprod(P(s), en))
            if p0.sort() not in (self.SF.sort, self.QF.sort):
                continue
            al, no = (self.allh, self.noneh) if p0.sort() == self.SF.sort else (
                self.qallh, self.qnoneh)
            for a, a0, _l in seqs.get('F', ()):
                add('no conditional', lambda s, a=a: z3.Not(self.hasite(a(s))))
                both(lambda s, en, a=a, a0=a0, P=P, al=al: self.holds(a(s), en) == z3.And(
                    self.holds(a0, en), al(P(s), en)))
                both(lambda s, en, a=a, a0=a0, P=P, no=no: self.holds(a(s), en) == z3.Or(
                    self.holds(a0, en), z3.Not(no(P(s), en))))
            for srt, mine in ((self.SF.sort, (self.allh, self.noneh, self.noite)),
                              (self.QF.sort, (self.qallh, self.qnoneh, self.qnoite))):
                for a, a0, _l in seqs.get(srt.name(), ()):
                    add('no conditional', lambda s, a=a, m=mine: m[2](a(s)))
                    for fo, fp in ((mine[0], al), (mine[1], no)):
                        both(lambda s, en, a=a, P=P, fo=fo, fp=fp: fo(a(s), en) == fp(P(s), en))
        return out


def world(prog):
    return IWorld(prog)


def tasks(prog, w):
    out = []

    def setup(I):
        A, W = I.fresh(w.QF.sort, 'A0'), I.fresh(w.SV.sort, 'W0')
        n0 = start_clock(I)
        G = I.fresh(w.SV.sort, 'G0')
        I.mem['GIVEN'] = Cont(w.SV, G)
        for nm, g in w.inv(A, W, n0, G):
            I.assume(g)
        w.calls, w.n0 = [], n0
        o = w.default(I, CLS)
        if not isinstance(o, Obj):
            raise Unsupported('the eliminator')
        o = I.alloc(o)
        w.set_state(I, o, A, W)
        return o, (A, W), n0

    def visit(fn, sort, k):
        isf = sort == w.F

        def t(I):
            x, g = I.fresh(sort, 'x'), I.fresh(w.F, 'guard')
            if isf:
                I.assume(w.kind(x) == w.KF[k])
            else:
                I.assume(w.ekind(x) == w.KE[k])
            o, s0, n0 = setup(I)
            I.assume((w.bel if isf else w.ebel)(x, n0))
            I.assume(w.bel(g, n0))
            I.assume(z3.Not(w.hasite(g)))
            w.subformula = x if isf and k == 'Forall' else None
            w.subexpr = None if isf else x
            w.guard = g
            try:
                r = w.lv(I, I.inline(fn, o, [I.alloc(x), I.alloc(g)], None))
                if not isf and z3.is_expr(r) and r.sort() == w.V:
                    r = w.mkEV(r)
            finally:
                w.subformula = w.subexpr = w.guard = None
            s1 = tuple(c for _k, c in w.state(I, o))
            w.oblige_facts(I, w.visit_facts(x, g, r, s0, s1, n0, I.load(NOW),
                                            I.load(GIVEN).term))
        return t
    for fn in prog.find(CLS + '::Visit'):
        if 'Expression (' in fn['type']['qualType'] or fn['type']['qualType'].startswith('Expression'):
            for k in w.KE:
                out.append(('Visit expression, %s' % k, visit(fn, w.E, k)))
        else:
            for k in w.KF:
                out.append(('Visit formula, %s' % k, visit(fn, w.F, k)))

    def process(fn):
        def t(I):
            o, s0, n0 = setup(I)
            f = I.fresh(w.F, 'f')
            I.assume(w.bel(f, n0))
            w.guard = w.fT
            try:
                r = w.lv(I, I.inline(fn, o, [I.alloc(f)], None))
            finally:
                w.guard = None
            A1, W1 = (c for _k, c in w.state(I, o))
            for nm, g in w.inv(A1, W1, I.load(NOW), I.load(GIVEN).term) + w.grown(
                    *s0, A1, W1, n0, I.load(NOW)):
                I.oblige(g, nm)
            I.oblige(z3.Not(w.hasite(r)), 'the result has no conditional')
            I.oblige(z3.Implies(w.holds(r, w.enS), w.holds(f, w.enS)),
                     'an assignment of the result satisfies the formula')
            I.oblige(z3.Implies(w.holds(f, w.enC), w.holds(r, w.enC)),
                     'an assignment of the formula extends to the result')
        return t
    for fn in prog.find(CLS + '::Process'):
        out.append(('Process', process(fn)))

    def variables(fn):
        def t(I):
            o, s0, n0 = setup(I)
            r = w.lv(I, I.inline(fn, o, [], None))
            if not isinstance(r, Cont):
                raise Unsupported('variables()')
            I.oblige(r.term == s0[1], 'the introduced variables are reported')
        return t
    for fn in prog.find(CLS + '::variables'):
        out.append(('variables', variables(fn)))
    return out
