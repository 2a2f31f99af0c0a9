"""P42: assertions on the bounds of a variable narrow a box.

The box is a map from its variables to intervals (the contract of
Box::operator[](Variable) and Box::set_empty; P26 verifies it on the real Box).
sat(f, en, b): at the point en, the assertion f (negated if not b) can be true,
a constant known only up to an interval having some value from it.
"""
import z3

from ..ibex_world import IbexMixin
from ..interp import Cont, CppThrow, Obj, Ref
from ..symbolic_world import SymWorld
from ..theory import B, I as INT, R

SOURCES = ['dreal/solver/filter_assertion.cc']
EXTRA = 'ibex'
TRUSTED = ['contracts of ibex::Interval (dvc/ibex_world.py; IBEX is not available here, its '
           'interface is declared in harness/ibex)',
           'contracts of Box::operator[] and Box::set_empty (P26)',
           'contracts of the accessors of formulas and expressions (P06, P15)',
           'IEEE 754 nextafter: the adjacent double']
ASSUMPTIONS = ['constants of assertions lie strictly between the smallest and the largest double',
               'assertions on variables of the box that are not Boolean']
V = 'dreal::(anon)::AssertionFilter::'


class FilterWorld(IbexMixin, SymWorld):
    nonlinear = False
    ignored = ('dreal::unused',)

    def box(self):
        self.MB = self.ops(('map', ('z', self.V), ('z', self.Iv), True))
        self.cont_types['Box'] = ('map', ('z', self.V), ('z', self.Iv), True)
        F, E, V, Env, th, MB = self.F, self.E, self.V, self.Env, self.th, self.MB
        K, KE = self.KF, self.KE
        self.inbox = MB.fold_all('inbox', lambda v, i, en: self.mem(self.rval(en, v), i), (Env,))
        self.dbl = z3.Function('dbl', Env, B)
        self.sat = z3.Function('sat', F, Env, B, B)
        self.ok = z3.Function('ok', F, MB.sort, B)
        en, v, f, e = z3.Const('en', Env), z3.Const('v', V), z3.Const('f', F), z3.Const('e', E)
        m, m2, b = z3.Const('m', MB.sort), z3.Const('m2', MB.sort), z3.Const('b', B)
        th.ax('dbl', th.forall([en, v], z3.Implies(self.dbl(en), self.isdbl(self.rval(en, v))),
                               [(self.dbl(en), self.rval(en, v))]))
        i = z3.Const('i', self.Iv)
        put = MB.put(m, v, i)
        th.ax('inbox.over', th.forall([m, v, i, en], z3.Implies(
            self.inbox(put, en), z3.And(self.mem(self.rval(en, v), i), z3.Implies(
                z3.Implies(MB.has(m, v), self.mem(self.rval(en, v), MB.get(m, v))),
                self.inbox(m, en)))), [self.inbox(put, en), (put, self.inbox(m, en))]))
        rc = self.ekind(e) == KE['RealConstant']
        th.ax('realconstant', th.forall([e, en], z3.Implies(rc, z3.And(
            self.rclb(e) <= self.val(e, en), self.val(e, en) <= self.rcub(e))),
            [(self.val(e, en), self.ekind(e))]))
        lo = lambda e: z3.If(self.ekind(e) == KE['RealConstant'], self.rclb(e), self.val(e, en))
        hi = lambda e: z3.If(self.ekind(e) == KE['RealConstant'], self.rcub(e), self.val(e, en))
        l, r, k = self.lhs(f), self.rhs(f), self.kind(f)
        eq = z3.And(lo(l) <= hi(r), lo(r) <= hi(l))
        ne = z3.Not(z3.And(lo(l) == hi(l), lo(l) == lo(r), lo(r) == hi(r)))
        gt, ge, lt, le = hi(l) > lo(r), hi(l) >= lo(r), lo(l) < hi(r), lo(l) <= hi(r)
        pos = {'Eq': eq, 'Neq': ne, 'Gt': gt, 'Geq': ge, 'Lt': lt, 'Leq': le}
        neg = {'Eq': ne, 'Neq': eq, 'Gt': le, 'Geq': lt, 'Lt': ge, 'Leq': gt}
        s = self.sat(f, en, b)
        for q in pos:
            th.ax('sat.' + q, th.forall([f, en, b], z3.Implies(
                k == K[q], s == z3.If(b, pos[q], neg[q])), [(s, k)]))
        th.ax('sat.Not', th.forall([f, en, b], z3.Implies(
            k == K['Not'], s == self.sat(self.opnd(f), en, z3.Not(b))), [(s, k)]))
        # what the caller provides
        var = lambda e: z3.Implies(self.ekind(e) == KE['Var'], z3.And(
            MB.has(m, self.evar(e)), self.vtype(self.evar(e)) != self.VT['BOOLEAN']))
        inside = lambda x: z3.And(-self.dmax < x, x < self.dmax)
        num = lambda e: z3.And(
            z3.Implies(self.ekind(e) == KE['Constant'], inside(self.cval(e))),
            z3.Implies(self.ekind(e) == KE['RealConstant'], z3.And(
                inside(self.rclb(e)), inside(self.rcub(e)), self.rclb(e) <= self.rcub(e))))
        th.ax('ok', th.forall([f, m], z3.Implies(self.ok(f, m), z3.And(
            z3.Implies(self.isrel(k), z3.And(var(l), var(r), num(l), num(r))),
            z3.Implies(k == K['Not'], self.ok(self.opnd(f), m)))), [(self.ok(f, m), k)]))


def world(prog):
    w = FilterWorld(prog)
    w.box()
    C = w.contracts
    res = lambda x: w._enum('FilterAssertionResult', x)

    def at(I, this, args, n):
        v = w.lv(I, args[0])
        I.oblige(w.MB.has(I.load(this).term, v), 'the variable is in the box')
        return Ref(this.loc, this.path + (('val', v),))
    C['dreal::Box::operator[]'] = at

    def set_empty(I, this, args, n):
        old = I.load(this)
        m = I.fresh(w.MB.sort, 'box')
        v = z3.Const('v', w.V)
        I.assume(z3.ForAll([v], w.MB.has(m, v) == w.MB.has(old.term, v),
                           patterns=[w.MB.has(m, v), w.MB.has(old.term, v)]))
        I.assume(z3.ForAll([v], w.emp(w.MB.get(m, v)), patterns=[w.MB.get(m, v)]))
        en = z3.Const('en', w.Env)
        if not I.branch(w.MB.card(old.term) == 0):
            I.assume(z3.ForAll([en], z3.Not(w.inbox(m, en)), patterns=[w.inbox(m, en)]))
        I.store(this, Cont(old.ops, m, old.unordered))
        return None
    C['dreal::Box::set_empty'] = set_empty
    C['dreal::Box::empty'] = lambda I, this, args, n: I.fresh(B, 'empty')

    def visit(I, this, args, n):
        f, b = w.lv(I, args[0]), args[1]
        pol = w.lv(I, args[2])
        bx = b if isinstance(b, Ref) and isinstance(I.load(b), Cont) else I.load(b)
        m0 = I.load(bx).term
        I.oblige(w.ok(f, m0), 'the assertion meets the precondition')
        m1, r = I.fresh(w.MB.sort, 'box'), I.fresh(INT, 'result')
        I.store(bx, Cont(w.MB, m1, True))
        for x in post(w, f, pol, m0, m1, r):
            I.assume(x[1])
        return r
    C[V + 'Visit'] = visit
    return w


def post(w, f, pol, m0, m1, r, sat=None):
    en, v = z3.Const('en', w.Env), z3.Const('v', w.V)
    res = lambda x: w._enum('FilterAssertionResult', x)
    sat = sat or (lambda en: w.sat(f, en, pol))
    two = lambda body: z3.ForAll([en], body, patterns=[w.inbox(m0, en), w.inbox(m1, en)])
    return [
        ('no point is added to the box', two(z3.Implies(w.inbox(m1, en), w.inbox(m0, en)))),
        ('no point with double coordinates that satisfies the assertion leaves the box',
         two(z3.Implies(z3.And(w.inbox(m0, en), w.dbl(en), sat(en)), w.inbox(m1, en)))),
        ('the assertion is dropped only if all points of the box satisfy it',
         z3.Or(r == res('NotFiltered'), two(z3.Implies(w.inbox(m1, en), sat(en))))),
        ('the box is unchanged if the result says so', z3.Implies(
            r == res('FilteredWithoutChange'), m1 == m0)),
        ('the variables of the box stay the same', z3.ForAll(
            [v], w.MB.has(m1, v) == w.MB.has(m0, v),
            patterns=[w.MB.has(m1, v), w.MB.has(m0, v)]))]


def named(w, I, m):
    r = I.fresh(w.MB.sort, 'box')
    I.assume(r == m)
    return r


def tasks(prog, w):
    def visit(I):
        f, m0 = I.fresh(w.F, 'f'), I.fresh(w.MB.sort, 'box')
        I.assume(w.ok(f, m0))
        pol = I.fresh(B, 'polarity')
        box = I.alloc(Cont(w.MB, m0, True))
        I.branch(pol)
        r = I.inline(prog.find(V + 'Visit')[0], I.alloc(Obj(V[:-2], {})),
                     [I.alloc(f), box, pol], None)
        m1 = named(w, I, I.load(box).term)
        for nm, x in post(w, f, pol, m0, m1, I.load(I.alloc(r))):
            I.oblige(x, nm)

    def top(I):
        f, m0 = I.fresh(w.F, 'f'), I.fresh(w.MB.sort, 'box')
        I.assume(w.ok(f, m0))
        box = I.alloc(Cont(w.MB, m0, True))
        r = I.inline(prog.find('dreal::FilterAssertion')[0], None, [I.alloc(f), box], None)
        m1 = named(w, I, I.load(box).term)
        for nm, x in post(w, f, z3.BoolVal(True), m0, m1, I.load(I.alloc(r))):
            I.oblige(x, nm)
        # and for a formula that can be filtered, holding is having such values
    def lemma(I):
        f, en = I.fresh(w.F, 'f'), I.fresh(w.Env, 'en')
        k = w.kind(f)
        I.assume(w.isrel(k))
        h = w.holds(f, en)
        I.oblige(z3.Implies(h, w.sat(f, en, True)), 'a true comparison can be true')
        I.oblige(z3.Implies(z3.Not(h), w.sat(f, en, False)), 'a false comparison can be false')
    return [('AssertionFilter::Visit', visit), ('FilterAssertion', top),
            ('lemma: an assertion that holds can be true', lemma)]
