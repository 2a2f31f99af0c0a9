"""P10: structural equality, ordering and hashing of terms."""
import re

import z3

from ..frontend import SYM
from ..interp import (Cont, CppThrow, Closure, FnPtr, IterV, Obj, Ref, Unsupported, norm_type,
                      qt)
from ..symbolic_world import ECELLS, FCELLS, S_
from ..theory import B, I as INT, R
from ..world import Cand, snap_get
from .p15 import AttrWorld, PARTS, precondition, term_of

SOURCES = [SYM + 'symbolic_formula.cc', SYM + 'symbolic_formula_cell.cc',
           SYM + 'symbolic_expression.cc', SYM + 'symbolic_expression_cell.cc',
           SYM + 'symbolic_variables.cc', SYM + 'symbolic_variable.cc']
TRUSTED = [
    'std::equal and std::lexicographical_compare over two whole ranges, given that the function '
    'that compares two entries is the equality (a strict total order) of the entries',
    'std::hash and the bit operations are functions of their arguments',
    'the specialisations of std::less, std::equal_to and std::hash in the headers (harness)']
ASSUMPTIONS = ['doubles are real numbers',
               'a strict total order of a countable set embeds in the rational numbers']


class OrderWorld(AttrWorld):
    def __init__(self, prog):
        super().__init__(prog)
        self.nonlinear = False
        th = self.th
        STR = z3.StringSort()
        self.rank, self.unrank = {}, {}
        for s in (self.F, self.E, self.SV.sort, STR):
            self.injective(s, s.name())
        self.extra_candidates.append(self.in_step)
        C = self.contracts
        for cls in ('Formula', 'Expression'):
            C[S_ + cls + '::EqualTo'] = self.equal_to
            C[S_ + cls + '::Less'] = self.less
            C[S_ + cls + 'Cell::EqualTo'] = self.samekind(self.equal_to)
            C[S_ + cls + 'Cell::Less'] = self.samekind(self.less)
            self.virtuals |= {S_ + cls + 'Cell::EqualTo', S_ + cls + 'Cell::Less'}
        for q in ('Variable::equal_to', 'Variable::less', 'Variable::get_id',
                  'Variable::get_hash', 'Variables::get_hash'):
            C.pop(S_ + q, None)
        C[S_ + 'Variables::get_hash'] = lambda I, t, a, n: self.hash_of(I, I.load(t))

    def injective(self, s, name):
        r = z3.Function('rank_' + name, s, R)
        u = z3.Function('unrank_' + name, R, s)
        x = z3.Const('ix', s)
        self.th.ax('rank_' + name, self.th.forall([x], u(r(x)) == x, [r(x)]))
        self.rank[name] = r
        return r

    # ------------------------------------------------ two containers walked in step
    def on_element(self, I, it, x):
        super().on_element(I, it, x)
        o, S = it.snap.ops, it.snap.term
        if o.kind == 'seq' or it.snap.unordered:
            return
        # the order of the keys decides which entry comes next
        nxt = z3.Function('next_' + S.sort().name(), S.sort(), S.sort(), x.sort())
        I.assume(x == nxt(S, it.p))
        I.assume(o.card(it.p) < o.card(S))

    def on_havoc_iter(self, I, it, p):
        o, S = it.snap.ops, it.snap.term
        if o.kind != 'seq':
            I.assume(o.card(p) <= o.card(S))
            I.assume(z3.Implies(o.card(p) == o.card(S), p == S))

    def in_step(self, I, node, entry, havoced, mods, iters, accs, pterm, term):
        out = []
        for i, a in enumerate(iters):
            for b in iters[:i]:
                def at(s, a=a, b=b):
                    p, q = pterm(s, a), pterm(s, b)
                    return None if p is None or q is None or p.sort() != q.sort() else p == q
                out.append(Cand('the two iterators are in step', at))
        return out

    # contracts
    def equal_to(self, I, this, args, n):
        return I.load(this) == self.ld(I, args[0])

    def less(self, I, this, args, n):
        x, y = I.load(this), self.ld(I, args[0])
        r = self.rank[x.sort().name()]
        return r(x) < r(y)

    def contract_for(self, I, fn, q, this):
        if q in (S_ + 'operator==', S_ + 'operator<'):
            ps = [norm_type(qt(p))[0] for p in I.params(fn)]
            if any(p.endswith('Kind') for p in ps):
                return None
            if all(p == 'Variables' for p in ps):
                return lambda I, t, a, n: self.binop(
                    I, q[-2:].lstrip('r'), self.ld(I, a[0]), self.ld(I, a[1]), n)
        return super().contract_for(I, fn, q, this)

    def samekind(self, c):
        def f(I, this, args, n):
            x, y = I.load(this), self.ld(I, args[0])
            k = self.kind if x.sort() == self.F else self.ekind
            I.oblige(k(x) == k(y), 'cells of one kind are compared')
            return c(I, this, args, n)
        return f

    def member_of_term(self, I, r, v, name, n):
        if v.sort() == self.V and name in ('id_', 'type_'):
            return I.alloc((self.vid if name == 'id_' else self.vtype)(v))
        return super().member_of_term(I, r, v, name, n)

    def binop(self, I, op, x, y, n):
        if isinstance(x, Cont) and isinstance(y, Cont) and op == '<' and x.ops is self.SV:
            return self.rank[self.SV.sort.name()](x.term) < self.rank[self.SV.sort.name()](y.term)
        if op in ('^', '<<', '>>', '|', '&') and z3.is_expr(x) and z3.is_expr(y) and \
                x.sort() == INT and y.sort() == INT:
            nm = {'^': 'xor', '<<': 'shl', '>>': 'shr', '|': 'or', '&': 'and'}[op]
            return z3.Function('bit_' + nm, INT, INT, INT)(x, y)
        return super().binop(I, op, x, y, n)

    # ------------------------------------------------ whole ranges
    def whole_range(self, a, b):
        if not (isinstance(a, IterV) and isinstance(b, IterV) and
                a.snap.term.eq(b.snap.term) and a.state != 'end' and b.state == 'end' and
                not a.snap.unordered and a.p is not None and a.p.eq(a.snap.ops.empty)):
            raise Unsupported('algorithm over part of a range')
        return a.snap

    def entry(self, I, c, nm):
        """Any entry of such a container, and the term that it is."""
        o = c.ops
        if o.kind == 'map':
            k, v = I.fresh(o.K, nm), I.fresh(o.T, nm + 'v')
            return I.alloc(Obj('pair', {'first': k, 'second': v})), (k, v)
        x = I.fresh(o.T, nm)
        return I.alloc(x), (x,)

    def call2(self, I, f, x, y):
        return merged(I, lambda: I.as_bool(self.ld(I, I.call_closure(f, [x, y]))))

    def std_value_function(self, I, name, v, a, argn, n):
        if name == 'equal' and len(v) in (4, 5) and isinstance(v[0], IterV):
            two = isinstance(v[3], IterV)
            c1 = self.whole_range(v[0], v[1])
            if two:
                c2 = self.whole_range(v[2], v[3])
            else:
                c2 = self.whole_range(v[2], IterV(v[2].cref, v[2].snap, None, None, 'end'))
            f = v[4 if two else 3] if len(v) == (5 if two else 4) else None
            if c1.ops is not c2.ops:
                raise Unsupported('std::equal of different containers')
            if f is not None and not (isinstance(f, Obj) and f.cls == 'equal_to'):
                (rx, x), (ry, y) = self.entry(I, c1, 'x'), self.entry(I, c2, 'y')
                same = z3.And([p == q for p, q in zip(x, y)])
                I.oblige(self.call2(I, f, rx, ry) == same,
                         'entries are compared by equality')
            if two:
                return c1.term == c2.term
            r = I.fresh(B, 'equal')
            I.assume(z3.Implies(c1.term == c2.term, r))
            I.oblige(c1.ops.card(c2.term) >= c1.ops.card(c1.term),
                     'the second range is as long as the first')
            I.assume(z3.Implies(z3.And(r, c1.ops.card(c1.term) == c1.ops.card(c2.term)),
                                c1.term == c2.term))
            return r
        if name == 'lexicographical_compare' and len(v) in (4, 5):
            c1, c2 = self.whole_range(v[0], v[1]), self.whole_range(v[2], v[3])
            if c1.ops is not c2.ops:
                raise Unsupported('std::lexicographical_compare of different containers')
            f = v[4] if len(v) == 5 else None
            key = 'std'
            if isinstance(f, (Closure, FnPtr)):
                key = 'f%s' % f.node.get('id')
                es = [self.entry(I, c1, 'xyz'[i]) for i in range(3)]
                lt = lambda i, j: self.call2(I, f, es[i][0], es[j][0])
                same = z3.And([p == q for p, q in zip(es[0][1], es[1][1])])
                ab, ba, bc, ac, aa = lt(0, 1), lt(1, 0), lt(1, 2), lt(0, 2), lt(0, 0)
                strict(I, same, ab, ba, bc, ac, aa, 'order of the entries')
            elif f is not None and not (isinstance(f, Obj) and f.cls == 'less'):
                raise Unsupported('std::lexicographical_compare')
            r = self.rank.get(key + c1.term.sort().name())
            if r is None:
                r = self.injective(c1.term.sort(), key + c1.term.sort().name())
                self.axiom_added(I)
            return r(c1.term) < r(c2.term)
        if name in ('operator<', 'operator>', 'operator<=', 'operator>=', 'compare') and \
                z3.is_expr(v[0]) and v[0].sort() == z3.StringSort():
            r = self.rank['String']
            x, y = r(v[0]), r(v[1])
            if name == 'compare':
                return z3.If(x < y, z3.IntVal(-1), z3.If(y < x, z3.IntVal(1), z3.IntVal(0)))
            return {'<': x < y, '>': y < x, '<=': x <= y, '>=': y <= x}[name[8:]]
        return super().std_value_function(I, name, v, a, argn, n)

    def axiom_added(self, I):
        I.assume(self.th.axioms[-1][1])

    # ------------------------------------------------ hashing
    def hash_of(self, I, v):
        v = term_of(v)
        return z3.Function('stdhash_' + v.sort().name(), v.sort(), INT)(v)

    def hash_contracts(self):
        C = self.contracts
        self.opaque |= {'hash'}
        C['dreal::drake::hash_range'] = self.hash_range
        C[S_ + 'Formula::get_hash'] = lambda I, t, a, n: self.hashF(I.load(t))
        C[S_ + 'Expression::get_hash'] = lambda I, t, a, n: self.hashE(I.load(t))

    def hash_range(self, I, this, args, n):
        c = self.whole_range(*[self.ld(I, a) for a in args])
        return self.hash_of(I, c)


def merged(I, fn):
    """The value of a call without effects as one term, however many paths it has."""
    rs = I.explore(fn)
    if any(how != 'ok' for how, v, st in rs) or not rs:
        raise Unsupported('a comparison does not return')
    r = I.fresh(rs[0][1].sort(), 'merged')
    # one of the paths is taken
    I.assume(z3.Or([z3.And(list(st[1][len(I.pc):]) + [r == v]) for how, v, st in rs]))
    return r


def strict(I, same, ab, ba, bc, ac, aa, what):
    I.oblige(z3.Not(aa), what + ': irreflexive')
    I.oblige(z3.Implies(ab, z3.Not(ba)), what + ': asymmetric')
    I.oblige(z3.Implies(z3.And(ab, bc), ac), what + ': transitive')
    I.oblige(z3.Implies(z3.Not(z3.Or(ab, ba)), same), what + ': ties are equal')
    I.oblige(z3.Implies(same, z3.Not(ab)), what + ': equal ones are ties')


def world(prog):
    return OrderWorld(prog)


def I_params(fn):
    return [c for c in fn.get('inner', ()) if c['kind'] == 'ParmVarDecl']


def fields(w, cls, k):
    if k in PARTS:
        return PARTS[k]
    return PARTS['unary' if k in w.unary_kinds else 'binary' if k in w.binary_kinds else 'rel']


def tasks(prog, w):
    out = []

    def method(cls, name):
        """The function that the virtual call reaches for that class."""
        rec = w.record(S_ + cls)
        while True:
            fs = [f for f in prog.find(rec['_q'] + '::' + name)]
            fs = [f for f in fs if f['kind'] == 'CXXMethodDecl']
            if fs:
                return fs[0]
            bs = [norm_type(b['type'].get('desugaredQualType') or b['type']['qualType'])[4]
                  for b in rec.get('bases', ())]
            if not bs:
                return None
            rec = w.record(bs[0])

    def run(I, fn, x, y):
        return merged(I, lambda: I.as_bool(w.ld(I, I.inline(fn, x, [y], None))))

    # ---- handles
    for cls, sort in (('Formula', w.F), ('Expression', w.E)):
        def eq(I, cls=cls, sort=sort):
            fn, = prog.find(S_ + cls + '::EqualTo')
            a, b = I.alloc(I.fresh(sort, 'a')), I.alloc(I.fresh(sort, 'b'))
            r = run(I, fn, a, b)
            I.oblige(z3.Implies(r, I.load(a) == I.load(b)), 'equal terms have the same structure')
            I.oblige(z3.Implies(I.load(a) == I.load(b), r), 'terms of the same structure are equal')

        def lt(I, cls=cls, sort=sort):
            fn, = prog.find(S_ + cls + '::Less')
            o = [I.alloc(I.fresh(sort, 'abc'[i])) for i in range(3)]
            f = lambda i, j: run(I, fn, o[i], o[j])
            strict(I, I.load(o[0]) == I.load(o[1]), f(0, 1), f(1, 0), f(1, 2), f(0, 2), f(0, 0),
                   'order')
        out.append((cls + '::EqualTo', eq))
        out.append((cls + '::Less', lt))

    # ---- cells
    def setup(I, cls, k, n):
        isF = cls in FCELLS
        kf, K = (w.kind, w.KF) if isF else (w.ekind, w.KE)
        ts = [I.fresh(w.F if isF else w.E, 'abc'[i]) for i in range(n)]
        for t in ts:
            I.assume(kf(t) == K[k])

        def ps(t):
            return [(w.opnd(t) if k == 'Not' else w.qbody(t)) if nm == 'f_' else
                    term_of(w.field(I, t, nm)) for nm in fields(w, cls, k)]
        for i in range(n):
            for j in range(i):
                # a term is its kind and its parts
                I.assume(z3.Implies(z3.And([x == y for x, y in zip(ps(ts[i]), ps(ts[j]))] or
                                           [z3.BoolVal(True)]), ts[i] == ts[j]))
        return [I.alloc(t) for t in ts], ts

    def cell_eq(cls, k, fn):
        def t(I):
            o, ts = setup(I, cls, k, 2)
            r = run(I, fn, o[0], o[1])
            I.oblige(z3.Implies(r, ts[0] == ts[1]), 'equal terms have the same structure')
            I.oblige(z3.Implies(ts[0] == ts[1], r), 'terms of the same structure are equal')
        return t

    def cell_lt(cls, k, fn):
        def t(I):
            o, ts = setup(I, cls, k, 3)
            f = lambda i, j: run(I, fn, o[i], o[j])
            strict(I, ts[0] == ts[1], f(0, 1), f(1, 0), f(1, 2), f(0, 2), f(0, 0), 'order')
        return t
    for tab in (FCELLS, ECELLS):
        for cls, k in tab.items():
            for name, mk in (('EqualTo', cell_eq), ('Less', cell_lt)):
                fn = method(cls, name)
                if fn is not None:
                    out.append(('%s %s' % (cls, name), mk(cls, k, fn)))

    # ---- hashes: a function of the kind and the parts
    def hashing(cls, k, rec, c):
        def t(I):
            hs = []
            args = w.arguments(I, c)
            vals = [w.ld(I, a) for a in args]
            for p in precondition(w, k, vals):
                I.assume(p)
            for a in range(2):
                def one():
                    o = I.construct_record(rec, c, [I.alloc(v) for v in vals], ())
                    return o.fields['hash_']
                rs = [(v, st) for how, v, st in I.explore(one) if how == 'ok']
                hs.append([(v, z3.And(list(st[1][len(I.pc):]) or [z3.BoolVal(True)]))
                           for v, st in rs])
            for h1, p1 in hs[0]:
                for h2, p2 in hs[1]:
                    I.oblige(z3.Implies(z3.And(p1, p2), h1 == h2),
                             'the hash is determined by the parts')
        return t
    for tab in (FCELLS, ECELLS):
        for cls, k in tab.items():
            rec = w.record(S_ + cls)
            for c in rec.get('inner', ()):
                if c['kind'] != 'CXXConstructorDecl' or c.get('isImplicit'):
                    continue
                ty = c['type']['qualType']
                n = sum(1 for x in c.get('inner', ()) if x['kind'] == 'ParmVarDecl')
                if cls + ' &' in ty or (k in ('And', 'Or') and n == 2):
                    continue
                d = w.find_ctor(rec, ty, n)
                if d is not None:
                    out.append(('%s hash %s' % (cls, ty.replace('dreal::drake::symbolic::', '')),
                                hashing(cls, k, rec, d)))

    # ---- the hash of a range folds the hashes of its entries
    def ranges(fn, elem):
        d = w.desc(elem)
        sort, enc, dec = w.elem_sort(d)
        Q = w.th.seq_of(sort)
        h = z3.Function('hseq_' + sort.name(), Q.sort, INT)
        g = z3.Function('hstep_' + sort.name(), INT, sort, INT)
        s_, x_ = z3.Const('hs', Q.sort), z3.Const('hx', sort)
        w.th.ax('hseq0', h(Q.empty) == 0)
        w.th.ax('hseq', w.th.forall([s_, x_], h(Q.snoc(s_, x_)) == g(h(s_), x_),
                                    [h(Q.snoc(s_, x_))]))

        def templates(I, node, entry, havoced, mods, iters, accs, pterm, term):
            out = []
            for loc, path in accs:
                t0 = term(snap_get(entry, loc, path))
                if t0 is None or t0.sort() != INT:
                    continue
                for it in iters:
                    def c(sn, loc=loc, path=path, it=it):
                        P = pterm(sn, it)
                        return None if P is None or P.sort() != Q.sort else \
                            term(snap_get(sn, loc, path)) == h(P)
                    out.append(Cand('the hash of what is done', c))
            return out
        w.extra_candidates.append(templates)

        def step(I, this, args, n):
            seed, x = w.ld(I, args[0]), w.ld(I, args[1])
            if len(args) != 2:
                raise Unsupported('hash_combine/%d' % len(args))
            x = enc(x) if enc and not z3.is_expr(x) else x
            if x.sort() != sort:
                raise Unsupported('hash_combine')
            return g(seed, x)

        def t(I):
            q = I.fresh(Q.sort, 'range')
            c = I.alloc(Cont(Q, q))
            C = w.contracts
            C['dreal::drake::hash_combine'] = step
            try:
                r = w.ld(I, I.inline(fn, None, [I.alloc(I.begin(c)), I.alloc(I.end(c))], None))
            finally:
                del C['dreal::drake::hash_combine']
            I.oblige(r == h(q), 'the hash of a range folds the hashes of its entries')
        return t

    def combine(fn, ps):
        def t(I):
            vals = [w.fresh_of(I, w.desc(qt(p)), 'x') for p in ps]
            h = [w.ld(I, I.inline(fn, None, [I.alloc(v) for v in vals], None)) for _ in range(2)]
            I.oblige(h[0] == h[1], 'hashing is a function of its arguments')
        return t
    seen = set()
    for fn in prog.find('dreal::drake::hash_range'):
        ps = I_params(fn)
        m = re.match(r'.*iterator<(.*)>$', ps[0]['type'].get('desugaredQualType') or qt(ps[0])) \
            if ps else None
        if not m or m.group(1) in seen:
            continue
        seen.add(m.group(1))
        try:
            out.append(('hash_range over ' + m.group(1).replace('dreal::drake::symbolic::', ''),
                        ranges(fn, m.group(1))))
        except Unsupported:
            pass
    for fn in prog.find('dreal::drake::hash_combine'):
        ps = I_params(fn)
        ty = fn['type']['qualType'].replace('dreal::drake::symbolic::', '')
        if len(ps) >= 2 and 'Rest' not in ty and ' T' not in ty and ty not in seen:
            seen.add(ty)
            out.append(('hash_combine ' + ty, combine(fn, ps)))

    # ---- variables
    def var_eq(I):
        fn, = prog.find(S_ + 'Variable::equal_to')
        a, b = I.fresh(w.V, 'a'), I.fresh(w.V, 'b')
        r = run(I, fn, I.alloc(a), I.alloc(b))
        I.oblige(r == (w.vid(a) == w.vid(b)), 'variables are equal if their identifiers are')

    def var_lt(I):
        fn, = prog.find(S_ + 'Variable::less')
        vs = [I.fresh(w.V, x) for x in 'abc']
        f = lambda i, j: run(I, fn, I.alloc(vs[i]), I.alloc(vs[j]))
        strict(I, vs[0] == vs[1], f(0, 1), f(1, 0), f(1, 2), f(0, 2), f(0, 0), 'order')

    def var_hash(I):
        fn, = prog.find(S_ + 'Variable::get_hash')
        a = I.fresh(w.V, 'a')
        b = I.fresh(w.V, 'b')
        I.assume(w.vid(a) == w.vid(b))
        hs = [w.ld(I, I.inline(fn, I.alloc(x), [], None)) for x in (a, b)]
        I.oblige(hs[0] == hs[1], 'equal variables have equal hashes')
    out += [('Variable::equal_to', var_eq), ('Variable::less', var_lt),
            ('Variable::get_hash', var_hash)]
    return out


class _Sets:
    """Sets of variables."""
    SOURCES = [SYM + 'symbolic_variables.cc']

    @staticmethod
    def world(prog):
        from .p18 import VarWorld

        class W(VarWorld):
            def std_value_function(self, I, name, v, a, argn, n):
                if name == 'lexicographical_compare' and len(v) == 5 and \
                        isinstance(v[4], Obj) and v[4].cls == 'less':
                    x, y = self.whole(I, v[0], v[1]), self.whole(I, v[2], v[3])
                    return self.rankS(x) < self.rankS(y)
                return super().std_value_function(I, name, v, a, argn, n)
        w = W(prog)
        S = w.SV.sort
        w.rankS = z3.Function('rankS', S, R)
        u = z3.Function('unrankS', R, S)
        x, y = z3.Consts('x y', S)
        w.th.ax('rankS', w.th.forall([x], u(w.rankS(x)) == x, [w.rankS(x)]))
        C = w.contracts
        C['dreal::drake::hash_range'] = lambda I, t, a, n: z3.Function('hashS', S, INT)(
            w.whole(I, w.ld(I, a[0]), w.ld(I, a[1])))
        return w

    @staticmethod
    def tasks(prog, w):
        from .p18 import VS
        out = []

        def sets(I):
            ts = [I.fresh(w.SV.sort, x) for x in 'abc']
            return ts, [I.alloc(Obj(VS, {'vars_': Cont(w.SV, t, False)})) for t in ts]

        def op(nm):
            fs = [f for f in prog.find(S_ + 'operator' + nm) if
                  norm_type(qt([c for c in f['inner'] if c['kind'] == 'ParmVarDecl'][0]))[0] == 'Variables']
            if len(fs) != 1:
                raise Unsupported('operator' + nm + ' of Variables')
            return fs[0]

        def lt(I):
            ts, rs = sets(I)
            fn = op('<')
            f = lambda i, j: merged(I, lambda: I.as_bool(w.ld(I, I.inline(
                fn, None, [rs[i], rs[j]], None))))
            strict(I, ts[0] == ts[1], f(0, 1), f(1, 0), f(1, 2), f(0, 2), f(0, 0), 'order')

        def hs(I):
            ts, rs = sets(I)
            fn, = prog.find(S_ + 'Variables::get_hash')
            I.assume(ts[0] == ts[1])
            h = [w.ld(I, I.inline(fn, r, [], None)) for r in rs[:2]]
            I.oblige(h[0] == h[1], 'equal sets have equal hashes')
        out += [('Variables operator<', lt), ('Variables::get_hash', hs)]
        return out


class _Main:
    SOURCES, world, tasks = SOURCES, staticmethod(world), staticmethod(tasks)


GROUPS = [_Main, _Sets]
