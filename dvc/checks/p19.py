"""P19: scoped containers.

undo(m, A, n): what m becomes when the recorded actions A are undone, latest
first, down to the first n.  wf(m, A): every recorded action can be undone.
The state saved by the push that put the value p on stack_ is undo(map_,
actions_, p); every operation keeps it for all scopes, pop returns to it.
"""
import os

import z3

from ..interp import Obj, Cont, Ref, CppThrow
from ..templates import counting
from ..theory import B, I as INT
from ..world import World, Cand, snap_get

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOURCES = [HERE + '/tu/scoped.cc']
TRUSTED = ['the templates are proved for key and element types about which nothing is known but '
           'that copies are equal and that == and the hash agree']


def world(prog):
    w = World(prog)
    w.K, w.T = w.th.sort('VKey'), w.th.sort('VElem')
    w.scalar_types.update({'VKey': w.K, 'VElem': w.T})
    counting(w)
    w.MAP = w.ops(('map', ('z', w.K), ('z', w.T), True))
    w.SET = w.ops(('set', ('z', w.K), True))
    w.VEC = w.ops(('seq', ('z', w.T)))
    w.IDX = w.ops(('seq', ('z', INT)))
    en = lambda c, k: [v for q, v in prog.enums.items() if q.endswith(c + '::ActionKind::' + k)][0]
    w.MINS, w.MUPD = en('ScopedUnorderedMap', 'INSERT'), en('ScopedUnorderedMap', 'UPDATE')
    w.SINS = en('ScopedUnorderedSet', 'INSERT')
    w.defs = {}

    def definitions(tag, o, act, has, undo1):
        """undo and wf for one container."""
        d = ('seq', ('tuple', act))
        A = w.ops(d)
        S = o.sort
        undo = z3.Function('undo_' + tag, S, A.sort, INT, S)
        wf = z3.Function('wf_' + tag, S, A.sort, B)
        m = z3.Const('m', S)
        a = z3.Const('a', A.sort)
        x = z3.Const('x', A.T)
        n = z3.Int('n')
        th = w.th
        th.ax('undo0', th.forall([m, a, n], z3.Implies(n >= A.len(a), undo(m, a, n) == m),
                                 [undo(m, a, n)]))
        th.ax('undo1', th.forall([m, a, x, n], z3.Implies(
            n <= A.len(a), undo(m, A.snoc(a, x), n) == undo(undo1(m, x, A), a, n)),
            [undo(m, A.snoc(a, x), n)]))
        th.ax('undo1t', th.forall([m, a, n], z3.Implies(
            z3.And(n < A.len(a)), undo(m, a, n) == undo(
                undo1(m, A.nth(a, A.len(a) - 1), A), A.take(a, A.len(a) - 1), n)),
            [(undo(m, a, n), A.take(a, A.len(a) - 1))]))
        th.ax('wf0', th.forall([m], wf(m, A.empty), [wf(m, A.empty)]))
        th.ax('wf1', th.forall([m, a, x], wf(m, A.snoc(a, x)) == z3.And(
            has(m, x, A), wf(undo1(m, x, A), a)), [wf(m, A.snoc(a, x))]))
        th.ax('wf1t', th.forall([m, a], z3.Implies(A.len(a) > 0, wf(m, a) == z3.And(
            has(m, A.nth(a, A.len(a) - 1), A),
            wf(undo1(m, A.nth(a, A.len(a) - 1), A), A.take(a, A.len(a) - 1)))),
            [wf(m, a)]))
        w.defs[tag] = (A, undo, wf)

    TM = w.tuple_sort([INT, w.K, w.T])
    TS = w.tuple_sort([INT, w.K])
    M, S = w.MAP, w.SET
    okm = lambda x: z3.Or(TM.get[0](x) == w.MINS, TM.get[0](x) == w.MUPD)
    definitions('map', M, (('z', INT), ('z', w.K), ('z', w.T)),
                lambda m, x, A: z3.And(M.has(m, TM.get[1](x)), okm(x)),
                lambda m, x, A: z3.If(TM.get[0](x) == w.MINS, M.dele(m, TM.get[1](x)),
                                      M.put(m, TM.get[1](x), TM.get[2](x))))
    definitions('set', S, (('z', INT), ('z', w.K)),
                lambda m, x, A: z3.And(S.mem(TS.get[1](x), m), TS.get[0](x) == w.SINS),
                lambda m, x, A: S.dele(m, TS.get[1](x)))

    def undoing(I, node, entry, havoced, mods, iters, accs, pterm, term):
        """undo(m, actions, j) and wf stay as they were."""
        out = []
        j = z3.Int('j')
        for tag, (A, undo, wf) in w.defs.items():
            o = w.MAP if tag == 'map' else w.SET
            ms = [(l, p) for l, p in accs if isinstance(snap_get(entry, l, p), Cont) and
                  snap_get(entry, l, p).ops is o]
            as_ = [(l, p) for l, p in accs if isinstance(snap_get(entry, l, p), Cont) and
                   snap_get(entry, l, p).ops is A]
            for lm, pm in ms:
                for la, pa in as_:
                    m0, a0 = term(snap_get(entry, lm, pm)), term(snap_get(entry, la, pa))

                    def u(s, lm=lm, pm=pm, la=la, pa=pa, m0=m0, a0=a0, undo=undo, A=A):
                        m, a = term(snap_get(s, lm, pm)), term(snap_get(s, la, pa))
                        return z3.ForAll([j], z3.Implies(
                            z3.And(0 <= j, j <= A.len(a)), undo(m, a, j) == undo(m0, a0, j)),
                            patterns=[undo(m, a, j), undo(m0, a0, j)])
                    out.append(Cand('undoing the rest gives the same state', u))
                    out.append(Cand('actions can be undone', lambda s, lm=lm, pm=pm, la=la, pa=pa,
                                    wf=wf: wf(term(snap_get(s, lm, pm)),
                                              term(snap_get(s, la, pa)))))
        return out
    w.extra_candidates.append(undoing)
    w.nonlinear = False
    return w


def tasks(prog, w):
    out = []
    L = w.IDX

    def sorted_stack(st, n):
        i = z3.Int('i')
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L.len(st)), z3.And(
            L.nth(st, i) >= 0, L.nth(st, i) <= n)), patterns=[L.nth(st, i)])

    def ordered(st):
        i = z3.Int('i')
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L.len(st)), L.nth(st, i) <= L.nth(
            st, L.len(st) - 1)), patterns=[L.nth(st, i)])

    # ---- vector
    def vec(I):
        v, st = I.fresh(w.VEC.sort, 'vector'), I.fresh(L.sort, 'scopes')
        I.assume(sorted_stack(st, w.VEC.len(v)))
        this = I.alloc(Obj('dreal::ScopedVector', {
            'vector_': Cont(w.VEC, v), 'scopes_': Cont(L, st)}))
        return this, v, st

    def fields(I, this):
        f = I.load(this).fields
        return {k: x.term for k, x in f.items()}

    def call(I, q, this, args, sig=None):
        try:
            return I.inline(prog.find(q, sig)[0], this, args, None), False
        except CppThrow:
            return None, True
    VQ = 'dreal::ScopedVector::'

    def v_push_back(sig):
        def run(I):
            this, v, st = vec(I)
            x = I.fresh(w.T, 'x')
            call(I, VQ + 'push_back', this, [I.alloc(x)], sig)
            f = fields(I, this)
            I.oblige(f['vector_'] == w.VEC.snoc(v, x), 'the element is appended')
            I.oblige(f['scopes_'] == st, 'no scope changes')
            saved_prefixes(I, f, v, st, L.len(st))
        return run

    def saved_prefixes(I, f, v, st, n):
        """The contents saved by each remaining push are the same prefix."""
        i = z3.Int('i')
        VO = w.VEC
        I.oblige(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), VO.take(
            f['vector_'], L.nth(st, i)) == VO.take(v, L.nth(st, i))),
            patterns=[L.nth(st, i)]), 'contents at every enclosing push are kept')
        I.oblige(sorted_stack(f['scopes_'], VO.len(f['vector_'])), 'scopes stay within the contents')

    def v_push(I):
        this, v, st = vec(I)
        call(I, VQ + 'push', this, [])
        f = fields(I, this)
        I.oblige(f['vector_'] == v, 'push changes no contents')
        I.oblige(f['scopes_'] == L.snoc(st, w.VEC.len(v)), 'push records the current contents')
        saved_prefixes(I, f, v, st, L.len(st))

    def v_pop(I):
        this, v, st = vec(I)
        r, thrown = call(I, VQ + 'pop', this, [])
        f = fields(I, this)
        if thrown:
            I.oblige(L.len(st) == 0, 'pop fails only without a matching push')
            I.oblige(z3.And(f['vector_'] == v, f['scopes_'] == st), 'a failed pop changes nothing')
            return
        I.oblige(L.len(st) > 0, 'pop without a matching push reports an error')
        top = L.nth(st, L.len(st) - 1)
        I.assume(ordered(st))
        I.oblige(f['vector_'] == w.VEC.take(v, top), 'contents are those at the matching push')
        I.oblige(f['scopes_'] == L.take(st, L.len(st) - 1), 'exactly the last scope is removed')
        I.oblige(w.ld(I, r) == w.VEC.len(v) - top, 'pop returns the number of removed elements')
        saved_prefixes(I, f, v, st, L.len(st) - 1)

    def v_read(I):
        this, v, st = vec(I)
        VO = w.VEC
        g = lambda nm, args=(), sig=None: w.ld(I, call(I, VQ + nm, this, list(args), sig)[0])
        I.oblige(g('size') == VO.len(v), 'size')
        I.oblige(g('empty') == (VO.len(v) == 0), 'empty')
        for fn in prog.find(VQ + 'get_vector'):
            I.oblige(w.ld(I, I.inline(fn, this, [], None)).term == v, 'get_vector')
        n = I.fresh(INT, 'n')
        I.assume(z3.And(0 <= n, n < VO.len(v)))
        for nm, args, at in (('operator[]', [n], n), ('first', [], z3.IntVal(0)),
                             ('last', [], VO.len(v) - 1)):
            for fn in prog.find(VQ + nm):
                r = w.ld(I, I.inline(fn, this, [I.alloc(a) for a in args], None))
                I.oblige(r == VO.nth(v, at), nm)
        f = fields(I, this)
        I.oblige(z3.And(f['vector_'] == v, f['scopes_'] == st), 'reading changes nothing')
    for s, nm in ((r'const_?.* &\)|value_type const &|const (dreal::)?VElem &', 'const &'), (r'&&', '&&')):
        out.append(('ScopedVector::push_back(%s)' % nm, v_push_back(s)))
    out += [('ScopedVector::push', v_push), ('ScopedVector::pop', v_pop),
            ('ScopedVector::size, empty, get_vector, operator[], first, last', v_read)]

    # ---- map and set
    def container(tag):
        A, undo, wf = w.defs[tag]
        O = w.MAP if tag == 'map' else w.SET
        cls = 'ScopedUnordered' + tag.capitalize()
        Q = 'dreal::%s::' % cls
        fld = tag + '_'

        def mk(I):
            m, a, st = (I.fresh(s, n) for s, n in ((O.sort, 'contents'), (A.sort, 'actions'),
                                                   (L.sort, 'stack')))
            I.assume(wf(m, a))
            I.assume(sorted_stack(st, A.len(a)))
            I.assume(ordered(st))
            return I.alloc(Obj('dreal::' + cls, {'actions_': Cont(A, a), 'stack_': Cont(L, st),
                                                 fld: Cont(O, m, True)})), m, a, st

        def keeps(I, f, m, a, st, n):
            i = z3.Int('i')
            I.oblige(wf(f[fld], f['actions_']), 'recorded actions can be undone')
            I.oblige(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), undo(
                f[fld], f['actions_'], L.nth(st, i)) == undo(m, a, L.nth(st, i))),
                patterns=[L.nth(st, i)]), 'contents at every enclosing push are kept')
            I.oblige(sorted_stack(f['stack_'], A.len(f['actions_'])), 'scopes within the actions')

        def insert(I):
            this, m, a, st = mk(I)
            k = I.fresh(w.K, 'k')
            args = [I.alloc(k)]
            if tag == 'map':
                v = I.fresh(w.T, 'v')
                args.append(I.alloc(v))
            call(I, Q + 'insert', this, args)
            f = fields(I, this)
            new = O.put(m, k, v) if tag == 'map' else O.ins(m, k)
            I.oblige(f[fld] == new, 'insert is the insertion into an ordinary container')
            I.oblige(f['stack_'] == st, 'no scope changes')
            keeps(I, f, m, a, st, L.len(st))

        def push(I):
            this, m, a, st = mk(I)
            call(I, Q + 'push', this, [])
            f = fields(I, this)
            I.oblige(f[fld] == m, 'push changes no contents')
            I.oblige(f['stack_'] == L.snoc(st, A.len(f['actions_'])),
                     'push records the current contents')
            keeps(I, f, m, a, st, L.len(st))
            I.oblige(ordered(f['stack_']), 'scopes are ordered')

        def pop(I):
            this, m, a, st = mk(I)
            r, thrown = call(I, Q + 'pop', this, [])
            f = fields(I, this)
            if thrown:
                I.oblige(L.len(st) == 0, 'pop fails only without a matching push')
                I.oblige(z3.And(f[fld] == m, f['stack_'] == st, f['actions_'] == a),
                         'a failed pop changes nothing')
                return
            I.oblige(L.len(st) > 0, 'pop without a matching push reports an error')
            top = L.nth(st, L.len(st) - 1)
            I.oblige(f[fld] == undo(m, a, top), 'contents are those at the matching push')
            I.oblige(f['actions_'] == A.take(a, top), 'exactly the actions since the push go')
            I.oblige(f['stack_'] == L.take(st, L.len(st) - 1), 'exactly the last scope is removed')
            keeps(I, f, m, a, st, L.len(st) - 1)

        def read(I):
            this, m, a, st = mk(I)
            g = lambda nm, *x: w.ld(I, I.inline(prog.find(Q + nm)[0], this,
                                                [I.alloc(y) for y in x], None))
            k = I.fresh(w.K, 'k')
            I.oblige(g('size') == O.card(m), 'size')
            I.oblige(g('empty') == (O.card(m) == 0), 'empty')
            h = O.has(m, k) if tag == 'map' else O.mem(k, m)
            I.oblige(g('count', k) == z3.If(h, z3.IntVal(1), z3.IntVal(0)), 'count')
            if tag == 'map':
                r, thrown = call(I, Q + 'operator[]', this, [I.alloc(k)])
                if thrown:
                    I.oblige(z3.Not(h), 'operator[] fails only for a missing key')
                else:
                    I.oblige(z3.And(h, w.ld(I, r) == O.get(m, k)), 'operator[]')
            it = g('find', k)
            rr = I.alloc(it)
            if I.at_end(rr):
                I.oblige(z3.Not(h), 'find')
            else:
                I.oblige(z3.And(h, I.load(rr).cur == k), 'find')
            f = fields(I, this)
            I.oblige(z3.And(f[fld] == m, f['actions_'] == a, f['stack_'] == st),
                     'reading changes nothing')

        def clear(I):
            this, m, a, st = mk(I)
            call(I, Q + 'clear', this, [])
            f = fields(I, this)
            I.oblige(f[fld] == O.empty, 'clear empties the container')
            I.oblige(f['stack_'] == L.empty, 'clear forgets the scopes')
            keeps(I, f, m, a, st, z3.IntVal(0))
        return [(cls + '::' + n, b) for n, b in (
            ('insert', insert), ('push', push), ('pop', pop), ('clear', clear),
            ('size, empty, count, find' + (', operator[]' if tag == 'map' else ''), read))]
    return out + container('map') + container('set')
