"""P26: a box keeps one interval for each of its variables."""
import z3

from ..box_world import BOX_ASSUMPTIONS, BOX_TRUSTED, BoxWorld
from ..interp import Cont, Obj, Ref
from ..theory import B, I as INT, R
from ..world import Cand, snap_get

SOURCES = ['dreal/util/box.cc']
EXTRA = 'ibex'
TRUSTED = BOX_TRUSTED + ['shared_ptr::unique tells whether another handle exists (one thread)']
ASSUMPTIONS = BOX_ASSUMPTIONS + [
    'a variable is added to a box at most once, and not to a box without variables that has '
    'been emptied; a box is made of at least one variable',
    'lookups of variables that the box has and of positions within its size']
ADD = 'dreal::Box::Add'


def world(prog):
    w = BoxWorld(prog)
    C = w.contracts

    def add(I, this, args, n):
        """The contract of Add(Variable) on a box whose data nobody shares."""
        v = w.lv(I, args[0])
        old = w.parts(I, this)
        I.oblige(z3.Not(w.V2I.has(old[2], v)), 'the variable is not in the box')
        for nm, x in zip(NAMES[1:], w.inv(*old)[1:]):
            I.oblige(x, 'before Add: ' + nm)
        fresh = w.parts(I, w.mkbox(I, 'box'))
        I.oblige(spare(w, old), 'before Add: spare components are unbounded')
        for nm, x in added(w, v, old, fresh):
            I.assume(x)
        f = I.load(this).fields
        for k, x in zip(('variables_', 'var_to_idx_', 'idx_to_var_'),
                        (fresh[0], fresh[2], fresh[3])):
            c = f[k].fields['ptr']
            I.store(c, Cont(I.load(c).ops, x, I.load(c).unordered))
        I.store(Ref(this.loc, this.path + ('values_',)), Cont(w.IV, fresh[1]))
        return None
    w.add, w.given = add, None

    def loop(I, node, entry, havoced, mods, iters, accs, pterm, term):
        if w.given is None:
            return []
        vs, box = w.given, w.built
        j, v = z3.Int('j'), z3.Const('v', w.V)

        def state(s):
            f = snap_get(s, box.loc, ()).fields
            g = lambda k: snap_get(s, f[k].fields['ptr'].loc, ()).term
            return g('variables_'), f['values_'].term, g('var_to_idx_'), g('idx_to_var_')
        out = []
        for k, nm in enumerate(NAMES[1:]):
            out.append(Cand(nm, lambda s, k=k: w.inv(*state(s))[k + 1]))
        out.append(Cand('the size of the vector', lambda s: z3.Implies(
            w.VS.len(state(s)[0]) > 0, w.IV.len(state(s)[1]) == w.VS.len(state(s)[0]))))
        out.append(Cand('the variables are a prefix of those given', lambda s: z3.ForAll(
            [j], z3.Implies(z3.And(0 <= j, j < w.VS.len(state(s)[0])),
                            w.VS.nth(state(s)[0], j) == w.VS.nth(vs, j)),
            patterns=[w.VS.nth(state(s)[0], j)])))
        out.append(Cand('spare components are unbounded', lambda s: spare(w, state(s))))
        out.append(Cand('domains', lambda s: z3.ForAll(
            [j], z3.Implies(z3.And(0 <= j, j < w.VS.len(state(s)[0])),
                            domain(w, w.VS.nth(vs, j), w.IV.nth(state(s)[1], j))),
            patterns=[w.IV.nth(state(s)[1], j)])))
        for it in iters:
            def count(s, it=it):
                x = snap_get(s, *it)
                return w.VS.len(vs) if x.p is None else x.p
            out.append(Cand('as many variables as steps', lambda s, count=count: w.VS.len(
                state(s)[0]) == count(s)))
        return out
    w.extra_candidates.append(loop)
    return w


def spare(w, p):
    j = z3.Int('j')
    return z3.ForAll([j], z3.Implies(z3.And(w.VS.len(p[0]) <= j, j < w.IV.len(p[1])),
                                     w.IV.nth(p[1], j) == w.whole), patterns=[w.IV.nth(p[1], j)])


def domain(w, v, x):
    t = w.vtype(v)
    k = 2 ** 31 - 1
    return z3.And(
        z3.Not(w.emp(x)),
        z3.Implies(z3.Or(t == w.VT['BOOLEAN'], t == w.VT['BINARY']),
                   z3.And(w.lb(x) == 0, w.ub(x) == 1)),
        z3.Implies(t == w.VT['INTEGER'], z3.And(w.lb(x) == -k, w.ub(x) == k)),
        z3.Implies(t == w.VT['CONTINUOUS'], z3.And(w.lb(x) == -w.inf, w.ub(x) == w.inf)))


def added(w, v, old, new):
    n = w.VS.len(old[0])
    j, u = z3.Int('j'), z3.Const('u', w.V)
    return [('the box has one variable more', w.VS.len(new[0]) == n + 1),
            ('the new variable is the last one', w.VS.nth(new[0], n) == v),
            ('the other variables keep their positions', z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < n), w.VS.nth(new[0], j) == w.VS.nth(old[0], j)),
                patterns=[w.VS.nth(new[0], j)])),
            ('exactly the variables of before and the new one are in the box', z3.ForAll(
                [u], w.V2I.has(new[2], u) == z3.Or(u == v, w.V2I.has(old[2], u)),
                patterns=[w.V2I.has(new[2], u), w.V2I.has(old[2], u)])),
            ('the other intervals stay the same', z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < n), w.IV.nth(new[1], j) == w.IV.nth(old[1], j)),
                patterns=[w.IV.nth(new[1], j)])),
            ('the new variable has the domain of its type', domain(w, v, w.IV.nth(new[1], n)))]


NAMES = ['as many intervals as variables', 'the index of a position is its variable, and back',
         'the index of a variable is its position', 'only positions of variables are indexed']


def tasks(prog, w):
    o = w.IV

    def find(q, *frag):
        fs = [f for f in prog.find(q) if all(
            x in f['type']['qualType'] for x in frag)]
        return fs[0]

    def valid(I, b):
        for nm, x in zip(NAMES, w.inv(*w.parts(I, b))):
            I.oblige(x, nm)

    def same(I, b, old, nm):
        I.oblige(z3.And(*[x == y for x, y in zip(old, w.parts(I, b))]), nm)

    def sharing(I, b):
        """Another box that shares everything with b."""
        f = I.load(b).fields
        g = {k: v if isinstance(v, Cont) else Obj('sptr', {'ptr': v.fields['ptr']})
             for k, v in f.items()}
        I.ghost['shared'] = tuple(v.fields['ptr'].loc for v in f.values() if isinstance(v, Obj))
        return I.alloc(Obj('dreal::Box', g))

    def add(bounds):
        def t(I):
            b = w.mkbox(I, 'box')
            old = w.parts(I, b)
            v = I.fresh(w.V, 'v')
            I.assume(z3.Not(w.V2I.has(old[2], v)))
            I.assume(spare(w, old))
            other = sharing(I, b) if I.branch(I.fresh(B, 'the data are shared')) else None
            args = [I.alloc(v)]
            if bounds:
                lo, hi = I.fresh(R, 'lb'), I.fresh(R, 'ub')
                I.assume(z3.And(lo <= hi, lo < w.inf, hi > -w.inf, -w.inf <= lo, hi <= w.inf))
                args += [I.alloc(lo), I.alloc(hi)]
            fn = [f for f in prog.find(ADD) if f['type']['qualType'].count(',') == (
                2 if bounds else 0)][0]
            I.inline(fn, b, args, None)
            new = w.parts(I, b)
            for nm, x in added(w, v, old, new):
                if bounds and 'domain' in nm:
                    y = o.nth(new[1], w.VS.len(old[0]))
                    nm, x = 'the new variable has the given bounds', z3.And(
                        z3.Not(w.emp(y)), w.lb(y) == lo, w.ub(y) == hi)
                I.oblige(x, nm)
            valid(I, b)
            if other is not None:
                same(I, other, old, 'a box that shared its data is unchanged')
        return t

    def make(I, frag, args):
        rec = prog.records['dreal::Box'][0]
        cs = [c['type']['qualType'] for r in prog.records['dreal::Box'] for c in r.get('inner', ())
              if c['kind'] == 'CXXConstructorDecl' and frag(c['type']['qualType'])]
        c = w.find_ctor(rec, cs[0], len(args))
        w.built = I.alloc(Obj('dreal::Box', {}))
        I.run_ctor(rec, c, w.built, args)
        return w.built

    def default(I):
        b = make(I, lambda t: t.startswith('void ()'), [])
        I.oblige(w.VS.len(w.parts(I, b)[0]) == 0, 'no variable')
        valid(I, b)

    def from_variables(I):
        n = I.fresh(w.VS.sort, 'variables')
        j, k = z3.Ints('j k')
        I.assume(w.VS.len(n) >= 1)
        I.assume(w.VS.len(n) < 2 ** 31)
        I.assume(z3.ForAll([j, k], z3.Implies(z3.And(
            0 <= j, j < k, k < w.VS.len(n)), w.VS.nth(n, j) != w.VS.nth(n, k)),
            patterns=[z3.MultiPattern(w.VS.nth(n, j), w.VS.nth(n, k))]))
        w.given = n
        w.contracts[ADD] = w.add
        try:
            b = make(I, lambda t: 'vector' in t, [I.alloc(Cont(w.VS, n))])
        finally:
            del w.contracts[ADD]
            w.given = None
        p = w.parts(I, b)
        I.oblige(w.VS.len(p[0]) == w.VS.len(n), 'as many variables as given')
        I.oblige(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < w.VS.len(n)),
                                           w.VS.nth(p[0], j) == w.VS.nth(n, j)),
                           patterns=[w.VS.nth(p[0], j)]), 'the variables in their order')
        I.oblige(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < w.VS.len(n)),
                                           domain(w, w.VS.nth(n, j), o.nth(p[1], j))),
                           patterns=[o.nth(p[1], j)]), 'every variable has the domain of its type')
        valid(I, b)

    def lookups(I):
        b = w.mkbox(I, 'box')
        old = w.parts(I, b)
        vs, vals, v2i, i2v = old
        i = I.fresh(INT, 'i')
        I.assume(z3.And(0 <= i, i < w.VS.len(vs)))
        v = w.VS.nth(vs, i)
        I.assume(z3.And(w.V2I.has(v2i, v), w.I2V.has(i2v, i)))
        call = lambda f, *a: I.inline(f, b, [I.alloc(x) for x in a], None)
        val = lambda r: I.load(r) if isinstance(r, Ref) else I.load(I.alloc(r))
        I.oblige(val(call(find('dreal::Box::size'))) == w.VS.len(vs), 'size')
        I.oblige(val(call(find('dreal::Box::variable'), i)) == v, 'variable')
        I.oblige(val(call(find('dreal::Box::index'), v)) == i, 'index')
        u = I.fresh(w.V, 'u')
        I.oblige(val(call(find('dreal::Box::has_variable'), u)) == w.V2I.has(v2i, u),
                 'has_variable')
        I.oblige(val(call(find('dreal::Box::variables'))).term == vs, 'variables')
        for q in ('interval_vector', 'mutable_interval_vector'):
            I.oblige(val(call(find('dreal::Box::' + q))).term == vals, q)
        I.oblige(val(call(find('dreal::Box::empty'))) == w.emp(o.nth(vals, 0)), 'empty')
        for f in prog.find('dreal::Box::operator[]'):
            t = f['type']['qualType']
            r = call(f, v if 'Variable' in t else i)
            I.oblige(val(r) == o.nth(vals, i), 'operator[] reads the interval of the variable')
        same(I, b, old, 'the box is unchanged')

    def writes(I):
        for f in prog.find('dreal::Box::operator[]'):
            t = f['type']['qualType']
            if t.endswith('const'):
                continue
            b = w.mkbox(I, 'box')
            vs, vals, v2i, i2v = old = w.parts(I, b)
            i = I.fresh(INT, 'i')
            I.assume(z3.And(0 <= i, i < w.VS.len(vs)))
            v = w.VS.nth(vs, i)
            I.assume(z3.And(w.V2I.has(v2i, v), w.I2V.has(i2v, i)))
            I.ghost['shared'] = ()
            other = sharing(I, b)
            r = I.inline(f, b, [I.alloc(v if 'Variable' in t else i)], None)
            x = I.fresh(w.Iv, 'x')
            I.store(r, x)
            new = w.parts(I, b)
            j = z3.Int('j')
            I.oblige(o.nth(new[1], i) == x, 'the interval of the variable is written')
            I.oblige(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < o.len(vals), j != i),
                                               o.nth(new[1], j) == o.nth(vals, j)),
                               patterns=[o.nth(new[1], j)]), 'no other interval is written')
            valid(I, b)
            same(I, other, old, 'a box that shared its data is unchanged')

    def set_empty(I):
        b = w.mkbox(I, 'box')
        old = w.parts(I, b)
        I.inline(find('dreal::Box::set_empty'), b, [], None)
        new = w.parts(I, b)
        j = z3.Int('j')
        I.oblige(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < o.len(old[1])),
                                           w.emp(o.nth(new[1], j))), patterns=[o.nth(new[1], j)]),
                 'every interval is empty')
        I.oblige(z3.And(new[0] == old[0], new[2] == old[2], new[3] == old[3]),
                 'the variables stay the same')
        e = I.inline(find('dreal::Box::empty'), b, [], None)
        I.oblige(I.load(I.alloc(e)), 'the box is empty')
        valid(I, b)

    def union(I):
        a, b = w.mkbox(I, 'a'), w.mkbox(I, 'b')
        f = I.load(b).fields
        old, x = w.parts(I, a), w.parts(I, b)
        I.assume(x[0] == old[0])
        # an empty box has only empty intervals
        j = z3.Int('j')
        for p in (old, x):
            I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < o.len(p[1])), w.emp(
                o.nth(p[1], j)) == w.emp(o.nth(p[1], 0))), patterns=[o.nth(p[1], j)]))
        I.inline(find('dreal::Box::InplaceUnion'), a, [b], None)
        new = w.parts(I, a)
        y = I.fresh(R, 'y')
        i = I.fresh(INT, 'i')
        I.assume(z3.And(0 <= i, i < w.VS.len(old[0])))
        r = o.nth(new[1], i)
        I.oblige(z3.Implies(w.mem(y, o.nth(old[1], i)), w.mem(y, r)),
                 'every point of the first box is in the union')
        I.oblige(z3.Implies(w.mem(y, o.nth(x[1], i)), w.mem(y, r)),
                 'every point of the second box is in the union')
        lo = z3.And(w.lb(r) == w.lb(o.nth(old[1], i)))
        I.oblige(z3.Or(w.emp(r), z3.Or(
            z3.And(z3.Not(w.emp(o.nth(old[1], i))), w.lb(r) == w.lb(o.nth(old[1], i))),
            z3.And(z3.Not(w.emp(o.nth(x[1], i))), w.lb(r) == w.lb(o.nth(x[1], i))))),
            'the union starts where one of the boxes does')
        I.oblige(z3.Or(w.emp(r), z3.Or(
            z3.And(z3.Not(w.emp(o.nth(old[1], i))), w.ub(r) == w.ub(o.nth(old[1], i))),
            z3.And(z3.Not(w.emp(o.nth(x[1], i))), w.ub(r) == w.ub(o.nth(x[1], i))))),
            'the union ends where one of the boxes does')
        I.oblige(z3.And(new[0] == old[0], new[2] == old[2], new[3] == old[3]),
                 'the variables stay the same')
        valid(I, a)
        same(I, b, x, 'the other box is unchanged')
    return [('Box::Box()', default), ('Box::Box(vector)', from_variables),
            ('Box::Add(Variable)', add(False)), ('Box::Add(Variable, double, double)', add(True)),
            ('lookups', lookups), ('operator[] as an lvalue', writes),
            ('Box::set_empty', set_empty), ('Box::InplaceUnion', union)]
