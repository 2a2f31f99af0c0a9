"""dreal::Box as it is: shared vectors and maps, an ibex::IntervalVector."""
import z3

from .ibex_world import IbexMixin, NAN
from .interp import Cont, Obj, Ref, Unsupported, norm_type
from .symbolic_world import SymWorld
from .theory import B, I as INT, R
from .world import Cand, snap_get
from .templates import counting

NPOS = 2 ** 64 - 1
BOX_TRUSTED = ['contracts of ibex::Interval and ibex::IntervalVector (dvc/ibex_world.py, '
               'dvc/box_world.py; IBEX is not available here, its interface is declared in '
               'harness/ibex)']
BOX_ASSUMPTIONS = ['doubles are real numbers (and infinities)',
                   'DREAL_ASSERT conditions have no side effects (they are compiled out)']


class BoxWorld(IbexMixin, SymWorld):
    nonlinear = False
    ignored = ('dreal::unused',)

    def __init__(self, prog):
        super().__init__(prog)
        self.cont_types['IntervalVector'] = ('seq', ('z', self.Iv))
        self.VS = self.ops(('seq', ('z', self.V)))
        self.IV = self.ops(('seq', ('z', self.Iv)))
        self.V2I = self.ops(('map', ('z', self.V), ('z', INT), True))
        self.I2V = self.ops(('map', ('z', INT), ('z', self.V), True))
        self.Bits = self.th.sort('Bits')
        self.scalar_types['dynamic_bitset'] = self.Bits
        self.scalar_types['DynamicBitset'] = self.Bits
        self.test = z3.Function('test', self.Bits, INT, B)
        self.nbits = z3.Function('nbits', self.Bits, INT)
        self.nobits = z3.Function('nobits', INT, self.Bits)
        b, i, n = z3.Const('b', self.Bits), z3.Int('i'), z3.Int('n')
        self.th.ax('bits', self.th.forall([b, i], z3.Implies(self.test(b, i), z3.And(
            0 <= i, i < self.nbits(b))), [self.test(b, i)]))
        self.th.ax('bits0', self.th.forall([n, i], z3.And(
            z3.Not(self.test(self.nobits(n), i)), self.nbits(self.nobits(n)) == n),
            [self.test(self.nobits(n), i)]))
        self.th.ax('bits0n', self.th.forall([n], self.nbits(self.nobits(n)) == n,
                                            [self.nobits(n)]))
        self.whole = self.mkIv(-self.inf, self.inf)
        for m in ('none', 'any', 'find_first', 'find_next', 'size', 'test', 'operator[]', 'set',
                  'empty'):
            self.contracts['dreal::dynamic_bitset::' + m] = (
                lambda m: lambda I, this, args, n: self.bit_method(I, this, m, args))(m)
        self.extra_candidates.append(self.largest)
        counting(self)

    # ------------------------------------------------------------ boxes
    def mkbox(self, I, name, invariant=True):
        cell = lambda o, x: Obj('sptr', {'ptr': I.alloc(Cont(o, x, o.kind == 'map'))})
        f = {'variables_': cell(self.VS, I.fresh(self.VS.sort, name + '.vars')),
             'values_': Cont(self.IV, I.fresh(self.IV.sort, name + '.values')),
             'var_to_idx_': cell(self.V2I, I.fresh(self.V2I.sort, name + '.v2i')),
             'idx_to_var_': cell(self.I2V, I.fresh(self.I2V.sort, name + '.i2v'))}
        b = I.alloc(Obj('dreal::Box', f))
        if invariant:
            for x in self.inv(*self.parts(I, b)):
                I.assume(x)
        return b

    def parts(self, I, b):
        """(variables, intervals, variable to index, index to variable)"""
        f = (I.load(b) if isinstance(b, Ref) else b).fields
        g = lambda k: I.load(f[k].fields['ptr']).term
        return g('variables_'), f['values_'].term, g('var_to_idx_'), g('idx_to_var_')

    def inv(self, vs, vals, v2i, i2v):
        i, v = z3.Int('i'), z3.Const('v', self.V)
        n = self.VS.len(vs)
        x = self.VS.nth(vs, i)
        return [self.IV.len(vals) == z3.If(n == 0, z3.IntVal(1), n),
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
                    self.I2V.has(i2v, i), self.I2V.get(i2v, i) == x, self.V2I.has(v2i, x),
                    self.V2I.get(v2i, x) == i)), patterns=[x, self.I2V.get(i2v, i)]),
                z3.ForAll([v], z3.Implies(self.V2I.has(v2i, v), z3.And(
                    0 <= self.V2I.get(v2i, v), self.V2I.get(v2i, v) < n,
                    self.VS.nth(vs, self.V2I.get(v2i, v)) == v)),
                    patterns=[self.V2I.has(v2i, v), self.V2I.get(v2i, v)]),
                z3.ForAll([i], z3.Implies(self.I2V.has(i2v, i), z3.And(0 <= i, i < n)),
                          patterns=[self.I2V.has(i2v, i)])]

    def make_smart(self, I, n, t, args):
        if len(args) == 1:
            x = I.load(args[0]) if isinstance(args[0], Ref) else args[0]
            if not isinstance(x, Cont):
                raise Unsupported('make_shared')
            return Obj('sptr', {'ptr': I.alloc(x)})
        if args:
            raise Unsupported('make_shared')
        return Obj('sptr', {'ptr': I.alloc(self.default(I, t))})

    def map_default(self, I, o):
        if o.T == self.V:
            return I.fresh(self.V, 'dummy')
        return super().map_default(I, o)

    # ------------------------------------------------------------ vectors of intervals
    def fill_iv(self, I, n, x):
        s, i = I.fresh(self.IV.sort, 'ivec'), z3.Int('i')
        I.assume(self.IV.len(s) == n)
        I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), self.IV.nth(s, i) == x),
                           patterns=[self.IV.nth(s, i)]))
        return Cont(self.IV, s)

    def ctor_IntervalVector(self, I, n, t, args, ct):
        v = [self.rd(I, a) for a in args]
        if len(v) == 1 and isinstance(v[0], Cont):
            return v[0]
        if v and z3.is_expr(v[0]) and v[0].sort() == INT:
            I.oblige(v[0] >= 1, 'an interval vector has a positive size')
            return self.fill_iv(I, v[0], v[1] if len(v) > 1 else self.whole)
        raise Unsupported('IntervalVector constructor')

    def cont_method(self, I, obj, c, name, a, raw, n):
        if c.ops is self.IV:
            o, t = self.IV, c.term
            if name == 'is_empty':
                I.oblige(o.len(t) > 0, 'an interval vector has a component')
                return self.emp(o.nth(t, 0))
            if name == 'set_empty':
                I.store(obj, self.fill_iv(I, o.len(t), self.ivE))
                return None
            if name == 'resize':
                m = a[0]
                I.oblige(m >= 1, 'an interval vector has a positive size')
                s, i = I.fresh(o.sort, 'ivec'), z3.Int('i')
                I.assume(o.len(s) == m)
                I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), o.nth(s, i) == z3.If(
                    i < o.len(t), o.nth(t, i), self.whole)), patterns=[o.nth(s, i)]))
                I.store(obj, Cont(o, s))
                return None
        return super().cont_method(I, obj, c, name, a, raw, n)

    def std_value_function(self, I, name, v, a, argn, n):
        if v and isinstance(v[0], Cont) and v[0].ops is self.IV and len(v) > 1 and isinstance(
                v[1], Cont):
            o, s, t = self.IV, v[0].term, v[1].term
            if name in ('operator|=', 'operator|'):
                I.oblige(o.len(s) == o.len(t), 'vectors of the same size')
                I.oblige(o.len(s) > 0, 'an interval vector has a component')
                if I.branch(self.emp(o.nth(s, 0))):
                    r = v[1]
                elif I.branch(self.emp(o.nth(t, 0))):
                    r = v[0]
                else:
                    r = self.pointwise_join(I, s, t)
                if name == 'operator|':
                    return r
                I.store(a[0], r)
                return a[0]
            if name in ('operator==', 'operator!='):
                e = self.same_vectors(I, s, t)
                return e if name == 'operator==' else z3.Not(e)
        return super().std_value_function(I, name, v, a, argn, n)

    def hull_facts(self, x, y, r):
        e, g = self.emp(x), self.emp(y)
        lo = lambda p, q: z3.If(p < q, p, q)
        hi = lambda p, q: z3.If(p < q, q, p)
        return z3.And(z3.Implies(e, r == y), z3.Implies(z3.And(g, z3.Not(e)), r == x),
                      z3.Implies(z3.And(z3.Not(e), z3.Not(g)), z3.And(
                          z3.Not(self.emp(r)), self.lb(r) == lo(self.lb(x), self.lb(y)),
                          self.ub(r) == hi(self.ub(x), self.ub(y)))))

    def pointwise_join(self, I, s, t):
        o = self.IV
        r, i = I.fresh(o.sort, 'ivec'), z3.Int('i')
        I.assume(o.len(r) == o.len(s))
        I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o.len(s)), self.hull_facts(
            o.nth(s, i), o.nth(t, i), o.nth(r, i))), patterns=[o.nth(r, i)]))
        return Cont(o, r)

    def same_vectors(self, I, s, t):
        o, i = self.IV, z3.Int('i')
        e, f = self.emp(o.nth(s, 0)), self.emp(o.nth(t, 0))
        return z3.And(o.len(s) == o.len(t), z3.Or(z3.And(e, f), z3.And(
            z3.Not(e), z3.Not(f), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o.len(s)), self.same(
                o.nth(s, i), o.nth(t, i))), patterns=[o.nth(s, i), o.nth(t, i)]))))

    # ------------------------------------------------------------ bit sets
    def std_method_ext(self, I, obj, v, name, a, n):
        if isinstance(v, Obj) and 'ptr' in v.fields and name == 'unique':
            return self.unique(I, v)
        if isinstance(v, Obj) and 'ptr' in v.fields and name == 'use_count':
            return z3.If(self.unique(I, v), z3.IntVal(1), z3.IntVal(2))
        return super().std_method_ext(I, obj, v, name, a, n)

    def bit_method(self, I, obj, name, args):
        v = I.load(obj)
        a = [self.rd(I, x) for x in args]
        j = z3.Int('j')
        if name in ('none', 'any'):
            e = z3.ForAll([j], z3.Not(self.test(v, j)), patterns=[self.test(v, j)])
            return e if name == 'none' else z3.Not(e)
        if name in ('find_first', 'find_next'):
            r = I.fresh(INT, 'bit')
            lo = z3.IntVal(-1) if name == 'find_first' else a[0]
            I.assume(z3.And(r > lo, z3.Or(r == NPOS, z3.And(self.test(v, r), r < NPOS))))
            I.assume(z3.ForAll([j], z3.Implies(z3.And(lo < j, j < r), z3.Not(self.test(v, j))),
                               patterns=[self.test(v, j)]))
            I.assume(self.nbits(v) < NPOS)
            return r
        if name == 'size':
            return self.nbits(v)
        if name in ('test', 'operator[]'):
            return self.test(v, a[0])
        if name == 'empty':
            return self.nbits(v) == 0
        if name == 'set' and (len(a) == 1 or not z3.is_expr(a[1]) or z3.is_true(a[1])):
            I.oblige(z3.And(0 <= a[0], a[0] < self.nbits(v)), 'bit index in range')
            r = I.fresh(self.Bits, 'bits')
            I.assume(self.nbits(r) == self.nbits(v))
            I.assume(z3.ForAll([j], self.test(r, j) == z3.Or(j == a[0], self.test(v, j)),
                               patterns=[self.test(r, j)]))
            I.store(obj, r)
            return obj
        raise Unsupported('dynamic_bitset::%s' % name)

    def unique(self, I, v):
        """A pointer that the caller shares is not unique; others may be."""
        if v.fields['ptr'].loc in I.ghost.get('shared', ()):
            return z3.BoolVal(False)
        return I.fresh(B, 'unique')

    def ctor_dynamic_bitset(self, I, n, t, args, ct):
        v = [self.rd(I, a) for a in args]
        if len(v) >= 1 and z3.is_expr(v[0]) and v[0].sort() == self.Bits:
            return v[0]
        if v and z3.is_expr(v[0]) and v[0].sort() == INT:
            return self.nobits(v[0])
        raise Unsupported('dynamic_bitset constructor')

    def global_var(self, I, n, d):
        if d.get('name') == 'npos':
            return I.alloc(z3.IntVal(NPOS))
        return super().global_var(I, n, d)

    # ------------------------------------------------------------ loops
    def splittable(self, i):
        return z3.And(z3.Not(self.emp(i)), self.lb(i) < self.midf(i), self.midf(i) < self.ub(i))

    def largest(self, I, node, entry, havoced, mods, iters, accs, pterm, term):
        """The largest diameter of the dimensions up to here, and where it is."""
        out = []
        ints = [(l, p) for l, p in accs if z3.is_expr(snap_get(entry, l, p)) and
                snap_get(entry, l, p).sort() == INT]
        reals = [(l, p) for l, p in accs if z3.is_expr(snap_get(entry, l, p)) and
                 snap_get(entry, l, p).sort() == R]
        vals, bits, dims = getattr(self, 'watch', (None, None, None))
        if vals is None:
            return out
        o, j = self.IV, z3.Int('j')
        x = o.nth(vals, j)
        act = lambda t: self.test(bits, t) if bits is not None else z3.BoolVal(True)
        pats = [x] if bits is None else [x, self.test(bits, j)]
        for d in reals:
            D = lambda s, d=d: term(snap_get(s, *d))
            out.append(Cand('the maximum is not negative', lambda s, D=D: D(s) >= 0))
            for i in ints:
                N = lambda s, i=i: term(snap_get(s, *i))
                out.append(Cand('no dimension before has a larger diameter', lambda s, D=D, N=N:
                                z3.ForAll([j], z3.Implies(z3.And(
                                    0 <= j, j < N(s), j < dims, act(j), self.splittable(x)),
                                    self.diamf(x) <= D(s)), patterns=pats)))
                out.append(Cand('the index is where the maximum is', lambda s, D=D, N=N: z3.Or(
                    z3.And(N(s) == -1, D(s) == 0), z3.And(
                        0 <= N(s), N(s) < dims, act(N(s)), D(s) > 0,
                        self.splittable(o.nth(vals, N(s))),
                        self.diamf(o.nth(vals, N(s))) == D(s)))))
        if bits is not None:
            for i in ints:
                N = lambda s, i=i: term(snap_get(s, *i))
                out.append(Cand('the position is a member or the end', lambda s, N=N: z3.Or(
                    N(s) == NPOS, self.test(bits, N(s)))))
        return out
