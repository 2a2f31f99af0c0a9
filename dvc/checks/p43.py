"""P43: branching covers the whole box."""
import z3

from ..box_world import BOX_ASSUMPTIONS, BOX_TRUSTED, BoxWorld, NPOS
from ..interp import Cont, CppThrow, Obj, Ref
from ..theory import B, I as INT, R

SOURCES = ['dreal/util/box.cc', 'dreal/solver/brancher.cc']
EXTRA = 'ibex'
TRUSTED = BOX_TRUSTED + ['contract of DynamicBitset (find_first, find_next)']
ASSUMPTIONS = BOX_ASSUMPTIONS + ['a dimension to split is not of Boolean type',
                                 'integers are small enough for their doubles to be exact']


def world(prog):
    return BoxWorld(prog)


def tasks(prog, w):
    o = w.IV

    def unbox(I, b):
        return w.parts(I, b)

    def same_variables(I, b, old):
        p = w.parts(I, b)
        return z3.And(p[0] == old[0], p[2] == old[2], p[3] == old[3])

    def covers(I, old, i, left, right):
        """The two boxes cover the old one, which they shrink in dimension i."""
        vs, vals = old[0], old[1]
        l, r = w.parts(I, left)[1], w.parts(I, right)[1]
        j, x = z3.Int('j'), z3.Real('x')
        for nm, s in (('first', l), ('second', r)):
            I.oblige(o.len(s) == o.len(vals), 'the %s box has the same dimensions' % nm)
            I.oblige(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < o.len(vals), j != i),
                                               o.nth(s, j) == o.nth(vals, j)),
                               patterns=[o.nth(s, j)]),
                     'the %s box differs only in the dimension that is split' % nm)
            a, b = o.nth(s, i), o.nth(vals, i)
            I.oblige(z3.Or(w.emp(a), z3.And(
                w.lb(b) <= w.lb(a), w.ub(a) <= w.ub(b),
                z3.Or(w.lb(b) < w.lb(a), w.ub(a) < w.ub(b)))),
                'the %s box is smaller than the original' % nm)
        p = I.fresh(R, 'point')
        I.assume(z3.Or(w.vtype(w.VS.nth(vs, i)) == w.VT['CONTINUOUS'], w.isint(p)))
        I.oblige(z3.Implies(w.mem(p, o.nth(vals, i)), z3.Or(
            w.mem(p, o.nth(l, i)), w.mem(p, o.nth(r, i)))),
            'every point (of an integer variable: every integer) is in one of the boxes')
        for nm, s in (('first', left), ('second', right)):
            I.oblige(same_variables(I, s, old), 'the %s box has the same variables' % nm)

    def bisect(by_variable):
        def t(I):
            b = w.mkbox(I, 'box')
            old = w.parts(I, b)
            vs, vals, v2i, i2v = old
            i = I.fresh(INT, 'i')
            I.assume(z3.And(0 <= i, i < w.VS.len(vs)))
            v = w.VS.nth(vs, i)
            I.assume(w.vtype(v) != w.VT['BOOLEAN'])
            I.assume(z3.And(w.V2I.has(v2i, v), w.I2V.has(i2v, i)))
            fn = [f for f in prog.find('dreal::Box::bisect') if
                  ('Variable' in f['type']['qualType'].split('(', 1)[1]) == by_variable][0]
            arg = v if by_variable else i
            known = True
            if by_variable and not I.branch(I.fresh(B, 'the box has the variable')):
                arg, known = I.fresh(w.V, 'other'), False
                I.assume(z3.Not(w.V2I.has(v2i, arg)))
            try:
                r = I.inline(fn, b, [I.alloc(arg)], None)
            except CppThrow:
                if known:
                    I.oblige(z3.Not(w.splittable(o.nth(vals, i))),
                             'an error is reported only if the dimension cannot be split')
                return
            I.oblige(z3.BoolVal(known), 'a variable that is not in the box is an error')
            I.oblige(w.splittable(o.nth(vals, i)), 'a dimension that cannot be split is an error')
            r = I.load(I.alloc(r)).fields
            covers(I, old, i, r['first'], r['second'])
            I.oblige(z3.And(*[x == y for x, y in zip(old, w.parts(I, b))]), 'the box is unchanged')
        return t

    def result(I, vals, bits, d, k, n):
        j = z3.Int('j')
        act = (lambda t: w.test(bits, t)) if bits is not None else (lambda t: z3.BoolVal(True))
        x = o.nth(vals, k)
        I.oblige(z3.Or(k == -1, z3.And(0 <= k, k < n, act(k), w.splittable(x))),
                 'the result is -1 or a candidate dimension that can be split')
        I.oblige(z3.Implies(k == -1, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < n, act(j), w.splittable(o.nth(vals, j))),
            w.diamf(o.nth(vals, j)) <= 0), patterns=[o.nth(vals, j)])),
            'the result is -1 only if no candidate dimension can be split')
        I.oblige(z3.Implies(k >= 0, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < n, act(j), w.splittable(o.nth(vals, j))),
            w.diamf(o.nth(vals, j)) <= w.diamf(x)), patterns=[o.nth(vals, j)])),
            'no candidate dimension is larger')
        if d is not None:
            I.oblige(d == z3.If(k == -1, z3.RealVal(0), w.diamf(x)), 'the diameter belongs to it')

    def max_diam(I):
        b = w.mkbox(I, 'box')
        vs, vals = w.parts(I, b)[:2]
        w.watch = (vals, None, w.VS.len(vs))
        r = I.inline(prog.find('dreal::Box::MaxDiam')[0], b, [], None)
        f = I.load(I.alloc(r)).fields
        result(I, vals, None, f['first'], f['second'], w.VS.len(vs))

    def active(I, vs):
        bits = I.fresh(w.Bits, 'active')
        I.assume(w.nbits(bits) == w.VS.len(vs))
        I.assume(w.nbits(bits) < NPOS)
        return bits

    def find_max(I):
        b = w.mkbox(I, 'box')
        vs, vals = w.parts(I, b)[:2]
        bits = active(I, vs)
        w.watch = (vals, bits, w.VS.len(vs))
        r = I.inline(prog.find('dreal::FindMaxDiam')[0], None, [b, I.alloc(bits)], None)
        f = I.load(I.alloc(r)).fields
        result(I, vals, bits, f['first'], f['second'], w.VS.len(vs))

    def branch(I):
        b = w.mkbox(I, 'box')
        old = w.parts(I, b)
        vs, vals, v2i, i2v = old
        bits = active(I, vs)
        j = z3.Int('j')
        I.assume(z3.ForAll([j], z3.Implies(w.test(bits, j), z3.And(
            w.vtype(w.VS.nth(vs, j)) != w.VT['BOOLEAN'], w.I2V.has(i2v, j))),
            patterns=[w.test(bits, j)]))
        w.watch = (vals, bits, w.VS.len(vs))
        left, right = w.mkbox(I, 'left', False), w.mkbox(I, 'right', False)
        thrown = False
        try:
            r = I.inline(prog.find('dreal::BranchLargestFirst')[0], None,
                         [b, I.alloc(bits), left, right], None)
        except CppThrow:
            thrown = True
        I.oblige(z3.BoolVal(not thrown), 'no error')
        if thrown:
            return
        k = I.load(I.alloc(r))
        result(I, vals, bits, None, k, w.VS.len(vs))
        I.oblige(z3.And(*[x == y for x, y in zip(old, w.parts(I, b))]), 'the box is unchanged')
        if I.branch(k >= 0):
            covers(I, old, k, left, right)
    return [('Box::bisect(int)', bisect(False)), ('Box::bisect(Variable)', bisect(True)),
            ('Box::MaxDiam', max_diam), ('FindMaxDiam', find_max), ('BranchLargestFirst', branch)]
