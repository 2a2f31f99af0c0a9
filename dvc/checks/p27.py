"""P27: the constraint given to the interval library means the same as the formula.

ExprNode pointers are terms of the sort Nd; can(n, x): at the fixed point en0, x is one of the
values node n can have there (constants may be intervals).  holdsC(c): constraint c allows
the point.  Visit(e): the value of e is one of the node's.  Convert(f): no constraint, or one
that allows every point that satisfies f."""
import z3

from ..ibex_world import IbexMixin
from ..interp import Cont, CppThrow, NULL, Obj, Ref, Unsupported, norm_type
from ..symbolic_world import BINARY, SymWorld, UNARY
from ..theory import B, I as INT, R
from ..world import Cand, snap_get

SOURCES = ['dreal/util/ibex_converter.cc']
EXTRA = 'ibex'
TRUSTED = ["IBEX's constructors of expressions and constraints build what they are named after "
           '(IBEX is not available here, its interface is declared in harness/ibex)',
           'contracts of the accessors of formulas and expressions (P06, P15), of unary and '
           'binary minus (P08)', 'pow(x, 0.5) is sqrt(x)']
ASSUMPTIONS = ['doubles are real numbers', 'arithmetic is total (the point is one where every '
               'part of the formula is defined)', 'the variables of a converter are distinct']
C_ = 'dreal::IbexConverter::'
NODES = ('ExprNode', 'ExprSymbol', 'ExprConstant', 'ExprCtr')


class ConverterWorld(IbexMixin, SymWorld):
    ignored = ('dreal::unused',)

    def __init__(self, prog):
        super().__init__(prog)
        th = self.th
        self.Nd = th.sort('Nd')
        self.null = z3.Const('nullnode', self.Nd)
        self.can = z3.Function('can', self.Nd, R, B)
        self.allows = z3.Function('allows', self.Nd, B)
        self.en0 = z3.Const('en0', self.Env)
        self.Nds = self.ops(('seq', ('z', self.Nd)))
        self.cont_types['Array'] = ('seq', ('z', self.Nd))
        for nm in NODES:
            self.scalar_types[nm] = self.Nd
            self.scalar_types['ibex::' + nm] = self.Nd
        x = z3.Real('x')
        th.ax('sqrt', th.forall([x], self.powf(x, z3.RealVal('0.5')) == self.fn1['Sqrt'](x),
                                [self.powf(x, z3.RealVal('0.5')), self.fn1['Sqrt'](x)]))
        e, en = z3.Const('e', self.E), z3.Const('en', self.Env)
        rc = self.ekind(e) == self.KE['RealConstant']
        th.ax('realconstant', th.forall([e, en], z3.Implies(rc, z3.And(
            self.rclb(e) <= self.val(e, en), self.val(e, en) <= self.rcub(e),
            -self.inf < self.rclb(e), self.rcub(e) < self.inf)),
            [(self.val(e, en), self.ekind(e))]))
        c = self.ekind(e) == self.KE['Constant']
        th.ax('constant', th.forall([e], z3.Implies(c, z3.And(
            -self.inf < self.cval(e), self.cval(e) < self.inf)), [(self.cval(e), self.ekind(e))]))
        # representation invariants (P06, P08)
        th.ax('mul', th.forall([e], z3.Implies(
            self.ekind(e) == self.KE['Mul'], self.mmap(e) != self.MEE.empty), [self.mmap(e)]))
        th.ax('add', th.forall([e], z3.Implies(
            self.ekind(e) == self.KE['Add'], self.amap(e) != self.MED.empty), [self.amap(e)]))
        self.extra_candidates.append(self.templates)
        C = self.contracts
        C[C_ + 'Visit'] = self.visit
        C['dreal::is_integer'] = self.integral

    def integral(self, I, this, args, n):
        x, b = self.lv(I, args[0]), I.fresh(B, 'integral')
        I.assume(b == z3.And(z3.IsInt(x), x >= -2 ** 31, x <= 2 ** 31 - 1))
        return b

    def opaque_type(self, base):
        return base.endswith('Stat') or base.startswith('Timer') or super().opaque_type(base)

    def desc(self, t):
        base = norm_type(t)[0]
        if base.split('::')[-1] in NODES:
            return ('z', self.Nd)
        return super().desc(t)

    def is_node(self, x):
        return z3.is_expr(x) and x.sort() == self.Nd

    def null_pointer(self, I, t):
        if norm_type(t)[0].split('::')[-1] in NODES:
            return self.null
        return super().null_pointer(I, t)

    def ptr_nonnull(self, I, v):
        if self.is_node(v):
            return v != self.null
        return super().ptr_nonnull(I, v)

    def address_of(self, I, r):
        if isinstance(r, Ref) and r.loc is not None:
            v = I.load(r)
            if self.is_node(v):
                return v
        return r

    # ------------------------------------------------------------ IBEX
    def node(self, I, nm='node'):
        r = I.fresh(self.Nd, nm)
        I.assume(r != self.null)
        return r

    def member(self, I, v):
        """x -> formula: x is a possible value of the operand v"""
        if self.is_node(v):
            I.oblige(v != self.null, 'an operand is not a null pointer')
            return lambda x: self.can(v, x)
        if z3.is_expr(v) and v.sort() == self.Iv:
            return lambda x: self.mem(x, v)
        y = self.num(v)
        return lambda x: x == y

    def point(self, v):
        """Interval(c) is the number c."""
        if z3.is_app(v) and v.decl().eq(self.mkIv):
            x, y = v.children()
            if x.eq(y):
                return x
        return v

    def apply(self, I, f, args):
        r = self.node(I)
        args = [self.point(a) for a in args]
        nodes = [a for a in args if self.is_node(a)]
        xs = [z3.Real('x%d' % i) for i in range(len(args))]
        pre, pats, sub = [], [], []
        for x, a in zip(xs, args):
            p = self.member(I, a)
            if self.is_node(a):
                pre.append(p(x))
                pats.append(p(x))
                sub.append(x)
            elif z3.is_expr(a) and a.sort() == self.Iv:
                raise Unsupported('interval operand')
            else:
                sub.append(self.num(a))
        vs = [x for x, a in zip(xs, args) if self.is_node(a)]
        I.assume(z3.ForAll(vs, z3.Implies(z3.And(*pre), self.can(r, f(*sub))),
                           patterns=[z3.MultiPattern(*pats)]))
        z = z3.Real('z')
        I.assume(z3.ForAll(vs + [z], z3.Implies(z3.And(z == f(*sub), *pre), self.can(r, z)),
                           patterns=[z3.MultiPattern(self.can(r, z), *pats)]))
        return r

    def compare(self, I, rel, a, b):
        r = self.node(I, 'constraint')
        p, q = self.member(I, a), self.member(I, b)
        x, y = z3.Reals('x y')
        I.assume(z3.ForAll([x, y], z3.Implies(z3.And(p(x), q(y), rel(x, y)), self.allows(r)),
                           patterns=[z3.MultiPattern(p(x), q(y))]))
        return r

    def std_value_function(self, I, name, v, a, argn, n):
        if name == 'new_scalar':
            r = self.node(I, 'constant')
            x = z3.Real('x')
            v = [self.point(v[0])]
            p = self.member(I, v[0])
            I.assume(z3.ForAll([x], p(x) == self.can(r, x), patterns=[self.can(r, x)]))
            if not (z3.is_expr(v[0]) and v[0].sort() == self.Iv):
                I.assume(self.can(r, self.num(v[0])))
            else:
                e = z3.Const('e', self.E)
                y = self.val(e, self.en0)
                I.assume(z3.ForAll([e], z3.Implies(p(y), self.can(r, y)), patterns=[y]))
            return r
        if name == 'scalar' and not v:
            return None
        if name == 'new_':
            return self.node(I, 'symbol')
        if any(self.is_node(x) for x in v):
            if name == 'operator=' and len(v) == 2:
                return self.compare(I, lambda x, y: x == y, v[0], v[1])
            rel = {'operator<': lambda x, y: x < y, 'operator<=': lambda x, y: x <= y,
                   'operator>': lambda x, y: x > y, 'operator>=': lambda x, y: x >= y}.get(name)
            if rel:
                return self.compare(I, rel, v[0], v[1])
            if name == 'operator-' and len(v) == 1:
                return self.apply(I, lambda x: -x, v)
            op = {'operator+': '+', 'operator-': '-', 'operator*': '*', 'operator/': '/',
                  'pow': 'Pow', 'atan2': 'Atan2', 'min': 'Min', 'max': 'Max'}.get(name)
            if op and len(v) == 2:
                return self.apply(I, lambda x, y: self.arith(op, x, y), v)
            if name == 'abs':
                return self.apply(I, lambda x: self.arith('Abs', x, None), v)
            if name == 'sqr':
                return self.apply(I, lambda x: x * x, v)
            k = name.capitalize()
            if k in self.fn1 and len(v) == 1:
                return self.apply(I, self.fn1[k], v)
        return super().std_value_function(I, name, v, a, argn, n)

    def std_method_ext(self, I, obj, v, name, a, n):
        if self.is_node(v) and name == 'operator=':
            return self.compare(I, lambda x, y: x == y, v, a[0])
        if name == 'c_str':
            return v
        return super().std_method_ext(I, obj, v, name, a, n)

    def cont_method(self, I, obj, c, name, a, raw, n):
        if c.ops is self.Nds and name == 'add':
            I.store(obj, Cont(c.ops, c.ops.snoc(c.term, a[0])))
            return None
        return super().cont_method(I, obj, c, name, a, raw, n)

    # ------------------------------------------------------------ contracts
    def visit(self, I, this, args, n):
        t = self.lv(I, args[0])
        if t.sort() == self.E:
            r = self.node(I)
            I.assume(self.can(r, self.val(t, self.en0)))
            return r
        r = I.fresh(self.Nd, 'constraint')
        I.assume(self.meaning(t, self.lv(I, args[1]), r))
        return r

    def meaning(self, f, pol, r):
        h = self.holds(f, self.en0)
        h = z3.If(pol, h, z3.Not(h)) if z3.is_expr(pol) else (h if pol else z3.Not(h))
        return z3.Implies(z3.And(r != self.null, h), self.allows(r))

    def templates(self, I, node, entry, havoced, mods, iters, accs, pterm, term):
        """A node stands for the sum or product so far; no node: nothing so far."""
        out = []
        vs = getattr(self, 'watch', None)
        if vs is not None:
            arrs = [a for a in accs if isinstance(snap_get(entry, *a), Cont) and
                    snap_get(entry, *a).ops is self.Nds]
            maps = [a for a in accs if isinstance(snap_get(entry, *a), Cont) and
                    snap_get(entry, *a).ops.kind == 'map']
            o, i = self.ops(('seq', ('z', self.V))), z3.Int('i')
            for a in arrs:
                A = lambda s, a=a: snap_get(s, *a).term
                for it in iters:
                    out.append(Cand('one symbol for each variable so far', lambda s, A=A, it=it:
                                    None if snap_get(s, *it).p is None else
                                    self.Nds.len(A(s)) == snap_get(s, *it).p))
                for m in maps:
                    M, k = snap_get(entry, *m).ops, lambda s, m=m: snap_get(s, *m).term
                    x = self.vid(o.nth(vs, i))
                    out.append(Cand('the symbols so far are in the table', lambda s, A=A, k=k, M=M:
                                    z3.ForAll([i], z3.Implies(z3.And(
                                        0 <= i, i < self.Nds.len(A(s))), z3.And(
                                        M.has(k(s), x), M.get(k(s), x) == self.Nds.nth(A(s), i),
                                        self.Nds.nth(A(s), i) != self.null)),
                                        patterns=[self.Nds.nth(A(s), i)])))
                    out.append(Cand('nothing else is in the table', lambda s, A=A, k=k, M=M:
                                    z3.ForAll([i], z3.Implies(z3.And(
                                        self.Nds.len(A(s)) <= i, i < o.len(vs)), z3.Not(
                                        M.has(k(s), x))), patterns=[o.nth(vs, i)])))
        consts = [z3.RealVal(0), z3.RealVal(1)]
        for fr in entry[2][-1:]:
            for r in fr.values():
                if isinstance(r, Ref) and r.loc in entry[0]:
                    v = entry[0][r.loc]
                    if z3.is_expr(v) and v.sort() == R:
                        consts.append(v)
        for loc, path in accs:
            t0 = term(snap_get(entry, loc, path))
            if t0 is None or t0.sort() != self.Nd:
                continue
            for it in iters:
                P0 = pterm(entry, it)
                if P0 is None:
                    continue
                M = {self.MED.sort.name(): (self.MED, self.vsum, lambda x, y: x + y, 0),
                     self.MEE.sort.name(): (self.MEE, self.vprod, lambda x, y: x * y, 1)}.get(
                    P0.sort().name())
                if M is None:
                    continue
                o, fold, con, unit = M
                for c in consts:
                    def at(s, c=c, it=it, loc=loc, path=path):
                        P, t = pterm(s, it), term(snap_get(s, loc, path))
                        if P is None or t is None:
                            return None
                        x = con(c, fold(P, self.en0))
                        return z3.And(z3.Implies(t != self.null, self.can(t, x)),
                                      z3.Implies(t == self.null, z3.And(
                                          P == o.empty, c == unit)))
                    out.append(Cand('the node stands for what was added up so far', at))
        return out


def world(prog):
    return ConverterWorld(prog)


def tasks(prog, w):
    out = []

    def converter(I):
        m = w.ops(('map', ('z', INT), ('z', w.Nd), True))
        t = I.fresh(m.sort, 'symbols')
        v = z3.Const('v', w.V)
        i = w.vid(v)
        I.assume(z3.ForAll([v], z3.Implies(m.has(t, i), z3.And(m.get(t, i) != w.null, w.can(
            m.get(t, i), w.rval(w.en0, v)))), patterns=[m.get(t, i)]))
        zero = w.node(I, 'zero')
        x = z3.Real('x')
        I.assume(z3.ForAll([x], w.can(zero, x) == (x == 0), patterns=[w.can(zero, x)]))
        I.assume(w.can(zero, z3.RealVal(0)))
        vs = w.ops(('seq', ('z', w.V)))
        return I.alloc(Obj('dreal::IbexConverter', {
            'vars_': I.alloc(Cont(vs, I.fresh(vs.sort, 'vars'))), '&vars_': True,
            'need_to_delete_variables_': I.fresh(B, 'flag'),
            'symbolic_var_to_ibex_var_': Cont(m, t, True),
            'var_array_': Cont(w.Nds, I.fresh(w.Nds.sort, 'array')), 'zero_': zero}))

    visits = prog.find(C_ + 'Visit')
    ve, = [f for f in visits if 'Expression' in f['type']['qualType']]
    vf, = [f for f in visits if 'Formula' in f['type']['qualType']]

    def expression(k):
        def t(I):
            c = converter(I)
            e = I.fresh(w.E, 'e')
            I.assume(w.ekind(e) == w.KE[k])
            try:
                r = w.ld(I, I.inline(ve, c, [I.alloc(e)], None))
            except CppThrow:
                I.oblige(z3.BoolVal(k in ('IfThenElse', 'UninterpretedFunction', 'NaN', 'Var')),
                         'only what cannot be expressed is refused')
                return
            I.oblige(r != w.null, 'there is a node')
            I.oblige(w.can(r, w.val(e, w.en0)), 'the node stands for the expression')
        return t

    def formula(k):
        def t(I):
            c = converter(I)
            f, pol = I.fresh(w.F, 'f'), I.fresh(B, 'polarity')
            I.assume(w.kind(f) == w.KF[k])
            p = I.branch(pol)
            try:
                r = w.ld(I, I.inline(vf, c, [I.alloc(f), I.alloc(z3.BoolVal(p))], None))
            except CppThrow:
                I.oblige(z3.BoolVal(k in ('False', 'Var', 'And', 'Or', 'Forall')),
                         'only what cannot be expressed is refused')
                return
            I.oblige(w.meaning(f, p, r), 'the constraint allows every point that satisfies '
                     'the formula')
        return t

    def convert(I):
        c = converter(I)
        f = I.fresh(w.F, 'f')
        fn, = [g for g in prog.find(C_ + 'Convert') if 'Formula' in g['type']['qualType']]
        r = w.ld(I, I.inline(fn, c, [I.alloc(f)], None))
        I.oblige(w.meaning(f, True, r), 'the constraint allows every point that satisfies '
                 'the formula')
    def construct(I):
        vs = w.ops(('seq', ('z', w.V)))
        vars_ = I.fresh(vs.sort, 'vars')
        i, j = z3.Ints('i j')
        a, b = vs.nth(vars_, i), vs.nth(vars_, j)
        I.assume(z3.ForAll([i, j], z3.Implies(z3.And(
            0 <= i, i < j, j < vs.len(vars_)), a != b), patterns=[z3.MultiPattern(a, b)]))
        recs = prog.records['dreal::IbexConverter']
        cs = [c['type']['qualType'] for r in recs for c in r.get('inner', ())
              if c['kind'] == 'CXXConstructorDecl' and 'vector' in c['type']['qualType']]
        rec = recs[0]
        w.watch = vars_
        this = I.alloc(Obj('dreal::IbexConverter', {}))
        c = w.find_ctor(rec, cs[0], 1)
        try:
            I.run_ctor(rec, c, this, [I.alloc(Cont(vs, vars_))])
        finally:
            w.watch = None
        f = I.load(this).fields
        arr, m, n = f['var_array_'].term, f['symbolic_var_to_ibex_var_'], vs.len(vars_)
        o = m.ops
        I.oblige(w.Nds.len(arr) == n, 'one symbol for each variable')
        I.oblige(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            o.has(m.term, w.vid(a)), o.get(m.term, w.vid(a)) == w.Nds.nth(arr, i),
            w.Nds.nth(arr, i) != w.null)), patterns=[w.Nds.nth(arr, i)]),
            'the symbol of the i-th variable is the i-th argument')
        I.oblige(w.can(f['zero_'], z3.RealVal(0)), 'zero is zero')
    out.append(('IbexConverter(variables)', construct))
    for k in w.KE:
        out.append(('IbexConverter::Visit(Expression): ' + k, expression(k)))
    for k in w.KF:
        out.append(('IbexConverter::Visit(Formula): ' + k, formula(k)))
    out.append(('IbexConverter::Convert', convert))
    return out
