"""P41: pruning never removes a solution.

One arbitrary point is fixed: at(j) is its coordinate in dimension j of the box, en0 the
assignment of the variables; it respects the types of the variables.  sol(c): the point
satisfies the constraints of contractor c.  Contract of Prune, for every kind of contractor:
no point is added; the point stays if it is in the box and sol(c); and it stays if it is in
the box and satisfies all constraints that are recorded as used afterwards."""
import z3

from ..box_world import BOX_ASSUMPTIONS, BOX_TRUSTED, BoxWorld, NPOS
from ..interp import Cont, CppThrow, IterV, NULL, Obj, Opaque, Ref, Unsupported, norm_type
from ..theory import B, I as INT, R
from ..templates import scope_values
from ..world import Cand, snap_get

C_ = 'dreal/contractor/'
SOURCES = [C_ + x + '.cc' for x in (
    'contractor_cell', 'contractor_status', 'contractor_seq', 'contractor_join', 'contractor_integer',
    'contractor_fixpoint', 'contractor_worklist_fixpoint', 'contractor_ibex_fwdbwd',
    'contractor_ibex_polytope', 'contractor', 'generic_contractor_generator')] + [
    'dreal/util/box.cc']
EXTRA = 'ibex'
TRUSTED = BOX_TRUSTED + [
    "IBEX's backward and contract: they shrink the box and keep every point that the "
    'constraints they were built from allow', 'contract of DynamicBitset',
    'a call of Contractor::Prune runs the Prune of its kind',
    'Nnfizer::Convert by contract (P01), IbexConverter::Convert by contract (P27), accessors of '
    'formulas by contract (P06, P15)']
ASSUMPTIONS = BOX_ASSUMPTIONS + [
    'points respect the types of the variables (integral in integer and binary dimensions)',
    'a contractor is applied to boxes with the variables it was built for',
    'the contractor for quantified formulas and the per-thread copies of contractors are not '
    'under contract', 'arithmetic is total (the point is one where every part of the formula '
    'is defined)']
NODES = ('ExprNode', 'ExprCtr', 'ExprSymbol', 'NumConstraint', 'SystemFactory', 'System',
         'LinearizerCombo', 'CtcPolytopeHull', 'Function')
HELD = ('ExprCtr', 'NumConstraint', 'System', 'LinearizerCombo', 'CtcPolytopeHull')


class PruneWorld(BoxWorld):
    def __init__(self, prog):
        super().__init__(prog)
        th, fn = self.th, z3.Function
        self.Ctc, self.Cfg, self.Nd = th.sort('Ctc'), th.sort('Cfg'), th.sort('Nd')
        self.null = z3.Const('nullnode', self.Nd)
        self.scalar_types['Contractor'] = self.scalar_types['dreal::Contractor'] = self.Ctc
        self.scalar_types['Config'] = self.scalar_types['dreal::Config'] = self.Cfg
        for nm in NODES:
            self.scalar_types[nm] = self.scalar_types['ibex::' + nm] = self.Nd
        self.CS = self.ops(('seq', ('z', self.Ctc)))
        self.FS = self.ops(('seq', ('z', self.F)))
        self.SF = self.ops(('set', ('z', self.F)))
        self.BS = self.ops(('seq', ('z', self.Bits)))
        self.at = fn('at', INT, R)
        self.sol = fn('sol', self.Ctc, B)
        self.ckind = fn('ckind', self.Ctc, INT)
        self.cinput = fn('cinput', self.Ctc, self.Bits)
        self.cforall = fn('cforall', self.Ctc, B)
        self.inside = fn('inside', self.Ctc, self.CS.sort)
        self.allows = fn('allows', self.Nd, B)
        self.poly = fn('use_polytope', self.Cfg, B)
        self.jobs = fn('jobs', self.Cfg, INT)
        self.en0 = z3.Const('en0', self.Env)
        self.inb = fn('inb', self.IV.sort, B)
        self.lost = fn('lost', self.IV.sort, INT)
        self.hold = fn('hold', self.SF.sort, B)
        self.wit = fn('wit', self.SF.sort, self.F)
        self.allsol = fn('allsol', self.CS.sort, B)
        self.solwit = fn('solwit', self.CS.sort, INT)
        self.allform = fn('allform', self.FS.sort, B)
        self.formwit = fn('formwit', self.FS.sort, INT)
        j, s = z3.Int('j'), z3.Const('s', self.IV.sort)
        o = self.IV
        th.ax('at', th.forall([j], z3.And(-self.inf < self.at(j), self.at(j) < self.inf),
                              [self.at(j)]))
        th.ax('inb', th.forall([s, j], z3.Implies(z3.And(
            self.inb(s), 0 <= j, j < o.len(s)), self.mem(self.at(j), o.nth(s, j))),
            [(self.inb(s), o.nth(s, j))]))
        k = self.lost(s)
        th.ax('lost', th.forall([s], z3.Or(self.inb(s), z3.And(
            0 <= k, k < o.len(s), z3.Not(self.mem(self.at(k), o.nth(s, k))))), [self.inb(s)]))
        f, t = z3.Const('f', self.F), z3.Const('t', self.SF.sort)
        self.true0 = lambda f: self.holds(f, self.en0)
        th.ax('hold', th.forall([t, f], z3.Implies(z3.And(
            self.hold(t), self.SF.mem(f, t)), self.true0(f)), [(self.hold(t), self.SF.mem(f, t))]))
        th.ax('wit', th.forall([t], z3.Or(self.hold(t), z3.And(
            self.SF.mem(self.wit(t), t), z3.Not(self.true0(self.wit(t))))), [self.hold(t)]))

        def every(all_, wit, ops, p, nm):
            q = z3.Const('q', ops.sort)
            x = ops.nth(q, j)
            th.ax(nm, th.forall([q, j], z3.Implies(z3.And(all_(q), 0 <= j, j < ops.len(q)), p(x)),
                                [(all_(q), x)]))
            y = wit(q)
            th.ax(nm + 'wit', th.forall([q], z3.Or(all_(q), z3.And(
                0 <= y, y < ops.len(q), z3.Not(p(ops.nth(q, y))))), [all_(q)]))
        every(self.allsol, self.solwit, self.CS, self.sol, 'allsol')
        every(self.allform, self.formwit, self.FS, self.true0, 'allform')
        c = z3.Const('c', self.Ctc)
        K = lambda x: self._enum('Kind', x)
        th.ax('seq', th.forall([c], z3.Implies(
            self.ckind(c) == K('SEQ'), self.sol(c) == self.allsol(self.inside(c))),
            [self.inside(c)]))
        th.ax('id', th.forall([c], z3.Implies(self.ckind(c) == K('ID'), self.sol(c)),
                              [(self.ckind(c), self.sol(c))]))
        self.extra_candidates.append(self.templates)
        self.contracts_()

    def opaque_type(self, base):
        return base.endswith('Stat') or base.startswith('Timer') or super().opaque_type(base)

    def is_node(self, x):
        return z3.is_expr(x) and x.sort() == self.Nd

    def desc(self, t):
        base, targs = norm_type(t)[:2]
        if base.split('::')[-1] == 'unique_ptr' and targs and norm_type(
                targs[0])[0].split('::')[-1] in HELD:
            return ('z', self.Nd)
        if base.split('::')[-1] in NODES:
            return ('z', self.Nd)
        return super().desc(t)

    def null_pointer(self, I, t):
        if norm_type(t)[0].split('::')[-1] in NODES:
            return self.null
        return super().null_pointer(I, t)

    def ptr_nonnull(self, I, v):
        return v != self.null if self.is_node(v) else super().ptr_nonnull(I, v)

    def default_term(self, I, sort, t):
        return self.null if sort == self.Nd else super().default_term(I, sort, t)

    # ------------------------------------------------------------ predicates
    def sub(self, s, t):
        """Vector s is within t."""
        o, j = self.IV, z3.Int('j')
        x, y = o.nth(s, j), o.nth(t, j)
        return z3.And(o.len(s) == o.len(t), z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < o.len(s)), z3.Or(self.emp(x), z3.And(
                z3.Not(self.emp(y)), self.lb(y) <= self.lb(x), self.ub(x) <= self.ub(y)))),
            patterns=[x]))

    def subset(self, s, t, ops):
        x = z3.Const('x', ops.T)
        return z3.ForAll([x], z3.Implies(ops.mem(x, s), ops.mem(x, t)), patterns=[
            ops.mem(x, s), ops.mem(x, t)])

    # ------------------------------------------------------------ statuses
    def mkstatus(self, I, name='status'):
        b = self.mkbox(I, name + '.box')
        d = self.desc('dreal::Variables')
        vo = self.ops(d)
        n = self.VS.len(self.parts(I, b)[0])
        out = I.fresh(self.Bits, name + '.output')
        I.assume(self.nbits(out) == n)
        I.assume(n < 2 ** 31)
        return I.alloc(Obj('dreal::ContractorStatus', {
            'box_': I.load(b), 'branching_point_': I.fresh(INT, name + '.branching'),
            'output_': out,
            'used_constraints_': Cont(self.SF, I.fresh(self.SF.sort, name + '.used')),
            'unsat_witness_': Cont(vo, I.fresh(vo.sort, name + '.witness'))}))

    def view(self, get):
        """(intervals, used, witnesses, output, variables..) with get(path)"""
        b = get(('box_',))
        return dict(vals=b.fields['values_'].term, used=get(('used_constraints_',)).term,
                    wit=get(('unsat_witness_',)).term, out=get(('output_',)))

    def status(self, I, cs):
        return self.view(lambda p: I.load(Ref(cs.loc, cs.path + p)))

    def wops(self):
        return self.ops(self.desc('dreal::Variables'))

    def effect(self, a, b, sol):
        """What pruning does: from status a to status b."""
        return [('no point is added to the box', self.sub(b['vals'], a['vals'])),
                ('a solution in the box stays in the box', z3.Implies(
                    z3.And(sol, self.inb(a['vals'])), self.inb(b['vals']))),
                ('a point that satisfies all constraints recorded as used stays in the box',
                 z3.Implies(z3.And(self.inb(a['vals']), self.hold(b['used'])),
                            self.inb(b['vals']))),
                ('no recorded constraint is forgotten', self.subset(a['used'], b['used'], self.SF)),
                ('no recorded witness is forgotten', self.subset(a['wit'], b['wit'], self.wops())),
                ('the size of the output stays', self.nbits(b['out']) == self.nbits(a['out']))]

    def after(self, I, cs, name='after'):
        """A fresh status over the same variables."""
        c = I.load(cs)
        b = c.fields['box_']
        vo = self.wops()
        nb = b.set('values_', Cont(self.IV, I.fresh(self.IV.sort, name + '.values')))
        n = c.set('box_', nb).set('output_', I.fresh(self.Bits, name + '.output'))
        n = n.set('used_constraints_', Cont(self.SF, I.fresh(self.SF.sort, name + '.used')))
        n = n.set('unsat_witness_', Cont(vo, I.fresh(vo.sort, name + '.witness')))
        for f in ('output_', 'used_constraints_', 'unsat_witness_'):
            I.store(Ref(cs.loc, cs.path + (f,)), n.fields[f])
        I.store(Ref(cs.loc, cs.path + ('box_', 'values_')), nb.fields['values_'])

    def ptr(self, I, a):
        """The object that a pointer argument points to."""
        while isinstance(a, Ref) and isinstance(I.load(a), Ref):
            a = I.load(a)
        return a

    # ------------------------------------------------------------ contracts
    def contracts_(self):
        C = self.contracts
        P = 'dreal::Contractor::'

        def prune(I, this, args, n):
            c, cs = self.lv(I, this), self.ptr(I, args[0])
            old = self.status(I, cs)
            self.after(I, cs)
            for nm, x in self.effect(old, self.status(I, cs), self.sol(c)):
                I.assume(x)
            return None
        C[P + 'Prune'] = prune
        C[P + 'kind'] = lambda I, this, a, n: self.ckind(self.lv(I, this))
        C[P + 'input'] = lambda I, this, a, n: self.cinput(self.lv(I, this))
        C[P + 'include_forall'] = lambda I, this, a, n: self.cforall(self.lv(I, this))
        for m in ('dreal::ContractorCell::set_include_forall', P + 'set_include_forall'):
            C[m] = lambda I, this, a, n: None
        C['dreal::Config::use_polytope'] = lambda I, this, a, n: self.poly(self.lv(I, this))
        C['dreal::Config::number_of_jobs'] = lambda I, this, a, n: self.jobs(self.lv(I, this))
        C['dreal::ComputeInputSize'] = lambda I, this, a, n: I.fresh(INT, 'size')
        C['dreal::is_integer'] = self.integral
        for m in ('reset', 'operator|=', 'operator='):
            C['dreal::dynamic_bitset::' + m] = (
                lambda m: lambda I, this, args, n: self.bit_method(I, this, m, args))(m)

        def used(I, this, args, n):
            x = self.rd(I, args[0])
            a = self.status(I, this)
            vo = self.wops()
            s, t = I.fresh(self.SF.sort, 'used'), I.fresh(vo.sort, 'witness')
            for _nm, g in self.recorded(x, a, s, t):
                I.assume(g)
            I.store(Ref(this.loc, this.path + ('used_constraints_',)), Cont(self.SF, s))
            I.store(Ref(this.loc, this.path + ('unsat_witness_',)), Cont(vo, t))
            return None
        C['dreal::ContractorStatus::AddUsedConstraint'] = used
        # IBEX
        V = 'dreal::IbexConverter::'

        def convert(I, this, args, n):
            f, r = self.lv(I, args[0]), I.fresh(self.Nd, 'constraint')
            I.assume(z3.Or(r == self.null, z3.Implies(self.true0(f), self.allows(r))))
            return r
        C[V + 'Convert'] = convert
        C[V + 'variables'] = lambda I, this, a, n: I.fresh(self.Nds.sort, 'symbols')
        C[V + 'set_need_to_delete_variables'] = lambda I, this, a, n: None
        self.Nds = self.ops(('seq', ('z', self.Nd)))
        self.cont_types['Array'] = ('seq', ('z', self.Nd))
        self.scalar_types['IbexConverter'] = self.scalar_types[
            'dreal::IbexConverter'] = self.th.sort('Conv')

    def std_method(self, I, obj, v, name, args, n):
        """Members of IBEX's constraints, systems and contractors."""
        if self.is_node(v):
            if name in ('backward', 'contract'):
                return I.conv(self.contract(I, obj, args, n), n)
            if name == 'add_ctr':
                return self.add_ctr(I, obj, args, n)
            if name == 'add_var':
                return None
            if name == 'right_hand_side':
                return I.fresh(self.Iv, 'rhs')
        return super().std_method(I, obj, v, name, args, n)

    def recorded(self, x, a, s, t):
        """AddUsedConstraint(x) from status a: used constraints s, witnesses t"""
        if isinstance(x, Cont):
            j = z3.Int('j')
            y = self.FS.nth(x.term, j)
            out = [('every one of them is recorded', z3.ForAll([j], z3.Implies(z3.And(
                0 <= j, j < self.FS.len(x.term)), self.SF.mem(y, s)), patterns=[y]))]
        else:
            out = [('it is recorded', self.SF.mem(x, s))]
        return out + [('no recorded constraint is forgotten', self.subset(a['used'], s, self.SF)),
                      ('no recorded witness is forgotten', self.subset(a['wit'], t, self.wops()))]

    def integral(self, I, this, args, n):
        x, b = self.rd(I, args[0]), I.fresh(B, 'integral')
        if z3.is_expr(x) and x.sort() == R:
            I.assume(z3.Implies(b, self.isint(x)))
        return b

    def contract(self, I, this, args, n):
        """The box shrinks, and keeps the point if the constraint allows it."""
        nd, iv = self.lv(I, this), args[-1]
        I.oblige(nd != self.null, 'the constraint is not null')
        s = I.load(iv).term
        t = I.fresh(self.IV.sort, 'contracted')
        I.store(iv, Cont(self.IV, t))
        I.assume(self.sub(t, s))
        I.assume(z3.Implies(z3.And(self.allows(nd), self.inb(s)), self.inb(t)))
        I.assume(z3.Or(t == s, z3.Not(self.emp(self.IV.nth(t, 0))), z3.And(
            self.emp(self.IV.nth(t, 0)))))
        r = I.fresh(B, 'inner')
        I.assume(z3.Implies(r, t == s))
        bits = I.ghost.get('dims')
        if bits is not None:
            # only the dimensions of the constraint change, unless the box gets empty
            j = z3.Int('j')
            I.assume(z3.Or(self.emp(self.IV.nth(t, 0)), z3.ForAll([j], z3.Implies(z3.And(
                0 <= j, j < self.IV.len(s), z3.Not(self.test(bits, j))),
                self.IV.nth(t, j) == self.IV.nth(s, j)), patterns=[self.IV.nth(t, j)])))
        return r

    def add_ctr(self, I, this, args, n):
        nd, r = self.lv(I, args[0]), I.fresh(self.Nd, 'factory')
        I.oblige(nd != self.null, 'the constraint is not null')
        old = self.rd(I, this)
        I.assume(r != self.null)
        I.assume(self.allows(r) == z3.And(self.allows(old), self.allows(nd)))
        I.store(this, r)
        return None

    def made_of(self, I, args):
        """A node that is built from other nodes."""
        nodes = [x for x in (self.rd(I, a) for a in args) if self.is_node(x)]
        r = I.fresh(self.Nd, 'node')
        I.assume(r != self.null)
        I.assume(self.allows(r) == z3.And([self.allows(x) for x in nodes]))
        return r

    def make_smart(self, I, n, t, args):
        base = norm_type(t)[0].split('::')[-1]
        if base in HELD:
            return self.made_of(I, args)
        if base == 'SystemFactory':
            return Obj('sptr', {'ptr': I.alloc(self.made_of(I, []))})
        if base in CELLS:
            return self.cell(I, base, args)
        return super().make_smart(I, n, t, args)

    def ctor_unique_ptr(self, I, n, t, args, ct):
        if self.desc(t) == ('z', self.Nd):
            v = [self.rd(I, a) for a in args]
            return v[0] if v else self.null
        return None

    def ctor_IbexConverter(self, I, n, t, args, ct):
        return I.fresh(self.scalar_types['IbexConverter'], 'converter')

    def ctor_ContractorCell(self, I, n, t, args, ct):
        return None

    def member_of_term(self, I, r, v, name, n):
        if self.is_node(v):
            if name == 'f':
                return I.alloc(v)
            if name == 'nb_ctr':
                return I.alloc(I.fresh(INT, 'nb_ctr'))
        return super().member_of_term(I, r, v, name, n)

    def field(self, I, r, name):
        if self.is_node(r):
            if name == 'f':
                return r
            if name == 'nb_ctr':
                return I.fresh(INT, 'nb_ctr')
        return super().field(I, r, name)

    def std_method_ext(self, I, obj, v, name, a, n):
        if self.is_node(v):
            if name == 'reset':
                I.store(obj, a[0] if a else self.null)
                return None
            if name == 'operator bool':
                return v != self.null
            if name in ('get', 'operator->', 'operator*'):
                return v
        return super().std_method_ext(I, obj, v, name, a, n)

    def std_value_function(self, I, name, v, a, argn, n):
        if v and self.is_node(v[0]) and name in ('operator->', 'operator*', 'operator bool'):
            return v[0] != self.null if name == 'operator bool' else v[0]
        return super().std_value_function(I, name, v, a, argn, n)

    def bit_method(self, I, obj, name, args):
        a = [self.rd(I, x) for x in args]
        args = [x for x, y in zip(args, a) if not isinstance(y, Opaque)]
        a = [y for y in a if not isinstance(y, Opaque)]
        v, j = I.load(obj), z3.Int('j')

        def result(p):
            r = I.fresh(self.Bits, 'bits')
            I.assume(self.nbits(r) == self.nbits(v))
            I.assume(z3.ForAll([j], self.test(r, j) == p, patterns=[self.test(r, j)]))
            I.store(obj, r)
            return obj
        t = self.test(v, j)
        if name == 'reset' and not a:
            return result(z3.BoolVal(False))
        if name == 'set' and not a:
            return result(z3.And(0 <= j, j < self.nbits(v)))
        if name == 'set' and len(a) == 2 and z3.is_false(I.as_bool(a[1]) if not z3.is_expr(a[1])
                                                        else a[1]):
            I.oblige(z3.And(0 <= a[0], a[0] < self.nbits(v)), 'bit index in range')
            return result(z3.And(t, j != a[0]))
        if name == 'operator|=':
            r = I.fresh(self.Bits, 'bits')
            I.assume(self.nbits(r) == self.nbits(v))
            I.assume(z3.ForAll([j], z3.Implies(z3.And(self.nbits(v) == self.nbits(a[0])),
                                               self.test(r, j) == z3.Or(t, self.test(a[0], j))),
                               patterns=[self.test(r, j)]))
            I.store(obj, r)
            return obj
        if name == 'operator=':
            I.store(obj, a[0])
            return obj
        return super().bit_method(I, obj, name, args)

    # ------------------------------------------------------------ loops
    def templates(self, I, node, entry, havoced, mods, iters, accs, pterm, term):
        out = []
        # positions are members of bit sets in scope (or the end)
        bits = [(l, p) for l, p, v in scope_values(entry)
                if z3.is_expr(v) and v.sort() == self.Bits]
        bits += [acc for acc in accs if acc not in bits and z3.is_expr(snap_get(entry, *acc)) and
                 snap_get(entry, *acc).sort() == self.Bits]
        vecs, keep = [], I.snapshot()
        I.restore(entry)
        consts = []
        for r in entry[2][-1].values():
            try:
                v = I.load(r) if isinstance(r, Ref) else None
            except Exception:
                continue
            if isinstance(r, Ref) and r.path and not any(r.loc == l for l, p in mods):
                if z3.is_expr(v) and v.sort() == self.Bits:
                    consts.append(v)
            if isinstance(v, Cont) and v.ops is self.IV:
                vecs.append((r.loc, r.path))
        I.restore(keep)
        ints = [acc for acc in accs if z3.is_expr(snap_get(entry, *acc)) and
                snap_get(entry, *acc).sort() == INT]
        flags = [acc for acc in accs if z3.is_expr(snap_get(entry, *acc)) and
                 snap_get(entry, *acc).sort() == B]
        j = z3.Int('j')
        for b in consts:
            for acc in ints:
                out.append(Cand('the position is a member or the end', lambda s, b=b, acc=acc: z3.Or(
                    snap_get(s, *acc) == NPOS, self.test(b, snap_get(s, *acc)))))
        o = self.IV
        for x in flags:
            for acc in ints:
                for m in vecs:
                    for n in vecs:
                        if m >= n:
                            continue
                        def same(s, x=x, acc=acc, m=m, n=n, b=None):
                            u, v = snap_get(s, *m), snap_get(s, *n)
                            if u is None or v is None:
                                return None
                            u, v = o.nth(u.term, j), o.nth(v.term, j)
                            return z3.Or(snap_get(s, *x), z3.ForAll([j], z3.Implies(z3.And(
                                0 <= j, j < snap_get(s, *acc), self.test(b, j) if b is not None
                                else True), self.same(u, v)), patterns=[u, v]))
                        out.append(Cand('no difference up to here', same))
                        d = I.ghost.get('dims')
                        if d is not None:
                            out.append(Cand('no difference up to here in the dimensions',
                                            lambda s, same=same, d=d: same(s, b=d)))
        for bl, bp in bits:
            b = lambda s, bl=bl, bp=bp: snap_get(s, bl, bp)
            b0 = b(entry)
            out.append(Cand('the size of the bit set stays', lambda s, b=b, b0=b0:
                            self.nbits(b(s)) == self.nbits(b0)))
            for acc in accs:
                x = snap_get(entry, *acc)
                if not (z3.is_expr(x) and x.sort() == INT):
                    continue
                out.append(Cand('the position is a member', lambda s, b=b, acc=acc:
                                self.test(b(s), snap_get(s, *acc))))
                out.append(Cand('the position is a member or the end', lambda s, b=b, acc=acc: z3.Or(
                    snap_get(s, *acc) == NPOS, self.test(b(s), snap_get(s, *acc)))))
        g = I.ghost.get('record')
        if g is not None:
            cs, fs, a = g
            j = z3.Int('j')
            x = self.FS.nth(fs, j)
            def some(s, it):
                v = snap_get(s, *it)
                if isinstance(v, IterV) and v.snap.ops is self.FS:
                    return self.FS.len(fs) if v.p is None else v.p
                return v if z3.is_expr(v) and v.sort() == INT else None
            for it in list(iters) + list(accs):
                def at(s, it=it):
                    p = some(s, it)
                    return None if p is None else z3.ForAll([j], z3.Implies(z3.And(
                        0 <= j, j < p), self.SF.mem(x, snap_get(
                            s, cs.loc, cs.path + ('used_constraints_',)).term)), patterns=[x])
                out.append(Cand('the constraints up to here are recorded', at))
            out.append(Cand('nothing recorded is forgotten', lambda s: self.subset(
                a['used'], snap_get(s, cs.loc, cs.path + ('used_constraints_',)).term, self.SF)))
            out.append(Cand('no witness is forgotten', lambda s: self.subset(
                a['wit'], snap_get(s, cs.loc, cs.path + ('unsat_witness_',)).term, self.wops())))
        g = I.ghost.get('prune')
        if g is None:
            return out
        loc, path, a, sol, extra = g
        def view(s):
            try:
                v = self.view(lambda p: snap_get(s, loc, path + p))
            except AttributeError:
                return None
            return v
        for i, (nm, _x) in enumerate(self.effect(a, a, sol)):
            def at(s, i=i):
                v = view(s)
                return None if v is None else self.effect(a, v, sol)[i][1]
            out.append(Cand(nm + ' so far', at))
        for h in extra:
            out += h(entry, view, iters, accs)
        return out


CELLS = {}


def world(prog):
    return PruneWorld(prog)


def tasks(prog, w):
    def fn(q, sub=None):
        fs = [f for f in prog.find('dreal::' + q) if sub is None or sub in f['type']['qualType']]
        return fs[0]

    def contractors(I):
        return Cont(w.CS, I.fresh(w.CS.sort, 'contractors'))

    def pruning(q, fields, sol, prepare=None, extra=(), bits=None):
        def t(I):
            cs = w.mkstatus(I)
            f = fields(I, cs)
            s = sol(f)
            a = w.status(I, cs)
            if prepare:
                prepare(I, f, cs)
            I.ghost['prune'] = (cs.loc, cs.path, a, s, [h(f) for h in extra])
            this = I.alloc(Obj('dreal::' + q, f))
            I.inline(fn(q + '::Prune'), this, [cs], None)
            I.ghost['pruned'] = (f, a, w.status(I, cs))
            for nm, x in w.effect(a, w.status(I, cs), s):
                I.oblige(x, nm)
        return (q + '::Prune', t)
    out = []

    def seq_fields(I, cs):
        return {'contractors_': contractors(I)}
    allsol = lambda f: w.allsol(f['contractors_'].term)
    out.append(pruning('ContractorSeq', seq_fields, allsol))

    # join: one of the contractors, number k, is the one whose constraints the point satisfies
    k0 = z3.Int('k0')

    def join_prepare(I, f, cs):
        s = f['contractors_'].term
        I.assume(w.CS.len(s) >= 1)
    def index(sn, it):
        v = snap_get(sn, *it)
        if z3.is_expr(v) and v.sort() == INT:
            return v
        if not isinstance(v, IterV) or v.snap.ops is not w.CS:
            return None
        return w.CS.len(v.snap.term) if v.p is None else v.p

    def join_extra(f):
        s = f['contractors_'].term

        def h(entry, view, iters, accs):
            a0 = None
            r = []
            for it in list(iters) + list(accs):
                def A(sn, it=it):
                    v, p = view(sn), index(sn, it)
                    a = h.a
                    return None if v is None or p is None else z3.Implies(z3.And(
                        0 <= k0, k0 < p, w.sol(w.CS.nth(s, k0)), w.inb(a['vals'])),
                        w.inb(v['vals']))

                def Bq(sn, it=it):
                    v, p = view(sn), index(sn, it)
                    a = h.a
                    return None if v is None or p is None else z3.Implies(z3.And(
                        p >= 1, w.inb(a['vals']), w.hold(v['used'])), w.inb(v['vals']))
                r += [Cand('a solution of a contractor that was applied is in the box', A),
                      Cand('a point that satisfies the used constraints is in the box', Bq)]
            return r
        return h

    def join(I):
        cs = w.mkstatus(I)
        f = seq_fields(I, cs)
        s = f['contractors_'].term
        join_prepare(I, f, cs)
        sol = z3.And(0 <= k0, k0 < w.CS.len(s), w.sol(w.CS.nth(s, k0)))
        a = w.status(I, cs)
        h = join_extra(f)
        h.a = a
        I.ghost['prune'] = (cs.loc, cs.path, a, sol, [h])
        I.inline(fn('ContractorJoin::Prune'), I.alloc(Obj('dreal::ContractorJoin', f)), [cs], None)
        for nm, x in w.effect(a, w.status(I, cs), sol):
            I.oblige(x, nm)
    out.append(('ContractorJoin::Prune', join))

    IX = w.ops(('seq', ('z', INT)))

    def int_fields(I, cs):
        ix = I.fresh(IX.sort, 'indexes')
        n = w.VS.len(w.parts(I, Ref(cs.loc, cs.path + ('box_',)))[0])
        j = z3.Int('j')
        x = IX.nth(ix, j)
        I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < IX.len(ix)), z3.And(
            0 <= x, x < n, w.isint(w.at(x)))), patterns=[x]))
        return {'int_indexes_': Cont(IX, ix)}
    out.append(pruning('ContractorInteger', int_fields, lambda f: z3.BoolVal(True)))

    anything = lambda I: lambda *a: I.fresh(B, 'terminate')

    def fix_fields(I, cs):
        return {'contractors_': contractors(I), 'term_cond_': anything(I)}
    out.append(pruning('ContractorFixpoint', fix_fields, allsol))

    def work_fields(I, cs):
        f = fix_fields(I, cs)
        s, m = f['contractors_'].term, I.fresh(w.BS.sort, 'input_to_contractors')
        n = w.VS.len(w.parts(I, Ref(cs.loc, cs.path + ('box_',)))[0])
        j, b = z3.Int('j'), I.load(Ref(cs.loc, cs.path + ('branching_point_',)))
        x = w.BS.nth(m, j)
        I.assume(z3.And(w.BS.len(m) == n, -1 <= b, b < n))
        I.assume(w.CS.len(s) < 2 ** 31)
        I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), w.nbits(x) == w.CS.len(s)),
                           patterns=[x]))
        f['input_to_contractors_'] = Cont(w.BS, m)
        return f
    out.append(pruning('ContractorWorklistFixpoint', work_fields, allsol))

    # statuses
    def add_one(I):
        cs, f = w.mkstatus(I), I.fresh(w.F, 'f')
        a = w.status(I, cs)
        I.inline(fn('ContractorStatus::AddUsedConstraint', 'Formula &)'), cs, [I.alloc(f)], None)
        recorded(I, a, cs, f)
    def recorded(I, a, cs, x):
        b = w.status(I, cs)
        I.oblige(b['vals'] == a['vals'], 'the box is unchanged')
        for nm, g in w.recorded(x, a, b['used'], b['wit']):
            I.oblige(g, nm)

    def add_all(I):
        cs, f = w.mkstatus(I), Cont(w.FS, I.fresh(w.FS.sort, 'formulas'))
        a = w.status(I, cs)
        I.ghost['record'] = (cs, f.term, a)
        I.inline([g for g in prog.find('dreal::ContractorStatus::AddUsedConstraint')
                  if 'vector' in g['type']['qualType']][0], cs, [I.alloc(f)], None)
        recorded(I, a, cs, f)
    out.append(('ContractorStatus::AddUsedConstraint(Formula)', add_one))
    out.append(('ContractorStatus::AddUsedConstraint(vector)', add_all))

    def join_status(name):
        def t(I):
            a, b = w.mkstatus(I, 'first'), w.mkstatus(I, 'second')
            fa = I.load(a)
            bx = fa.fields['box_']
            o = I.load(b)
            nb = bx.set('values_', o.fields['box_'].fields['values_'])
            I.store(b, o.set('box_', nb))
            va, vb = w.status(I, a), w.status(I, b)
            I.assume(w.IV.len(va['vals']) == w.IV.len(vb['vals']))
            if name == 'Join':
                r = I.inline(fn('Join'), None, [a, b], None)
                r = I.load(r) if isinstance(r, Ref) else r
                r = I.alloc(r)
            else:
                r = I.inline(fn('ContractorStatus::InplaceJoin'), a, [b], None)
                r = a
            v = w.status(I, r)
            I.oblige(z3.Implies(z3.Or(w.inb(va['vals']), w.inb(vb['vals'])), w.inb(v['vals'])),
                     'a point in one of the boxes is in the box')
            for x in (va, vb):
                I.oblige(w.subset(x['used'], v['used'], w.SF), 'the used constraints of both')
                I.oblige(w.subset(x['wit'], v['wit'], w.wops()), 'the witnesses of both')
            I.oblige(w.status(I, b)['vals'] == vb['vals'], 'the second status is unchanged')
        return (name, t)
    out += [join_status('ContractorStatus::InplaceJoin'), join_status('Join')]

    # IBEX contractors
    def bits_of(I, cs):
        bits = I.fresh(w.Bits, 'input')
        n = w.VS.len(w.parts(I, Ref(cs.loc, cs.path + ('box_',)))[0])
        I.assume(w.nbits(bits) == n)
        return bits

    def fwd_fields(I, cs):
        f, nd, bits = I.fresh(w.F, 'f'), I.fresh(w.Nd, 'constraint'), bits_of(I, cs)
        I.assume(nd != w.null)
        I.assume(z3.Implies(w.true0(f), w.allows(nd)))
        I.ghost['dims'] = bits
        return {'f_': f, 'num_ctr_': nd, 'expr_ctr_': I.fresh(w.Nd, 'e'), 'input_': bits,
                'is_dummy_': z3.BoolVal(False)}
    out.append(pruning('ContractorIbexFwdbwd', fwd_fields, lambda f: w.true0(f['f_'])))

    def poly_fields(I, cs):
        I.assume(w.VS.len(w.parts(I, Ref(cs.loc, cs.path + ('box_',)))[0]) >= 1)
        fs, nd, bits = I.fresh(w.FS.sort, 'formulas'), I.fresh(w.Nd, 'ctc'), bits_of(I, cs)
        I.assume(nd != w.null)
        I.assume(z3.Implies(w.allform(fs), w.allows(nd)))
        return {'formulas_': Cont(w.FS, fs), 'ctc_': nd, 'input_': bits,
                'is_dummy_': z3.BoolVal(False)}
    out.append(pruning('ContractorIbexPolytope', poly_fields,
                       lambda f: w.allform(f['formulas_'].term)))
    return out
