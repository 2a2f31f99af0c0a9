"""Client-level theory of dreal's symbolic terms.

A `Formula` (`Expression`) is an immutable value of the uninterpreted sort F
(E); the accessors are functions of it and `holds` (`val`) is its meaning under
an environment, defined by recursion on the kind.  The contracts of the
library's constructors and accessors used by callers are stated here; the
checks of P06-P08, P10, P15 and P18 verify them against the real cells.

`Env` ranges over the assignments at which every arithmetic term that occurs is
defined (partial operations are treated in P08 and P11).
"""
import z3

from .interp import (Cont, Obj, Ref, NULL, Closure, IterV, Opaque, FnPtr, Unsupported,
                     Infeasible, CppThrow, norm_type, qt)
from .theory import B, I as INT, R
from .world import World, Cand

S_ = 'dreal::drake::symbolic::'

FKINDS = ['False', 'True', 'Var', 'Eq', 'Neq', 'Gt', 'Geq', 'Lt', 'Leq', 'And', 'Or',
          'Not', 'Forall']
UNARY = ['Log', 'Abs', 'Exp', 'Sqrt', 'Sin', 'Cos', 'Tan', 'Asin', 'Acos', 'Atan', 'Sinh',
         'Cosh', 'Tanh']
BINARY = ['Div', 'Pow', 'Atan2', 'Min', 'Max']
EKINDS = ['Constant', 'RealConstant', 'Var', 'Add', 'Mul', 'Div', 'Log', 'Abs', 'Exp', 'Sqrt',
          'Pow', 'Sin', 'Cos', 'Tan', 'Asin', 'Acos', 'Atan', 'Atan2', 'Sinh', 'Cosh', 'Tanh',
          'Min', 'Max', 'IfThenElse', 'NaN', 'UninterpretedFunction']

FCELLS = {'FormulaFalse': 'False', 'FormulaTrue': 'True', 'FormulaVar': 'Var',
          'FormulaEq': 'Eq', 'FormulaNeq': 'Neq', 'FormulaGt': 'Gt', 'FormulaGeq': 'Geq',
          'FormulaLt': 'Lt', 'FormulaLeq': 'Leq', 'FormulaAnd': 'And', 'FormulaOr': 'Or',
          'FormulaNot': 'Not', 'FormulaForall': 'Forall'}
ECELLS = {'Expression' + k: k for k in EKINDS}


class SymWorld(World):
    def __init__(self, prog, shallow=True):
        super().__init__(prog)
        th = self.th
        self.F = th.sort('F')
        self.E = th.sort('E')
        self.V = th.sort('V')
        self.Env = th.sort('Env')
        F, E, V, Env = self.F, self.E, self.V, self.Env
        self.scalar_types.update({'Formula': F, 'Expression': E, 'Variable': V})
        for c in list(FCELLS) + ['FormulaCell', 'RelationalFormulaCell', 'NaryFormulaCell']:
            self.scalar_types[c] = F
        for c in list(ECELLS) + ['ExpressionCell', 'UnaryExpressionCell', 'BinaryExpressionCell']:
            self.scalar_types[c] = E
        self.cont_types['Variables'] = ('set', ('z', V), False)
        self.cont_types['Environment'] = ('map', ('z', V), ('z', R), True)
        self.SF = th.set_of(F)
        self.SV = th.set_of(V)
        self.QF = th.seq_of(F)
        self.MED = th.map_of(E, R)
        self.MEE = th.map_of(E, E)
        self.KF = {k: self._enum('FormulaKind', k) for k in FKINDS}
        self.KE = {k: self._enum('ExpressionKind', k) for k in EKINDS}
        self.VT = {k: self._enum('Variable::Type', k) for k in
                   ('CONTINUOUS', 'INTEGER', 'BINARY', 'BOOLEAN')}
        self._terms()
        self._formula_semantics()
        self._expression_semantics()
        self._accessors()
        self._constructors()
        self._variables()
        self.unary_kinds, self.binary_kinds = UNARY, BINARY
        self._registries()

    def _enum(self, t, k):
        for q, v in self.prog.enums.items():
            if q.endswith('::' + t + '::' + k):
                return v
        raise Unsupported('enum %s::%s' % (t, k))

    # ------------------------------------------------------------ terms
    def _terms(self):
        th, F, E, V, Env = self.th, self.F, self.E, self.V, self.Env
        fn = z3.Function
        self.kind = fn('kind', F, INT)
        self.ops_ = fn('ops', F, self.SF.sort)
        self.opnd = fn('opnd', F, F)
        self.lhs = fn('lhs', F, E)
        self.rhs = fn('rhs', F, E)
        self.fvar = fn('fvar', F, V)
        self.qvars = fn('qvars', F, self.SV.sort)
        self.qbody = fn('qbody', F, F)
        self.fT = z3.Const('mkTrue', F)
        self.fF = z3.Const('mkFalse', F)
        self.mkVar = fn('mkVar', V, F)
        self.mkRel = fn('mkRel', INT, E, E, F)
        self.mkAnd = fn('mkAnd', self.SF.sort, F)
        self.mkOr = fn('mkOr', self.SF.sort, F)
        self.mkNot = fn('mkNot', F, F)
        self.mkForall = fn('mkForall', self.SV.sort, F, F)
        self.vtype = fn('vtype', V, INT)
        self.vid = fn('vid', V, INT)
        f, g = z3.Consts('f g', F)
        v, w = z3.Consts('v w', V)
        a, b = z3.Consts('a b', E)
        s = z3.Const('s', self.SF.sort)
        vs = z3.Const('vs', self.SV.sort)
        k = z3.Int('k')
        K = self.KF
        A, all_ = th.ax, th.forall
        A('kind.range', all_([f], z3.Or(*[self.kind(f) == K[x] for x in FKINDS]), [self.kind(f)]))
        A('kind.TF', z3.And(self.kind(self.fT) == K['True'], self.kind(self.fF) == K['False']))
        A('mkVar', all_([v], z3.Implies(self.vtype(v) == self.VT['BOOLEAN'], z3.And(
            self.kind(self.mkVar(v)) == K['Var'], self.fvar(self.mkVar(v)) == v)),
            [self.mkVar(v)]))
        A('mkRel', all_([k, a, b], z3.Implies(
            z3.And(k >= K['Eq'], k <= K['Leq']),
            z3.And(self.kind(self.mkRel(k, a, b)) == k, self.lhs(self.mkRel(k, a, b)) == a,
                   self.rhs(self.mkRel(k, a, b)) == b)), [self.mkRel(k, a, b)]))
        # cells exist only for operands that satisfy the representation invariants
        self.okops = {}
        for nm in ('And', 'Or'):
            self.okops[nm] = self.SF.fold_all('okops' + nm, lambda x, nm=nm: z3.And(
                self.kind(x) != K[nm], self.kind(x) != K['True'], self.kind(x) != K['False']))
        A('mkAnd', all_([s], z3.Implies(
            z3.And(self.SF.card(s) >= 2, self.okops['And'](s)),
            z3.And(self.kind(self.mkAnd(s)) == K['And'],
                   self.ops_(self.mkAnd(s)) == s)), [self.mkAnd(s)]))
        A('mkOr', all_([s], z3.Implies(
            z3.And(self.SF.card(s) >= 2, self.okops['Or'](s)),
            z3.And(self.kind(self.mkOr(s)) == K['Or'],
                   self.ops_(self.mkOr(s)) == s)), [self.mkOr(s)]))
        A('mkNot', all_([f], z3.Implies(
            z3.And(self.kind(f) != K['Not'], self.kind(f) != K['True'],
                   self.kind(f) != K['False']),
            z3.And(self.kind(self.mkNot(f)) == K['Not'],
                   self.opnd(self.mkNot(f)) == f)), [self.mkNot(f)]))
        A('mkForall', all_([vs, f], z3.And(
            self.kind(self.mkForall(vs, f)) == K['Forall'],
            self.qvars(self.mkForall(vs, f)) == vs,
            self.qbody(self.mkForall(vs, f)) == f), [self.mkForall(vs, f)]))
        # structural equality: a formula is determined by its kind and parts
        A('eta', all_([f], z3.And(
            z3.Implies(self.kind(f) == K['True'], f == self.fT),
            z3.Implies(self.kind(f) == K['False'], f == self.fF)), [self.kind(f)]))
        A('eta.Not', all_([f], z3.Implies(self.kind(f) == K['Not'],
                                          f == self.mkNot(self.opnd(f))), [self.opnd(f)]))
        A('eta.Var', all_([f], z3.Implies(self.kind(f) == K['Var'],
                                          f == self.mkVar(self.fvar(f))), [self.fvar(f)]))
        # representation invariants of stored cells (obligations at every
        # `new Formula...`, see P06)
        A('inv.nary', all_([f], z3.Implies(
            z3.Or(self.kind(f) == K['And'], self.kind(f) == K['Or']),
            self.SF.card(self.ops_(f)) >= 2), [self.ops_(f)]))
        A('inv.flat', all_([f, g], z3.Implies(
            z3.And(self.SF.mem(g, self.ops_(f)),
                   z3.Or(self.kind(f) == K['And'], self.kind(f) == K['Or'])),
            z3.And(self.kind(g) != self.kind(f), self.kind(g) != K['True'],
                   self.kind(g) != K['False'])), [self.SF.mem(g, self.ops_(f))]))
        A('inv.not', all_([f], z3.Implies(
            self.kind(f) == K['Not'],
            z3.And(self.kind(self.opnd(f)) != K['Not'], self.kind(self.opnd(f)) != K['True'],
                   self.kind(self.opnd(f)) != K['False'])), [self.opnd(f)]))
        A('inv.fvar', all_([f], z3.Implies(
            self.kind(f) == K['Var'], self.vtype(self.fvar(f)) == self.VT['BOOLEAN']),
            [self.fvar(f)]))
        # variables are identified by their id
        A('vid', all_([v, w], z3.Implies(self.vid(v) == self.vid(w), v == w),
                      [(self.vid(v), self.vid(w))]))
        A('vtype', all_([v], z3.Or(*[self.vtype(v) == x for x in self.VT.values()]),
                        [self.vtype(v)]))

    def isrel(self, k):
        return z3.And(k >= self.KF['Eq'], k <= self.KF['Leq'])

    # ------------------------------------------------------------ semantics
    def _formula_semantics(self):
        th, F, E, V, Env = self.th, self.F, self.E, self.V, self.Env
        K = self.KF
        self.holds = z3.Function('holds', F, Env, B)
        self.val = z3.Function('val', E, Env, R)
        self.bval = z3.Function('bval', Env, V, B)
        self.rval = z3.Function('rval', Env, V, R)
        self.agree = z3.Function('agree', Env, Env, self.SV.sort, B)
        f = z3.Const('f', F)
        e, e2 = z3.Consts('e e2', Env)
        vs = z3.Const('vs', self.SV.sort)
        v = z3.Const('v', V)
        h = self.holds
        self.allh = self.SF.fold_all('allh', lambda x, en: h(x, en), (Env,))
        self.noneh = self.SF.fold_all('noneh', lambda x, en: z3.Not(h(x, en)), (Env,))
        self.qallh = self.QF.fold_all('qallh', lambda x, en: h(x, en), (Env,))
        self.qnoneh = self.QF.fold_all('qnoneh', lambda x, en: z3.Not(h(x, en)), (Env,))
        L, Rr = self.val(self.lhs(f), e), self.val(self.rhs(f), e)
        k = self.kind(f)
        cases = [('False', z3.BoolVal(False)), ('True', z3.BoolVal(True)),
                 ('Var', self.bval(e, self.fvar(f))), ('Eq', L == Rr), ('Neq', L != Rr),
                 ('Gt', L > Rr), ('Geq', L >= Rr), ('Lt', L < Rr), ('Leq', L <= Rr),
                 ('And', self.allh(self.ops_(f), e)),
                 ('Or', z3.Not(self.noneh(self.ops_(f), e))),
                 ('Not', z3.Not(h(self.opnd(f), e)))]
        up = {'And': self.allh(self.ops_(f), e), 'Or': self.noneh(self.ops_(f), e)}
        for n, d in cases:
            th.ax('holds.' + n, th.forall([f, e], z3.Implies(k == K[n], h(f, e) == d),
                                          [(h(f, e), k)] + ([] if n not in up else [up[n]])))
        # forall: every assignment that differs at most on the bound variables
        th.ax('holds.forall', th.forall([f, e, e2], z3.Implies(
            z3.And(k == K['Forall'], h(f, e), self.agree(e, e2, self.qvars(f))),
            h(self.qbody(f), e2)), [(h(f, e), self.agree(e, e2, self.qvars(f)))]))
        self.fcex = z3.Function('fcex', F, Env, Env)
        c = self.fcex(f, e)
        th.ax('holds.forall2', th.forall([f, e], z3.Implies(
            k == K['Forall'], z3.Or(h(f, e), z3.And(
                self.agree(e, c, self.qvars(f)), z3.Not(h(self.qbody(f), c))))),
            [(h(f, e), k)]))
        th.ax('agree', th.forall([e, e2, vs, v], z3.Implies(
            z3.And(self.agree(e, e2, vs), z3.Not(self.SV.mem(v, vs))),
            z3.And(self.bval(e, v) == self.bval(e2, v), self.rval(e, v) == self.rval(e2, v))),
            [(self.agree(e, e2, vs), self.bval(e2, v)), (self.agree(e, e2, vs), self.rval(e2, v))]))
        # structure helpers
        self.cj = z3.Function('conjuncts', F, self.SF.sort)
        self.dj = z3.Function('disjuncts', F, self.SF.sort)
        one = self.SF.ins(self.SF.empty, f)
        th.ax('cj', th.forall([f], self.cj(f) == z3.If(k == K['And'], self.ops_(f), one), [self.cj(f)]))
        th.ax('dj', th.forall([f], self.dj(f) == z3.If(k == K['Or'], self.ops_(f), one), [self.dj(f)]))
        s = z3.Const('s', self.SF.sort)
        g, x = z3.Consts('g x', F)
        self.flat, self.flatsrc = {}, {}
        for nm, part in (('cj', self.cj), ('dj', self.dj)):
            fl = z3.Function('flat_' + nm, self.SF.sort, self.SF.sort)
            sr = z3.Function('flatsrc_' + nm, F, self.SF.sort, F)
            self.flat[nm], self.flatsrc[nm] = fl, sr
            th.ax('flat_' + nm, th.forall([g, s], z3.Implies(
                self.SF.mem(g, fl(s)), z3.And(
                    self.SF.mem(sr(g, s), s), self.SF.mem(g, part(sr(g, s))))),
                [self.SF.mem(g, fl(s))]))
            th.ax('flat2_' + nm, th.forall([g, s, x], z3.Implies(
                z3.And(self.SF.mem(x, s), self.SF.mem(g, part(x))), self.SF.mem(g, fl(s))),
                [(fl(s), self.SF.mem(x, s), self.SF.mem(g, part(x)))]))
            th.ax('flat3_' + nm, th.forall([g, s, x], z3.Implies(
                z3.And(self.SF.mem(x, s), self.kind(x) == K['And' if nm == 'cj' else 'Or'],
                       self.SF.mem(g, self.ops_(x))), self.SF.mem(g, fl(s))),
                [(fl(s), self.SF.mem(x, s), self.SF.mem(g, self.ops_(x)))]))
            th.ax('flat4_' + nm, th.forall([s, x], z3.Implies(
                z3.And(self.SF.mem(x, s), self.kind(x) != K['And' if nm == 'cj' else 'Or']),
                self.SF.mem(x, fl(s))), [(fl(s), self.SF.mem(x, s))]))

    def _expression_semantics(self):
        th, F, E, V, Env = self.th, self.F, self.E, self.V, self.Env
        fn = z3.Function
        self.ekind = fn('ekind', E, INT)
        self.cval = fn('cval', E, R)
        self.rclb = fn('rclb', E, R)
        self.rcub = fn('rcub', E, R)
        self.rcuse = fn('rcuse', E, B)
        self.evar = fn('evar', E, V)
        self.c0 = fn('c0', E, R)
        self.amap = fn('amap', E, self.MED.sort)
        self.mmap = fn('mmap', E, self.MEE.sort)
        self.arg = fn('arg', E, E)
        self.arg1 = fn('arg1', E, E)
        self.arg2 = fn('arg2', E, E)
        self.icond = fn('icond', E, F)
        self.ithen = fn('ithen', E, E)
        self.ielse = fn('ielse', E, E)
        self.ufname = fn('ufname', E, z3.StringSort())
        self.ufvars = fn('ufvars', E, self.SV.sort)
        self.mkC = fn('mkC', R, E)
        self.mkEV = fn('mkEV', V, E)
        self.fn1 = {k: fn('f_' + k, R, R) for k in UNARY if k not in ('Abs',)}
        self.powf = fn('f_Pow', R, R, R)
        self.atan2f = fn('f_Atan2', R, R, R)
        self.divf = fn('f_Div', R, R, R)
        x, y = z3.Reals('x y')
        e = z3.Const('e', E)
        v = z3.Const('v', V)
        en = z3.Const('en', Env)
        K = self.KE
        k = self.ekind(e)
        th.ax('ekind.range', th.forall([e], z3.Or(*[k == K[q] for q in EKINDS]), [k]))
        th.ax('mkC', th.forall([x], z3.And(self.ekind(self.mkC(x)) == K['Constant'],
                                           self.cval(self.mkC(x)) == x), [self.mkC(x)]))
        th.ax('mkC.eta', th.forall([e], z3.Implies(k == K['Constant'], e == self.mkC(self.cval(e))),
                                   [self.cval(e)]))
        th.ax('mkEV', th.forall([v], z3.And(self.ekind(self.mkEV(v)) == K['Var'],
                                            self.evar(self.mkEV(v)) == v), [self.mkEV(v)]))
        th.ax('mkEV.eta', th.forall([e], z3.Implies(k == K['Var'], e == self.mkEV(self.evar(e))),
                                    [self.evar(e)]))
        th.ax('div', th.forall([x, y], z3.Implies(y != 0, self.divf(x, y) * y == x),
                               [self.divf(x, y)]))
        val = self.val
        self.vsum = self.MED.fold_sum('vsum', lambda a, c, n: c * val(a, n), (Env,))
        self.vprod = self.MEE.fold_sum('vprod', lambda a, b, n: self.powf(val(a, n), val(b, n)),
                                       (Env,), z3.RealVal(1), lambda p, q: p * q)
        va = val(self.arg(e), en)
        v1, v2 = val(self.arg1(e), en), val(self.arg2(e), en)
        cases = [('Constant', self.cval(e)), ('Var', self.rval(en, self.evar(e))),
                 ('Add', self.c0(e) + self.vsum(self.amap(e), en)),
                 ('Mul', self.c0(e) * self.vprod(self.mmap(e), en)),
                 ('Abs', z3.If(va >= 0, va, -va)),
                 ('Div', self.divf(v1, v2)), ('Pow', self.powf(v1, v2)),
                 ('Atan2', self.atan2f(v1, v2)), ('Min', z3.If(v2 < v1, v2, v1)),
                 ('Max', z3.If(v1 < v2, v2, v1)),
                 ('IfThenElse', z3.If(self.holds(self.icond(e), en), val(self.ithen(e), en),
                                      val(self.ielse(e), en)))]
        cases += [(q, self.fn1[q](va)) for q in self.fn1]
        for q, d in cases:
            th.ax('val.' + q, th.forall([e, en], z3.Implies(k == K[q], val(e, en) == d),
                                        [(val(e, en), k)]))
        self.val_cases = dict(cases)

    # ------------------------------------------------------------ helpers
    def lv(self, I, a):
        return I.load(a) if isinstance(a, Ref) else a

    def asF(self, I, a):
        """Argument as a Formula (Variables convert implicitly)."""
        v = self.lv(I, a)
        if z3.is_expr(v) and v.sort() == self.V:
            I.oblige(self.vtype(v) == self.VT['BOOLEAN'], 'Formula(Variable): Boolean variable')
            return self.mkVar(v)
        if z3.is_expr(v) and v.sort() == self.F:
            return v
        raise Unsupported('not a formula: %r' % (v,))

    def asE(self, I, a):
        v = self.lv(I, a)
        if z3.is_expr(v):
            if v.sort() == self.E:
                return v
            if v.sort() == self.V:
                return self.mkEV(v)
            if v.sort() == R:
                return self.mkC(v)
            if v.sort() == INT:
                return self.mkC(z3.ToReal(v))
        raise Unsupported('not an expression: %r' % (v,))

    def sortof(self, I, a):
        v = self.lv(I, a)
        if z3.is_expr(v):
            return v.sort()
        return None

    def forall_env(self, fn, *pats):
        en = z3.Const('en', self.Env)
        return z3.ForAll([en], fn(en), patterns=[p(en) for p in pats])

    # ------------------------------------------------------------ accessors
    def _accessors(self):
        KF, KE = self.KF, self.KE
        F, E = self.F, self.E

        def kindtest(name, fks=(), eks=()):
            def c(I, this, args, n):
                v = self.lv(I, args[0])
                if v.sort() == F:
                    if not fks:
                        raise Unsupported(name)
                    return z3.Or(*[self.kind(v) == KF[k] for k in fks])
                if v.sort() == E:
                    if not eks:
                        raise Unsupported(name)
                    return z3.Or(*[self.ekind(v) == KE[k] for k in eks])
                raise Unsupported(name)
            self.contracts[S_ + name] = c
        for nm, k in (('is_false', 'False'), ('is_true', 'True'), ('is_equal_to', 'Eq'),
                      ('is_not_equal_to', 'Neq'), ('is_greater_than', 'Gt'),
                      ('is_greater_than_or_equal_to', 'Geq'), ('is_less_than', 'Lt'),
                      ('is_less_than_or_equal_to', 'Leq'), ('is_conjunction', 'And'),
                      ('is_disjunction', 'Or'), ('is_negation', 'Not'), ('is_forall', 'Forall')):
            kindtest(nm, (k,))
        kindtest('is_relational', ('Eq', 'Neq', 'Gt', 'Geq', 'Lt', 'Leq'))
        kindtest('is_nary', ('And', 'Or'))
        kindtest('is_variable', ('Var',), ('Var',))
        for nm, k in (('is_real_constant', 'RealConstant'), ('is_addition', 'Add'),
                      ('is_multiplication', 'Mul'), ('is_division', 'Div'),
                      ('is_if_then_else', 'IfThenElse'), ('is_nan', 'NaN'),
                      ('is_uninterpreted_function', 'UninterpretedFunction')):
            kindtest(nm, (), (k,))
        for k in UNARY + ['Pow', 'Atan2', 'Min', 'Max']:
            kindtest('is_' + k.lower(), (), (k,))

        def is_constant(I, this, args, n):
            v = self.lv(I, args[0])
            c = self.ekind(v) == KE['Constant']
            if len(args) == 2:
                x = self.lv(I, args[1])
                return z3.And(c, self.cval(v) == x)
            return c
        self.contracts[S_ + 'is_constant'] = is_constant
        for nm, x in (('is_zero', 0), ('is_one', 1), ('is_neg_one', -1), ('is_two', 2)):
            self.contracts[S_ + nm] = (lambda x: lambda I, this, args, n: z3.And(
                self.ekind(self.lv(I, args[0])) == KE['Constant'],
                self.cval(self.lv(I, args[0])) == x))(x)

        def getter(name, alts):
            """alts: {sort: (kinds, function, kindfn, table)}"""
            def c(I, this, args, n):
                v = self.lv(I, args[0])
                if not z3.is_expr(v) or v.sort() not in alts:
                    raise Unsupported(name)
                kinds, fn, kf, tab = alts[v.sort()]
                I.oblige(z3.Or(*[kf(v) == tab[k] for k in kinds]),
                         '%s is called on a term of the right kind' % name)
                r = fn(v)
                return self.wrap_result(r)
            self.contracts[S_ + name] = c
        rel = ('Eq', 'Neq', 'Gt', 'Geq', 'Lt', 'Leq')

        def fa(kinds, fn):
            return {F: (kinds, fn, self.kind, KF)}

        def ea(kinds, fn):
            return {E: (kinds, fn, self.ekind, KE)}
        getter('get_lhs_expression', fa(rel, self.lhs))
        getter('get_rhs_expression', fa(rel, self.rhs))
        getter('get_operands', fa(('And', 'Or'), self.ops_))
        getter('get_operand', fa(('Not',), self.opnd))
        getter('get_quantified_variables', fa(('Forall',), self.qvars))
        getter('get_quantified_formula', fa(('Forall',), self.qbody))
        a = fa(('Var',), self.fvar)
        a.update(ea(('Var',), self.evar))
        getter('get_variable', a)
        getter('get_constant_value', ea(('Constant',), self.cval))
        getter('get_lb_of_real_constant', ea(('RealConstant',), self.rclb))
        getter('get_ub_of_real_constant', ea(('RealConstant',), self.rcub))
        getter('get_argument', ea(UNARY, self.arg))
        getter('get_first_argument', ea(BINARY, self.arg1))
        getter('get_second_argument', ea(BINARY, self.arg2))
        getter('get_constant_in_addition', ea(('Add',), self.c0))
        getter('get_expr_to_coeff_map_in_addition', ea(('Add',), self.amap))
        getter('get_constant_in_multiplication', ea(('Mul',), self.c0))
        getter('get_base_to_exponent_map_in_multiplication', ea(('Mul',), self.mmap))
        getter('get_conditional_formula', ea(('IfThenElse',), self.icond))
        getter('get_then_expression', ea(('IfThenElse',), self.ithen))
        getter('get_else_expression', ea(('IfThenElse',), self.ielse))
        getter('get_uninterpreted_function_name', ea(('UninterpretedFunction',), self.ufname))

        C = self.contracts
        C[S_ + 'Formula::get_kind'] = lambda I, t, a, n: self.kind(self.lv(I, t))
        C[S_ + 'Expression::get_kind'] = lambda I, t, a, n: self.ekind(self.lv(I, t))
        C[S_ + 'Formula::EqualTo'] = lambda I, t, a, n: self.lv(I, t) == self.lv(I, a[0])
        C[S_ + 'Expression::EqualTo'] = C[S_ + 'Formula::EqualTo']
        C[S_ + 'Variable::equal_to'] = C[S_ + 'Formula::EqualTo']
        C[S_ + 'Variable::get_type'] = lambda I, t, a, n: self.vtype(self.lv(I, t))
        C[S_ + 'Variable::get_id'] = lambda I, t, a, n: self.vid(self.lv(I, t))
        C[S_ + 'Variable::is_dummy'] = lambda I, t, a, n: self.vid(self.lv(I, t)) == 0
        C[S_ + 'Variable::less'] = lambda I, t, a, n: self.vid(self.lv(I, t)) < self.vid(self.lv(I, a[0]))
        opaque_str = lambda I, t, a, n: I.fresh(z3.StringSort(), 'str')
        for q in ('Formula::to_string', 'Expression::to_string', 'Variable::to_string',
                  'Variable::get_name'):
            C[S_ + q] = opaque_str
        self.contracts[S_ + 'operator<<'] = lambda I, t, a, n: a[0]
        C['dreal::log'] = lambda I, t, a, n: Obj('smart', {'ptr': I.alloc(Opaque('logger'))})

    def wrap_result(self, r):
        s = r.sort()
        for o in (self.SF, self.SV, self.MED, self.MEE):
            if s == o.sort:
                return Cont(o, r)
        return r

    # ------------------------------------------------------------ constructors
    def _constructors(self):
        C = self.contracts
        KF = self.KF
        h = self.holds
        SF = self.SF

        def binary(op):
            isand = op == 'And'
            part = self.cj if isand else self.dj

            def c(I, this, args, n):
                x, y = self.asF(I, args[0]), self.asF(I, args[1])
                return self.post_nary2(I, x, y, isand)
            return c
        C[S_ + 'operator&&'] = binary('And')
        C[S_ + 'operator||'] = binary('Or')
        C[S_ + 'detail::logic_and'] = binary('And')

        def neg(I, this, args, n):
            x = self.asF(I, args[0])
            return self.post_not(I, x)
        C[S_ + 'operator!'] = neg

        def nary(isand):
            def c(I, this, args, n):
                s = self.lv(I, args[0])
                if not isinstance(s, Cont):
                    raise Unsupported('make_conjunction')
                if s.ops is SF:
                    return self.post_nary(I, s.term, isand)
                raise Unsupported('make_conjunction of %s' % s.ops.kind)
            return c
        C[S_ + 'make_conjunction'] = nary(True)
        C[S_ + 'make_disjunction'] = nary(False)

        def rel(op, kname):
            def c(I, this, args, n):
                s0, s1 = self.sortof(I, args[0]), self.sortof(I, args[1])
                if self.F in (s0, s1) or (s0 == self.V and s1 == self.V and op in ('==', '!=')
                                          and self.bool_vars(I, args)):
                    x, y = self.asF(I, args[0]), self.asF(I, args[1])
                    r = I.fresh(self.F, 'r')
                    self.assume_facts(I, self.facts_boolrel(r, op, x, y))
                    return r
                x, y = self.asE(I, args[0]), self.asE(I, args[1])
                return self.post_rel(I, op, x, y)
            return c
        for op, k in (('==', 'Eq'), ('!=', 'Neq'), ('<', 'Lt'), ('<=', 'Leq'), ('>', 'Gt'),
                      ('>=', 'Geq')):
            C[S_ + 'operator' + op] = rel(op, k)

        C[S_ + 'Formula::True'] = lambda I, t, a, n: self.fT
        C[S_ + 'Formula::False'] = lambda I, t, a, n: self.fF

        def forall(I, this, args, n):
            vs, f = self.lv(I, args[0]), self.asF(I, args[1])
            return self.post_forall(I, vs.term, f)
        C[S_ + 'forall'] = forall

        def arith(op):
            def c(I, this, args, n):
                if len(args) == 1:
                    x = self.asE(I, args[0])
                    if op == '+':
                        return x
                    return self.post_arith(I, 'neg', x, None)
                return self.post_arith(I, op, self.asE(I, args[0]), self.asE(I, args[1]))
            return c
        for op in '+-*/':
            C[S_ + 'operator' + op] = arith(op)

        def compound(op):
            def c(I, this, args, n):
                x, y = self.asE(I, args[0]), self.asE(I, args[1])
                r = self.post_arith(I, op, x, y)
                I.store(args[0], r)
                return args[0]
            return c
        for op in '+-*/':
            C[S_ + 'operator' + op + '='] = compound(op)
        for k in UNARY:
            C[S_ + k.lower()] = (lambda k: lambda I, t, a, n: self.post_arith(
                I, k, self.asE(I, a[0]), None))(k)
        for k in ('Pow', 'Atan2', 'Min', 'Max'):
            C[S_ + k.lower()] = (lambda k: lambda I, t, a, n: self.post_arith(
                I, k, self.asE(I, a[0]), self.asE(I, a[1])))(k)

        def ite(I, this, args, n):
            c, a, b = self.asF(I, args[0]), self.asE(I, args[1]), self.asE(I, args[2])
            r = I.fresh(self.E, 'ite')
            self.assume_facts(I, self.facts_ite(r, c, a, b))
            self.post_expr(I, r, [a, b], [c])
            return r
        C[S_ + 'if_then_else'] = ite
        C[S_ + 'Expression::Zero'] = lambda I, t, a, n: self.mkC(z3.RealVal(0))
        C[S_ + 'Expression::One'] = lambda I, t, a, n: self.mkC(z3.RealVal(1))

    def bool_vars(self, I, args):
        v = self.lv(I, args[0])
        return I.branch(self.vtype(v) == self.VT['BOOLEAN'])

    # Each facts_* is the postcondition of a constructor: assumed by its callers
    # (post_*) and obliged where the real constructor is verified (P06-P08).
    def facts_nary2(self, r, x, y, isand):
        h, SF = self.holds, self.SF
        part = self.cj if isand else self.dj
        K = self.KF['And' if isand else 'Or']
        zero = self.fF if isand else self.fT
        unit = self.fT if isand else self.fF
        g = z3.Const('g', self.F)
        inner = z3.ForAll([g], SF.mem(g, self.ops_(r)) == z3.Or(
            SF.mem(g, part(x)), SF.mem(g, part(y))), patterns=[SF.mem(g, self.ops_(r))])
        return [('the result means the connective of the operands',
                 self.forall_env(lambda en: h(r, en) == (z3.And if isand else z3.Or)(
                     h(x, en), h(y, en)), lambda en: h(r, en))),
                ('the result is the flattened, simplified connective',
                 z3.If(z3.Or(x == zero, y == zero), r == zero,
                       z3.If(x == unit, r == y, z3.If(y == unit, r == x, z3.If(
                           x == y, r == x, z3.And(self.kind(r) == K, inner))))))]

    def facts_nary(self, r, S, isand):
        h, SF = self.holds, self.SF
        fold = self.allh if isand else self.noneh
        fl = self.flat['cj' if isand else 'dj']
        K = self.KF['And' if isand else 'Or']
        zero = self.fF if isand else self.fT
        unit = self.fT if isand else self.fF
        g = z3.Const('g', self.F)
        return [('the result means the connective of the members',
                 self.forall_env(lambda en: h(r, en) == (
                     fold(S, en) if isand else z3.Not(fold(S, en))), lambda en: h(r, en))),
                ('the result is built from the members and their operands',
                 z3.Or(r == zero, r == unit, SF.mem(r, S), SF.mem(r, fl(S)), z3.And(
                     self.kind(r) == K, z3.ForAll([g], z3.Implies(
                         SF.mem(g, self.ops_(r)), SF.mem(g, fl(S))),
                         patterns=[SF.mem(g, self.ops_(r))])))),
                ('the result is absorbed only by a member',
                 z3.Implies(r == zero, SF.mem(zero, S)))]

    def facts_not(self, r, x):
        K = self.KF
        return [('the result is the simplified negation',
                 z3.If(x == self.fT, r == self.fF, z3.If(x == self.fF, r == self.fT, z3.If(
                     self.kind(x) == K['Not'], r == self.opnd(x), r == self.mkNot(x))))),
                ('the result means the negation',
                 self.forall_env(lambda en: self.holds(r, en) == z3.Not(self.holds(x, en)),
                                 lambda en: self.holds(r, en)))]

    REL = {'==': ('Eq', lambda a, b: a == b), '!=': ('Neq', lambda a, b: a != b),
           '<': ('Lt', lambda a, b: a < b), '<=': ('Leq', lambda a, b: a <= b),
           '>': ('Gt', lambda a, b: a > b), '>=': ('Geq', lambda a, b: a >= b)}

    def facts_rel(self, r, op, x, y):
        k, fn = self.REL[op]
        return [('the result means the comparison of the two values',
                 self.forall_env(lambda en: self.holds(r, en) == fn(
                     self.val(x, en), self.val(y, en)), lambda en: self.holds(r, en))),
                ('the result is a constant or this comparison',
                 z3.Or(r == self.fT, r == self.fF, r == self.mkRel(self.KF[k], x, y)))]

    def facts_boolrel(self, r, op, x, y):
        h = self.holds
        return [('the result means the (in)equality of the truth values',
                 self.forall_env(lambda en: h(r, en) == (
                     (h(x, en) == h(y, en)) if op == '==' else (h(x, en) != h(y, en))),
                     lambda en: h(r, en)))]

    def facts_forall(self, r, vs, f):
        """forall() keeps only the bound variables that are free in f."""
        g = self.mkForall(vs, f)
        return [('the result means the quantification',
                 self.forall_env(lambda en: self.holds(r, en) == self.holds(g, en),
                                 lambda en: self.holds(r, en))),
                ('the result quantifies that body', z3.And(
                    self.kind(r) == self.KF['Forall'], self.qbody(r) == f))]

    def facts_arith(self, r, op, x, y):
        v = self.val
        return [('the value is the operation applied to the operand values', self.forall_env(
            lambda en: v(r, en) == self.arith(op, v(x, en), v(y, en) if y is not None else None),
            lambda en: v(r, en)))]

    def facts_ite(self, r, c, a, b):
        return [('the value is that of the selected branch', self.forall_env(
            lambda en: self.val(r, en) == z3.If(
                self.holds(c, en), self.val(a, en), self.val(b, en)), lambda en: self.val(r, en)))]

    def arith(self, op, a, b):
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            return self.divf(a, b)
        if op == 'neg':
            return -a
        if op == 'Abs':
            return z3.If(a >= 0, a, -a)
        if op == 'Pow':
            return self.powf(a, b)
        if op == 'Atan2':
            return self.atan2f(a, b)
        if op == 'Min':
            return z3.If(b < a, b, a)
        if op == 'Max':
            return z3.If(a < b, b, a)
        return self.fn1[op](a)

    def assume_facts(self, I, facts):
        for _n, f in facts:
            I.assume(f)

    def oblige_facts(self, I, facts):
        for n, f in facts:
            I.oblige(f, n)

    def post_nary2(self, I, x, y, isand):
        r = I.fresh(self.F, 'r')
        self.assume_facts(I, self.facts_nary2(r, x, y, isand))
        self.post_formula(I, r, [x, y], 'nary2')
        return r

    def post_nary(self, I, S, isand):
        r = I.fresh(self.F, 'r')
        self.assume_facts(I, self.facts_nary(r, S, isand))
        self.nary_set = S
        self.post_formula(I, r, [], 'nary')
        return r

    def post_not(self, I, x):
        r = I.fresh(self.F, 'r')
        self.assume_facts(I, self.facts_not(r, x))
        self.post_formula(I, r, [x], 'not')
        return r

    def post_rel(self, I, op, x, y):
        r = I.fresh(self.F, 'r')
        self.assume_facts(I, self.facts_rel(r, op, x, y))
        self.post_formula(I, r, [], 'rel', [x, y])
        return r

    def post_forall(self, I, vs, f):
        r = I.fresh(self.F, 'r')
        self.assume_facts(I, self.facts_forall(r, vs, f))
        self.forall_vars = vs
        self.post_formula(I, r, [f], 'forall')
        return r

    def post_arith(self, I, op, x, y):
        r = I.fresh(self.E, 'e')
        self.assume_facts(I, self.facts_arith(r, op, x, y))
        self.post_expr(I, r, [z for z in (x, y) if z is not None], [])
        return r

    # hooks for per-property structural facts about results
    def post_formula(self, I, r, parts, how, exprs=()):
        for hk in getattr(self, 'formula_hooks', ()):
            hk(I, r, parts, how, exprs)

    def post_expr(self, I, r, parts, forms):
        for hk in getattr(self, 'expr_hooks', ()):
            hk(I, r, parts, forms)

    # class construction
    def ctor_Formula(self, I, n, t, args, ct):
        a = [self.lv(I, x) for x in args]
        if not a:
            return self.fT
        if len(a) == 1 and z3.is_expr(a[0]) and a[0].sort() == self.V:
            return self.asF(I, a[0])
        if len(a) == 1 and z3.is_expr(a[0]) and a[0].sort() == self.F:
            return a[0]
        return None

    def ctor_Expression(self, I, n, t, args, ct):
        a = [self.lv(I, x) for x in args]
        if not a:
            return self.mkC(z3.RealVal(0))
        if len(a) == 1:
            return self.asE(I, a[0])
        return None

    def ctor_Variables(self, I, n, t, args, ct):
        a = [self.lv(I, x) for x in args]
        if not a:
            return Cont(self.SV, self.SV.empty)
        if len(a) == 1 and isinstance(a[0], Cont):
            return a[0]
        if len(a) == 1 and isinstance(a[0], Obj) and a[0].cls == 'initlist':
            return self.fill(I, self.cont_types['Variables'], a[0].fields['items'])
        return None

    def ctor_Variable(self, I, n, t, args, ct):
        """Variable(name, type): a variable that did not exist before."""
        a = [self.lv(I, x) for x in args]
        if len(a) == 1 and z3.is_expr(a[0]) and a[0].sort() == self.V:
            return a[0]
        v = I.fresh(self.V, 'newvar')
        ty = z3.IntVal(self.VT['CONTINUOUS'])
        if len(a) >= 2 and z3.is_expr(a[1]) and a[1].sort() == INT:
            ty = a[1]
        if a:
            I.assume(self.vtype(v) == ty)
            I.assume(self.vid(v) != 0)
            self.fresh_variable(I, v)
        else:
            I.assume(self.vid(v) == 0)
        return v

    ordered_variables = False

    def map_default(self, I, o):
        if o.T == self.F:
            return self.fT
        if o.T == self.E:
            return self.mkC(z3.RealVal(0))
        return super().map_default(I, o)

    def on_element(self, I, it, x):
        """A set of variables is walked in increasing order of their ids."""
        if self.ordered_variables and it.snap.ops is self.SV:
            y = z3.Const('oy', self.V)
            S, P = it.snap.term, it.p
            if not P.eq(self.SV.empty):
                I.assume(z3.ForAll([y], z3.Implies(self.SV.mem(y, P), self.vid(y) < self.vid(x)),
                                   patterns=[self.SV.mem(y, P)]))
            I.assume(z3.ForAll([y], z3.Implies(
                self.SV.mem(y, S), z3.Or(self.SV.mem(y, P), self.vid(y) >= self.vid(x))),
                patterns=[self.SV.mem(y, S)]))

    def fresh_variable(self, I, v):
        for hk in getattr(self, 'fresh_hooks', ()):
            hk(I, v)

    def default_term(self, I, sort, t):
        if sort == self.F:
            return self.fT
        if sort == self.E:
            return self.mkC(z3.RealVal(0))
        if sort == self.V:
            v = I.fresh(self.V, 'dummy')
            I.assume(self.vid(v) == 0)
            return v
        return None

    # ------------------------------------------------------------ Variables
    def _variables(self):
        C = self.contracts
        SV = self.SV
        p = S_ + 'Variables::'

        def cv(I, x):
            v = self.lv(I, x)
            return v

        C[p + 'begin'] = C[p + 'cbegin'] = lambda I, t, a, n: I.begin(t)
        C[p + 'end'] = C[p + 'cend'] = lambda I, t, a, n: I.end(t)
        C[p + 'size'] = lambda I, t, a, n: SV.card(cv(I, t).term)
        C[p + 'empty'] = lambda I, t, a, n: cv(I, t).term == SV.empty
        C[p + 'include'] = lambda I, t, a, n: SV.mem(cv(I, a[0]), cv(I, t).term)

        def insert(I, t, a, n):
            c, x = cv(I, t), cv(I, a[0])
            if isinstance(x, Cont):
                I.store(t, Cont(SV, SV.uni(c.term, x.term)))
            elif isinstance(x, IterV):
                self.copy_range(I, n, x, cv(I, a[1]), lambda y: self.cont_add(I, t, y))
            else:
                I.store(t, Cont(SV, SV.ins(c.term, x)))
            return None
        C[p + 'insert'] = insert

        def binv(name):
            def c(I, t, a, n):
                args = ([t] if t is not None else []) + list(a)
                x, y = cv(I, args[0]), cv(I, args[1])
                xt = x.term if isinstance(x, Cont) else SV.ins(SV.empty, x)
                yt = y.term if isinstance(y, Cont) else SV.ins(SV.empty, y)
                v = z3.Const('v', self.V)
                r = I.fresh(SV.sort, 'vars')
                m = {'+': z3.Or(SV.mem(v, xt), SV.mem(v, yt)),
                     '-': z3.And(SV.mem(v, xt), z3.Not(SV.mem(v, yt))),
                     'i': z3.And(SV.mem(v, xt), SV.mem(v, yt))}[name[0]]
                I.assume(z3.ForAll([v], SV.mem(v, r) == m, patterns=[SV.mem(v, r)]))
                if name.endswith('='):
                    I.store(args[0], Cont(SV, r))
                    return args[0]
                return Cont(SV, r)
            return c
        self.vars_ops = {'+': binv('+'), '-': binv('-'), '+=': binv('+='), '-=': binv('-=')}
        C[S_ + 'intersect'] = binv('i')
        # operators shared with expressions: dispatch on the operand sorts
        for op in ('+', '-', '+=', '-='):
            old = C[S_ + 'operator' + op]

            def disp(I, t, a, n, old=old, op=op):
                args = ([t] if t is not None else []) + list(a)
                if args and isinstance(self.lv(I, args[0]), Cont):
                    return self.vars_ops[op](I, t, a, n)
                return old(I, None, args, n)
            C[S_ + 'operator' + op] = disp
        for nm, strict in (('IsSubsetOf', 0), ('IsSupersetOf', 1)):
            def sub(I, t, a, n, sup=strict):
                x, y = cv(I, t).term, cv(I, a[0]).term
                if sup:
                    x, y = y, x
                v = z3.Const('v', self.V)
                b = I.fresh(B, 'subset')
                I.assume(b == z3.ForAll([v], z3.Implies(SV.mem(v, x), SV.mem(v, y)),
                                        patterns=[SV.mem(v, x)]))
                return b
            C[p + nm] = sub

        # free variables
        self.fv = z3.Function('fv', self.F, SV.sort)
        self.efv = z3.Function('efv', self.E, SV.sort)
        self.hasite = z3.Function('hasite', self.F, B)
        self.ehasite = z3.Function('ehasite', self.E, B)
        C[S_ + 'Formula::GetFreeVariables'] = lambda I, t, a, n: Cont(SV, self.fv(self.lv(I, t)))
        C[S_ + 'Expression::GetVariables'] = lambda I, t, a, n: Cont(SV, self.efv(self.lv(I, t)))
        C[S_ + 'Formula::include_ite'] = lambda I, t, a, n: self.hasite(self.lv(I, t))
        C[S_ + 'Expression::include_ite'] = lambda I, t, a, n: self.ehasite(self.lv(I, t))

    # ------------------------------------------------------------ templates
    def _registries(self):
        h, Env = self.holds, self.Env
        sfn, qfn = self.SF.sort.name(), self.QF.sort.name()
        self.acc['F'] = [('holds', lambda t, en: h(t, en), (Env,))]
        self.acc[sfn] = [('allh', self.allh, (Env,)), ('noneh', self.noneh, (Env,))]
        self.acc[qfn] = [('allh', self.qallh, (Env,)), ('noneh', self.qnoneh, (Env,))]
        neg = lambda fn: (lambda t, en: z3.Not(fn(t, en)))
        self.proc[sfn] = [('allh', self.allh, (Env,)), ('noneh', self.noneh, (Env,)),
                          ('someh', neg(self.noneh), (Env,)), ('notallh', neg(self.allh), (Env,))]
        self.proc[qfn] = [('allh', self.qallh, (Env,)), ('noneh', self.qnoneh, (Env,)),
                          ('someh', neg(self.qnoneh), (Env,)), ('notallh', neg(self.qallh), (Env,))]
        self.accreal['E'] = [('val', lambda t, en: self.val(t, en), (Env,))]
        self.procreal[self.MED.sort.name()] = [('vsum', self.vsum, (Env,))]
        self.procreal[self.MEE.sort.name()] = [('vprod', self.vprod, (Env,))]
