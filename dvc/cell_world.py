"""Cell level: the library's own constructors, accessors and cells.

A handle (`Formula`, `Expression`) and the cell behind it are the same term of
sort F (E): cells are immutable after construction (P09), so reading a cell
through a handle is a function of the term.  Fields of cells are those
functions; `new FormulaX(...)` runs the real constructor of the cell class and
turns the record that it leaves into a term, after obliging the representation
invariant of that class.  Pointers to cells are records with a `ptr` reference;
pointer equality is only known to imply equality of the terms.
"""
import re

import z3

from .interp import (Cont, CppThrow, Infeasible, IterV, NULL, Obj, Opaque, Ref, Unsupported,
                     norm_type, qt)
from .symbolic_world import ECELLS, FCELLS, S_, SymWorld
from .theory import B, I as INT, R
from .world import World

FREC = set(FCELLS) | {'FormulaCell', 'RelationalFormulaCell', 'NaryFormulaCell'}
EREC = set(ECELLS) | {'ExpressionCell', 'UnaryExpressionCell', 'BinaryExpressionCell'}

KEEP = ('Variables::', 'Variable::', 'Formula::EqualTo', 'Expression::EqualTo', 'to_string',
        'operator<<', 'Environment::')


class CellWorld(SymWorld):
    keep_formula_ops = True     # contracts of the operators between each other

    def __init__(self, prog):
        super().__init__(prog)
        self.hashF = z3.Function('hashF', self.F, INT)
        self.hashE = z3.Function('hashE', self.E, INT)
        self.poly = z3.Function('is_poly', self.E, B)
        self.expanded = z3.Function('is_expanded', self.E, B)
        self.hcomb = z3.Function('hash_combine', INT, INT, INT)
        C = self.contracts
        self.client = dict(C)
        # accessors are executed, not assumed
        for q in list(C):
            b = q[len(S_):] if q.startswith(S_) else ''
            if b.startswith(('is_', 'get_', 'to_')) or b in (
                    'Formula::get_kind', 'Expression::get_kind', 'Formula::True',
                    'Formula::False', 'Formula::GetFreeVariables', 'Expression::GetVariables',
                    'Formula::include_ite', 'Expression::include_ite'):
                del C[q]
        for cls in ('Formula', 'Expression'):
            C[S_ + cls + '::operator='] = self.assign
        for q in ('FormulaCell', 'ExpressionCell'):
            C[S_ + q + '::use_count'] = self.use_count
        C[S_ + 'NaryFormulaCell::get_mutable_operands'] = self.mutable(
            lambda t: Cont(self.SF, self.ops_(t)))
        C[S_ + 'ExpressionAdd::get_mutable_expr_to_coeff_map'] = self.mutable(
            lambda t: Cont(self.MED, self.amap(t)))
        C[S_ + 'ExpressionMul::get_mutable_base_to_exponent_map'] = self.mutable(
            lambda t: Cont(self.MEE, self.mmap(t)))
        C[S_ + 'Formula::make_conjunction'] = self.inplace(True)
        C[S_ + 'Formula::make_disjunction'] = self.inplace(False)
        self.hash_contracts()
        self.coincidence()
        self.evaluation()

    # ------------------------------------------------ coincidence of assignments
    def coincidence(self):
        """Terms depend only on their free variables (lemma proved in P15)."""
        th, Env, V, SV = self.th, self.Env, self.V, self.SV
        self.mix = z3.Function('mix', Env, Env, SV.sort, Env)
        self.disag = z3.Function('disag', Env, Env, SV.sort, V)
        self.same = z3.Function('same', Env, Env, SV.sort, B)
        e, c = z3.Consts('me mc', Env)
        w = z3.Const('mw', SV.sort)
        v = z3.Const('mv', V)
        f = z3.Const('mf', self.F)
        x = z3.Const('mx', self.E)
        m = self.mix(e, c, w)
        for fn in (self.bval, self.rval):
            th.ax('mix.' + fn.name(), th.forall([e, c, w, v], fn(m, v) == z3.If(
                SV.mem(v, w), fn(c, v), fn(e, v)), [fn(m, v)]))
        th.ax('mix.agree', th.forall([e, c, w], self.agree(e, m, w), [m]))
        d = self.disag(e, c, w)
        th.ax('same', th.forall([e, c, w], z3.Or(self.same(e, c, w), z3.And(
            SV.mem(d, w), z3.Or(self.bval(e, d) != self.bval(c, d),
                                self.rval(e, d) != self.rval(c, d)))), [self.same(e, c, w)]))
        th.ax('same2', th.forall([e, c, w, v], z3.Implies(
            z3.And(self.same(e, c, w), SV.mem(v, w)), z3.And(
                self.bval(e, v) == self.bval(c, v), self.rval(e, v) == self.rval(c, v))),
            [(self.same(e, c, w), SV.mem(v, w))]))

    def coincide(self, t, e1, e2):
        """The lemma for one term and two assignments."""
        if t.sort() == self.F:
            return z3.Implies(self.same(e1, e2, self.fv(t)), self.holds(t, e1) == self.holds(t, e2))
        return z3.Implies(self.same(e1, e2, self.efv(t)), self.val(t, e1) == self.val(t, e2))

    def note(self, I, *terms):
        """Makes the solver look at the terms (a predicate that is always true)."""
        for t in terms:
            I.assume(z3.Function('note_' + t.sort().name(), t.sort(), B)(t))

    def oblige_forall(self, I, r, vs, f):
        """facts_forall for a result that keeps only some of the bound variables."""
        g = self.mkForall(vs, f)
        en = I.fresh(self.Env, 'en')
        W = self.qvars(r)
        cr, cg = self.fcex(r, en), self.fcex(g, en)
        m = self.mix(en, cg, W)
        I.oblige(z3.And(self.kind(r) == self.KF['Forall'], self.qbody(r) == f),
                 'the result quantifies that body')
        v = I.fresh(self.V, 'v')
        I.oblige(self.SV.mem(v, W) == z3.And(self.SV.mem(v, vs), self.SV.mem(v, self.fv(f))),
                 'the bound variables that occur in the body are kept')
        v = z3.Const('v', self.V)
        I.assume(z3.ForAll([v], self.SV.mem(v, W) == z3.And(
            self.SV.mem(v, vs), self.SV.mem(v, self.fv(f))), patterns=[self.SV.mem(v, W)]))
        # definition of agreement, and the coincidence lemma, at the points used
        I.assume(z3.Implies(self.agree(en, cr, W), self.agree(en, cr, vs)))
        I.assume(self.coincide(f, m, cg))
        I.oblige(z3.Implies(self.holds(g, en), self.holds(r, en)),
                 'the result is true where the quantification is')
        I.oblige(z3.Implies(self.holds(r, en), self.holds(g, en)),
                 'the quantification is true where the result is')

    # ---------------------------------------------------------------- evaluation
    def evaluation(self):
        """Evaluate returns the value, or throws where it has to (P11)."""
        th, F, E, V, Env = self.th, self.F, self.E, self.V, self.Env
        self.MVR = th.map_of(V, R)
        M = self.MVR.sort
        self.env_of = z3.Function('env_of', M, Env)
        self.okE = z3.Function('evaluatesE', E, M, B)
        self.okF = z3.Function('evaluatesF', F, M, B)
        m = z3.Const('em', M)
        v = z3.Const('ev', V)
        e = z3.Const('ee', E)
        has, get = self.MVR.has, self.MVR.get
        th.ax('env_of.r', th.forall([m, v], z3.Implies(
            has(m, v), self.rval(self.env_of(m), v) == get(m, v)), [self.rval(self.env_of(m), v)]))
        th.ax('env_of.b', th.forall([m, v], z3.Implies(
            has(m, v), self.bval(self.env_of(m), v) == (get(m, v) != 0)),
            [self.bval(self.env_of(m), v)]))
        th.ax('ok.const', th.forall([e, m], z3.Implies(
            self.ekind(e) == self.KE['Constant'], self.okE(e, m)), [self.okE(e, m)]))
        self.contracts[S_ + 'Expression::Evaluate'] = self.evaluate(self.okE, self.val)
        self.contracts[S_ + 'Formula::Evaluate'] = self.evaluate(self.okF, self.holds)

    def evaluate(self, ok, value):
        def c(I, this, args, n):
            a = self.ld(I, args[0]) if args else None
            m = a.term if isinstance(a, Cont) else self.MVR.empty
            t = I.load(this)
            if not I.branch(ok(t, m)):
                raise CppThrow('Evaluate', n)
            return value(t, self.env_of(m))
        return c

    # ---------------------------------------------------------------- hashing
    def hash_of(self, I, v):
        return I.fresh(INT, 'hash')

    def hash_contracts(self):
        C = self.contracts
        self.opaque |= {'hash', 'hash_value'}
        fresh = lambda I, t, a, n: I.fresh(INT, 'hash')
        for q in ('hash_combine', 'hash_range', 'hash_value::operator()'):
            C['dreal::drake::' + q] = fresh
        for q in ('Formula::get_hash', 'Expression::get_hash', 'Variable::get_hash',
                  'Variables::get_hash'):
            C[S_ + q] = fresh

    def std_value_function(self, I, name, v, a, argn, n):
        if name == 'operator()' and isinstance(v[0], Opaque) and v[0].why in ('hash', 'hash_value'):
            return self.hash_of(I, v[1])
        if name == 'atomic_load_explicit' or name.startswith('atomic_fetch'):
            raise Unsupported('reference counter outside its contract')
        return super().std_value_function(I, name, v, a, argn, n)

    # ---------------------------------------------------------------- handles
    def assign(self, I, this, args, n):
        I.store(this, self.ld(I, args[0]))
        return this

    def cellptr(self, I, term, handle=None):
        r = I.alloc(term)
        if handle is not None:
            I.ghost['handle', r.loc] = (handle.loc, handle.path)
        return Obj('cellptr', {'ptr': r})

    def from_ptr(self, I, args):
        if len(args) == 1:
            x = args[0]
            x = self.ld(I, x) if isinstance(x, Ref) else x
            return self.unptr(I, x)
        return None

    def ctor_Formula(self, I, n, t, args, ct):
        r = self.from_ptr(I, args)
        return r if r is not None else super().ctor_Formula(I, n, t, args, ct)

    def ctor_Expression(self, I, n, t, args, ct):
        r = self.from_ptr(I, args)
        return r if r is not None else super().ctor_Expression(I, n, t, args, ct)

    def member_of_term(self, I, r, v, name, n):
        if name == 'ptr_':
            return I.alloc(self.cellptr(I, v, r))
        return I.alloc(self.field(I, v, name))

    UNSHARED = 'a cell is changed in place only if it is not shared'

    def store_to_part(self, I, what):
        v, name = what
        if name != 'ptr_' and v.sort() in (self.F, self.E):
            I.oblige(z3.BoolVal(False), self.UNSHARED)
            raise Infeasible()
        super().store_to_part(I, what)

    def unptr(self, I, x):
        if isinstance(x, Obj) and x.cls == 'cellptr':
            return I.load(x.fields['ptr'])
        return None

    def ptr_eq(self, I, x, y):
        a, b = self.unptr(I, x), self.unptr(I, y)
        if a is not None and b is not None:
            if a.sort() != b.sort():
                return z3.BoolVal(False)
            e = I.fresh(B, 'sameptr')
            I.assume(z3.Implies(e, a == b))
            return e
        if a is not None or b is not None:
            return z3.BoolVal(False)            # a cell pointer and null
        return super().ptr_eq(I, x, y)

    def ptr_nonnull(self, I, v):
        return z3.BoolVal(True)

    def binop(self, I, op, x, y, n):
        if op in ('==', '!=') and (self.unptr(I, x) is not None or self.unptr(I, y) is not None):
            e = self.ptr_eq(I, x, y)
            return e if op == '==' else z3.Not(e)
        return super().binop(I, op, x, y, n)

    # the count of references: known to be one only if it has been tested
    def use_count(self, I, this, args, n):
        c = I.fresh(INT, 'use_count')
        I.assume(c >= 1)            # a handle refers to the cell
        h = I.ghost.get(('handle', this.loc))
        if h is not None:
            I.ghost['count', h] = (c, I.load(this))
        return c

    def mutable(self, part):
        def c(I, this, args, n):
            h = I.ghost.get(('handle', this.loc))
            t = I.load(this)
            if h is None or ('count', h) not in I.ghost:
                I.oblige(z3.BoolVal(False), self.UNSHARED)
                raise Infeasible()
            cnt, term = I.ghost['count', h]
            I.oblige(z3.And(cnt == 1, term == t), self.UNSHARED)
            r = I.alloc(part(t))
            # the handle may no longer be read
            I.store(Ref(*h), I.fresh(t.sort(), 'limbo'))
            return r
        return c

    def inplace(self, isand):
        """static Formula make_xxxjunction(Formula& f1, const Formula& f2)"""
        def c(I, this, args, n):
            x, y = self.asF(I, args[0]), self.asF(I, args[1])
            r = self.post_nary2(I, x, y, isand)
            I.store(args[0], r)
            return r
        return c

    # ---------------------------------------------------------------- fields
    FIELD = {
        'kind_': 'kind', 'formulas_': 'ops_', 'e_lhs_': 'lhs', 'e_rhs_': 'rhs', 'var_': 'fvar',
        'vars_': 'qvars', 'variables_': 'fv', 'include_ite_': 'hasite', 'hash_': 'hashF'}
    EFIELD = {
        'kind_': 'ekind', 'var_': 'evar', 'variables_': 'efv', 'include_ite_': 'ehasite',
        'hash_': 'hashE', 'expr_to_coeff_map_': 'amap', 'base_to_exponent_map_': 'mmap',
        'e_': 'arg', 'e1_': 'arg1', 'e2_': 'arg2', 'f_cond_': 'icond', 'e_then_': 'ithen',
        'e_else_': 'ielse', 'name_': 'ufname', 'is_polynomial_': 'poly',
        'is_expanded_': 'expanded', 'lb_': 'rclb', 'ub_': 'rcub',
        'use_lb_as_representative_': 'rcuse'}

    def field(self, I, v, name):
        if z3.is_expr(v) and v.sort() == self.F:
            if name == 'f_':
                return self.opnd(v) if I.branch(self.kind(v) == self.KF['Not']) else self.qbody(v)
            if name in self.FIELD:
                return self.wrap_result(getattr(self, self.FIELD[name])(v))
        if z3.is_expr(v) and v.sort() == self.E:
            if name == 'constant_':
                return self.c0(v)
            if name == 'v_':
                return self.cval(v)
            if name in self.EFIELD:
                return self.wrap_result(getattr(self, self.EFIELD[name])(v))
        raise Unsupported('field %s of a cell' % name)

    # ---------------------------------------------------------------- cells
    def cell_class(self, t):
        b = norm_type(t)[0]
        return b if b in FREC or b in EREC else None

    def new_object(self, I, n, init):
        while init['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
            init = init['inner'][0]
        cls = self.cell_class(qt(init))
        if cls is None:
            return super().new_object(I, n, init)
        obj = self.construct_cell(I, init)
        return self.cellptr(I, self.cell_term(I, cls, obj))

    def construct_cell(self, I, n):
        t = qt(n)
        rec = self.record(norm_type(t)[4])
        ct = n.get('ctorType', {}).get('qualType', '')
        args = n.get('inner', ())
        c = self.find_ctor(rec, ct, len(args))
        if c is None:
            raise Unsupported('constructor of %s: %s' % (t, ct))
        return I.construct_record(rec, c, [I.ev(a) for a in args], args)

    def base_init(self, I, rec, c, this):
        t = c['baseInit']
        tt = t.get('desugaredQualType') or t.get('qualType', '')
        sub = c['inner'][0]
        while sub['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
            sub = sub['inner'][0]
        if self.cell_class(tt) is None:
            return super().base_init(I, rec, c, this)
        v = self.construct_cell(I, sub)
        o = I.load(this)
        d = dict(o.fields)
        d.update(v.fields)
        own = {x.get('name') for x in rec.get('inner', ()) if x['kind'] == 'FieldDecl'}
        for nm in own & set(v.fields):      # hidden by a field of the derived class
            d['^' + nm] = v.fields[nm]
        I.store(this, Obj(o.cls, d))

    def construct_handle(self, I, cls, ct, args):
        """Runs a delegating constructor of a handle class; returns the term."""
        c = self.find_ctor(self.record(S_ + cls), ct, len(args))
        if c is None:
            raise Unsupported('constructor of %s: %s' % (cls, ct))
        init = [x for x in c['inner'] if x['kind'] == 'CXXCtorInitializer']
        if len(init) != 1 or 'anyInit' in init[0]:
            raise Unsupported('constructor of %s does not delegate' % cls)
        frame = {}
        for p, a in zip(I.params(c), args):
            I.bind(frame, p, a)
        I.frames.append(frame)
        I.stack.append(c['id'])
        try:
            return I.rv(init[0]['inner'][0])
        finally:
            I.frames.pop()
            I.stack.pop()

    def static_local(self, I, d):
        return None

    check_attributes = False
    check_invariants = True

    def cell_term(self, I, cls, o):
        """The term built by `new cls(...)` from the record its constructor left."""
        f = o.fields
        isF = cls in FREC
        tab, K = (FCELLS, self.KF) if isF else (ECELLS, self.KE)
        if cls not in tab:
            raise Unsupported('new %s' % cls)
        k = tab[cls]
        I.oblige(f['kind_'] == K[k], 'the cell has the kind of its class')
        t = self.formula_term(I, k, f) if isF else self.expression_term(I, k, f)
        for hk in getattr(self, 'cell_hooks', ()):
            hk(I, cls, k, f, t)
        return t

    def formula_term(self, I, k, f):
        if k == 'True':
            return self.fT
        if k == 'False':
            return self.fF
        if k == 'Var':
            v = f['var_']
            I.oblige(self.vtype(v) == self.VT['BOOLEAN'], 'a formula variable is Boolean')
            return self.mkVar(v)
        if k in ('And', 'Or'):
            s = f['formulas_'].term
            I.oblige(self.SF.card(s) >= 2, 'a connective has at least two operands')
            I.oblige(self.okops[k](s),
                     'no operand is a constant or a formula of the same connective')
            return (self.mkAnd if k == 'And' else self.mkOr)(s)
        if k == 'Not':
            g = f['f_']
            I.oblige(z3.And(self.kind(g) != self.KF['Not'], self.kind(g) != self.KF['True'],
                            self.kind(g) != self.KF['False']),
                     'a negation is not applied to a negation or a constant')
            return self.mkNot(g)
        if k == 'Forall':
            return self.mkForall(f['vars_'].term, f['f_'])
        return self.mkRel(z3.IntVal(self.KF[k]), f['e_lhs_'], f['e_rhs_'])

    def expression_term(self, I, k, f):
        raise Unsupported('new Expression%s' % k)

    # ---------------------------------------------------------------- tasks
    def arguments(self, I, fn, alias=False):
        """Fresh arguments for the parameters of a function."""
        out, first = [], {}
        for p in I.params(fn):
            t = norm_type(qt(p))[0]
            d = self.desc(qt(p))
            if alias and t in first:
                out.append(first[t])
                continue
            v = self.fresh_of(I, d, p.get('name') or 'arg')
            if d == ('z', self.V):
                I.assume(self.vid(v) != 0)
            r = I.alloc(v)
            first.setdefault(t, r)
            out.append(r)
        return out
