"""P15: reported variables and attributes, on the real constructors of all cells."""
import z3

from ..cell_world import CellWorld
from ..frontend import SYM
from ..interp import Cont, CppThrow, norm_type, qt
from ..symbolic_world import ECELLS, FCELLS, S_
from ..theory import B, R

SOURCES = [SYM + 'symbolic_formula.cc', SYM + 'symbolic_formula_cell.cc',
           SYM + 'symbolic_expression.cc', SYM + 'symbolic_expression_cell.cc']
TRUSTED = ['contracts of Variables (P18); std::set, std::map',
           'std::modf leaves zero exactly for whole numbers']
ASSUMPTIONS = ['doubles are real numbers']


class AttrWorld(CellWorld):
    def __init__(self, prog):
        super().__init__(prog)
        self.nonlinear = False
        V, SF, SV, MED, MEE = self.V, self.SF, self.SV, self.MED, self.MEE
        mem, fv, efv = SV.mem, self.fv, self.efv
        hasite, ehasite = self.hasite, self.ehasite
        n = z3.Not
        self.whole = z3.Function('whole', R, B)
        self.nextup = z3.Function('nextup', R, R)
        self.noin = {
            'ops': SF.fold_all('nofv', lambda f, v: n(mem(v, fv(f))), (V,)),
            'add': MED.fold_all('nofv_add', lambda e, c, v: n(mem(v, efv(e))), (V,)),
            'mul': MEE.fold_all('nofv_mul', lambda b, e, v: n(z3.Or(
                mem(v, efv(b)), mem(v, efv(e)))), (V,))}
        self.noite = {
            'ops': SF.fold_all('noite', lambda f: n(hasite(f))),
            'add': MED.fold_all('noite_add', lambda e, c: n(ehasite(e))),
            'mul': MEE.fold_all('noite_mul', lambda b, e: n(z3.Or(ehasite(b), ehasite(e))))}
        wholenn = lambda e: z3.And(self.ekind(e) == self.KE['Constant'], self.cval(e) >= 0,
                                   self.whole(self.cval(e)))
        self.wholenn = wholenn
        self.allpoly = {
            'add': MED.fold_all('poly_add', lambda e, c: self.poly(e)),
            'mul': MEE.fold_all('poly_mul', lambda b, e: z3.And(self.poly(b), wholenn(e)))}
        sorts = {'ops': SF.sort.name(), 'add': MED.sort.name(), 'mul': MEE.sort.name()}
        self.acc['Bool'] = [('value', lambda t: t, ())]
        self.acc[SV.sort.name()] = [('in', lambda t, v: mem(v, t), (V,))]
        for k, s in sorts.items():
            self.proc[s] = [
                ('some has the variable', (lambda k: lambda t, v: n(self.noin[k](t, v)))(k), (V,)),
                ('some conditional', (lambda k: lambda t: n(self.noite[k](t)))(k), ())]
            self.proc[s] += [('no conditional', self.noite[k], ())]
            if k in self.allpoly:
                self.proc[s] += [('all polynomial', self.allpoly[k], ())]
            self.acc.pop(s, None)
            self.procreal.pop(s, None)

    def std_value_function(self, I, name, v, a, argn, n):
        if name == 'modf' and z3.is_expr(v[0]) and v[0].sort() == R:
            r = I.fresh(R, 'fraction')
            I.assume((r == 0) == self.whole(v[0]))
            return r
        if name == 'nextafter':
            return self.nextup(v[0])
        if name == 'infinity':
            return I.fresh(R, 'infinity')
        if name in ('lowest', 'max', 'min') and not v:
            return z3.IntVal({'lowest': -2 ** 31, 'min': -2 ** 31, 'max': 2 ** 31 - 1}[name])
        return super().std_value_function(I, name, v, a, argn, n)


def world(prog):
    return AttrWorld(prog)


def spec(w, cls, k, f):
    """variable -> occurs free, contains a conditional, is a polynomial (necessary)"""
    mem, fv, efv = w.SV.mem, w.fv, w.efv
    T, N = z3.BoolVal(True), z3.BoolVal(False)
    none = lambda v: N
    if cls in FCELLS:
        if k in ('True', 'False'):
            return none, N, N
        if k == 'Var':
            return (lambda v: v == f['var_']), N, N
        if k in ('And', 'Or'):
            s = f['formulas_'].term
            return (lambda v: z3.Not(w.noin['ops'](s, v))), z3.Not(w.noite['ops'](s)), N
        if k == 'Not':
            return (lambda v: mem(v, fv(f['f_']))), w.hasite(f['f_']), N
        if k == 'Forall':
            return (lambda v: z3.And(mem(v, fv(f['f_'])), z3.Not(mem(v, f['vars_'].term)))), \
                w.hasite(f['f_']), N
        return (lambda v: z3.Or(mem(v, efv(f['e_lhs_'])), mem(v, efv(f['e_rhs_'])))), \
            z3.Or(w.ehasite(f['e_lhs_']), w.ehasite(f['e_rhs_'])), N
    if k in ('Constant', 'RealConstant'):
        return none, N, T
    if k == 'NaN':
        return none, N, N
    if k == 'Var':
        return (lambda v: v == f['var_']), N, T
    if k in ('Add', 'Mul'):
        kk, m = ('add', f['expr_to_coeff_map_'].term) if k == 'Add' else \
            ('mul', f['base_to_exponent_map_'].term)
        return (lambda v: z3.Not(w.noin[kk](m, v))), z3.Not(w.noite[kk](m)), w.allpoly[kk](m)
    if k in w.unary_kinds:
        return (lambda v: mem(v, efv(f['e_']))), w.ehasite(f['e_']), N
    if k in w.binary_kinds:
        a, b = f['e1_'], f['e2_']
        p = N
        if k == 'Div':
            p = z3.And(w.poly(a), w.ekind(b) == w.KE['Constant'])
        if k == 'Pow':
            p = z3.And(w.poly(a), w.wholenn(b))
        return (lambda v: z3.Or(mem(v, efv(a)), mem(v, efv(b)))), \
            z3.Or(w.ehasite(a), w.ehasite(b)), p
    if k == 'IfThenElse':
        c, a, b = f['f_cond_'], f['e_then_'], f['e_else_']
        return (lambda v: z3.Or(mem(v, fv(c)), mem(v, efv(a)), mem(v, efv(b)))), T, N
    if k == 'UninterpretedFunction':
        s = f['variables_'].term
        return (lambda v: mem(v, s)), N, N
    raise KeyError(k)


def precondition(w, k, vals):
    """What the callers establish (obligations of P06-P08)."""
    if k in ('And', 'Or'):
        return [vals[0] != vals[1]] if len(vals) == 2 else [w.SF.card(vals[0].term) >= 2]
    if k in ('Add', 'Mul'):
        return [vals[1].ops.card(vals[1].term) >= 1]
    if k == 'RealConstant':
        return [vals[0] < vals[1], w.nextup(vals[0]) == vals[1]]
    return []


# the fields that the parameters of a constructor initialise
PARTS = {'unary': ('e_',), 'binary': ('e1_', 'e2_'), 'rel': ('e_lhs_', 'e_rhs_'),
         'Var': ('var_',), 'And': ('formulas_',), 'Or': ('formulas_',), 'Not': ('f_',),
         'Forall': ('vars_', 'f_'), 'Constant': ('v_',),
         'RealConstant': ('lb_', 'ub_', 'use_lb_as_representative_'),
         'Add': ('constant_', 'expr_to_coeff_map_'), 'Mul': ('constant_', 'base_to_exponent_map_'),
         'IfThenElse': ('f_cond_', 'e_then_', 'e_else_'),
         'UninterpretedFunction': ('name_', 'variables_'), 'NaN': (), 'True': (), 'False': ()}


def tasks(prog, w):
    out = []

    def ctors(cls):
        rec = w.record(S_ + cls)
        for c in rec.get('inner', ()):
            if c['kind'] != 'CXXConstructorDecl' or c.get('isImplicit'):
                continue
            t = c['type']['qualType']
            if cls + ' &' in t:
                continue
            n = sum(1 for x in c.get('inner', ()) if x['kind'] == 'ParmVarDecl')
            d = w.find_ctor(rec, t, n)
            if d is not None:
                yield rec, d, t

    def construction(cls, k, rec, c):
        def t(I):
            args = w.arguments(I, c)
            vals = [w.ld(I, a) for a in args]
            for p in precondition(w, k, vals):
                I.assume(p)
            try:
                o = I.construct_record(rec, c, args, ())
            except CppThrow:
                v = vals[0]
                boolean = w.vtype(v) == w.VT['BOOLEAN']
                I.oblige(z3.Or(w.vid(v) == 0, z3.Not(boolean) if cls in FCELLS else boolean),
                         'only a variable of the wrong type is rejected')
                return
            f = dict(o.fields)
            occurs, ite, poly = spec(w, cls, k, f)
            v = I.fresh(w.V, 'v')
            reported = f.get('^variables_', f['variables_']).term
            I.oblige(w.SV.mem(v, reported) == occurs(v),
                     'the reported variables are those that occur free')
            I.oblige(I.as_bool(f['include_ite_']) == ite,
                     'the flag says whether a conditional occurs')
            if cls in ECELLS:
                I.oblige(z3.Implies(I.as_bool(f['is_polynomial_']), poly),
                         'what is reported as a polynomial is one')
            tab, K = (FCELLS, w.KF) if cls in FCELLS else (ECELLS, w.KE)
            I.oblige(f['kind_'] == K[k], 'the kind is that of the class')
            # the parts are the given ones
            if cls in ('FormulaAnd', 'FormulaOr') and len(vals) == 2:
                s, x = f['formulas_'].term, I.fresh(w.F, 'x')
                I.oblige(w.SF.mem(x, s) == z3.Or(x == vals[0], x == vals[1]),
                         'the parts are the given operands')
                return
            for nm, x in zip(PARTS.get(k, PARTS['unary' if k in w.unary_kinds else 'binary'
                                                if k in w.binary_kinds else 'rel']), vals):
                if sort_of(x) is not None and nm:
                    I.oblige(term_of(f[nm]) == term_of(x), 'the parts are the given operands')
        return t
    for tab in (FCELLS, ECELLS):
        for cls, k in tab.items():
            for rec, c, t in ctors(cls):
                out.append(('%s %s' % (cls, t.replace('dreal::drake::symbolic::', '')),
                            construction(cls, k, rec, c)))

    def accessor(fn, q, me):
        """The real accessor gives what the contract of it says that clients rely on."""
        def t(I):
            x = I.alloc(I.fresh(w.F if me == 'Formula' else w.E, 'x'))
            this = x if fn['kind'] == 'CXXMethodDecl' else None
            args = ([] if this is not None else [x]) + [
                I.alloc(w.fresh_of(I, w.desc(qt(p)), 'arg'))
                for p in I.params(fn)[0 if this is not None else 1:]]
            oblige, I.oblige = I.oblige, lambda f, *_a: I.assume(f)
            try:
                want = w.ld(I, w.client[q](I, this, args, None))
            finally:
                I.oblige = oblige
            got = w.ld(I, I.inline(fn, this, args, None))
            if isinstance(want, Cont):
                got, want = got.term, want.term
            if want.sort() == B:
                got = I.as_bool(got)
            I.oblige(got == want, 'the accessor gives that part of the term')
        return t
    seen = set()
    for q in sorted(set(w.client) - set(w.contracts)):
        for fn in prog.find(q):
            ps = [c for c in fn.get('inner', ()) if c['kind'] == 'ParmVarDecl']
            name = fn['kind'] == 'CXXMethodDecl' and q.split('::')[-2] or \
                ps and norm_type(qt(ps[0]))[0].split('::')[-1]
            if name not in ('Formula', 'Expression') or q.split('::')[-1] in ('True', 'False'):
                continue
            key = '%s %s' % (q.replace(S_, ''), fn['type']['qualType'].replace(S_, ''))
            if key not in seen:
                seen.add(key)
                out.append((key, accessor(fn, q, name)))

    out.extend(coincidence_lemma(w))

    def polynomial(I):
        x = I.alloc(I.fresh(w.E, 'x'))
        fn, = prog.find(S_ + 'Expression::is_polynomial')
        I.oblige(I.as_bool(w.ld(I, I.inline(fn, x, [], None))) == w.poly(I.load(x)),
                 'the accessor gives that part of the term')
    out.append(('Expression::is_polynomial', polynomial))
    return out


def coincidence_lemma(w):
    """A term has one value under assignments that agree on its variables: the step of
    the induction over terms, for every kind (used by P06)."""
    out = []
    same, mem = w.same, w.SV.mem

    def lemma(k, isF):
        def t(I):
            e1, e2 = I.fresh(w.Env, 'e1'), I.fresh(w.Env, 'e2')
            t = I.fresh(w.F if isF else w.E, 't')
            K, kf = (w.KF, w.kind) if isF else (w.KE, w.ekind)
            I.assume(kf(t) == K[k])
            cls = [c for c, x in (FCELLS if isF else ECELLS).items() if x == k][0]
            fnames = w.FIELD if isF else w.EFIELD
            f = {a: w.wrap_result(getattr(w, b)(t)) for a, b in fnames.items() if hasattr(w, b)}
            if isF:
                f['f_'] = w.opnd(t) if k == 'Not' else w.qbody(t)
            occurs = spec(w, cls, k, f)[0]
            fvt = (w.fv if isF else w.efv)(t)
            # the reported variables are those that occur (proved above)
            occ = lambda v: mem(v, fvt) == occurs(v)
            whole = (lambda e: w.holds(t, e)) if isF else (lambda e: w.val(t, e))
            I.assume(same(e1, e2, fvt))

            def hyp(p, x, y):
                """The induction hypothesis for a part; and where x, y would differ on it."""
                return z3.And(w.coincide(p, x, y),
                              occ(w.disag(x, y, (w.fv if p.sort() == w.F else w.efv)(p))))
            if k == 'Var':
                I.assume(occ(f['var_']))
            if k in ('And', 'Or'):
                g = z3.Const('cg', w.F)
                I.assume(z3.ForAll([g], z3.Implies(w.SF.mem(g, w.ops_(t)), hyp(g, e1, e2)),
                                   patterns=[w.SF.mem(g, w.ops_(t))]))
            elif k == 'Forall':
                for x, y in ((e1, e2), (e2, e1)):
                    # a counterexample under y is one under x, with the bound variables copied
                    c = w.fcex(t, y)
                    m = w.mix(x, c, w.qvars(t))
                    I.assume(same(x, y, fvt))
                    I.assume(hyp(w.qbody(t), m, c))
                    w.note(I, m, c)
            elif k in ('Add', 'Mul'):
                m = w.amap(t) if k == 'Add' else w.mmap(t)
                h, c = sums(k, m, e1, e2)
                x = z3.Const('cx', w.E)
                M = w.MED if k == 'Add' else w.MEE
                ih = hyp(x, e1, e2) if k == 'Add' else z3.And(
                    hyp(x, e1, e2), hyp(M.get(m, x), e1, e2))
                I.assume(z3.ForAll([x], z3.Implies(M.has(m, x), ih), patterns=[M.has(m, x)]))
                I.oblige(h, 'the entries agree')
                I.assume(c)             # proved by induction over the entries below
            else:
                ps = {'Not': ('f_',), 'IfThenElse': ('f_cond_', 'e_then_', 'e_else_')}.get(
                    k, ('e_lhs_', 'e_rhs_') if k in ('Eq', 'Neq', 'Lt', 'Leq', 'Gt', 'Geq') else
                    ('e_',) if k in w.unary_kinds else ('e1_', 'e2_') if k in w.binary_kinds
                    else ())
                for nm in ps:
                    I.assume(hyp(f[nm], e1, e2))
            I.oblige(whole(e1) == whole(e2),
                     'the value depends only on the variables that occur')
        return t

    def sums(k, m, e1, e2):
        """(hypothesis for the parts, conclusion) for the sum or product over m"""
        M, fold = (w.MED, w.vsum) if k == 'Add' else (w.MEE, w.vprod)
        x = z3.Const('cx', w.E)
        hyp = z3.ForAll([x], z3.Implies(M.has(m, x), z3.And(
            w.val(x, e1) == w.val(x, e2), z3.BoolVal(True) if k == 'Add' else
            w.val(M.get(m, x), e1) == w.val(M.get(m, x), e2))), patterns=[M.has(m, x)])
        return hyp, fold(m, e1) == fold(m, e2)

    def induction(k, step):
        def t(I):
            M = w.MED if k == 'Add' else w.MEE
            e1, e2 = I.fresh(w.Env, 'e1'), I.fresh(w.Env, 'e2')
            m = I.fresh(M.sort, 'm')
            if not step:
                I.oblige(sums(k, M.empty, e1, e2)[1], 'the empty one')
                return
            x, y = I.fresh(w.E, 'x'), I.fresh(M.T, 'y')
            I.assume(z3.Not(M.has(m, x)))
            h, c = sums(k, m, e1, e2)
            I.assume(z3.Implies(h, c))
            m2 = M.put(m, x, y)
            h2, c2 = sums(k, m2, e1, e2)
            I.assume(h2)
            z = z3.Const('cz', w.E)
            I.assume(z3.ForAll([z], z3.Implies(M.has(m, z), z3.And(
                M.has(m2, z), M.get(m2, z) == M.get(m, z))), patterns=[M.has(m, z)]))
            I.oblige(h, 'the hypothesis for the rest')
            I.assume(c)
            I.oblige(c2, 'one more entry')
        return t
    for k in FCELLS.values():
        out.append(('coincidence: formula %s' % k, lemma(k, True)))
    for k in ECELLS.values():
        if k not in ('RealConstant', 'NaN', 'UninterpretedFunction'):
            out.append(('coincidence: expression %s' % k, lemma(k, False)))
    for k in ('Add', 'Mul'):
        for s in (False, True):
            out.append(('coincidence: map of %s, %s' % (k, 'step' if s else 'base'),
                        induction(k, s)))
    return out


def term_of(x):
    return x.term if isinstance(x, Cont) else x


def sort_of(x):
    x = term_of(x)
    return x.sort() if z3.is_expr(x) else None
