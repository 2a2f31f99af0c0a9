"""P12: substitution, on the real cells and handles."""
import z3

from ..factory_world import FactoryWorld
from ..frontend import SYM
from ..interp import Cont, CppThrow, qt
from ..symbolic_world import BINARY, ECELLS, FCELLS, S_, UNARY
from ..theory import B
from ..world import Cand, snap_get

SOURCES = [SYM + 'symbolic_formula.cc', SYM + 'symbolic_formula_cell.cc',
           SYM + 'symbolic_expression.cc', SYM + 'symbolic_expression_cell.cc']
TRUSTED = ['the constructors of formulas and expressions and the two factories by contract '
           '(P06, P07, P08)', 'std::unordered_map']
ASSUMPTIONS = ['doubles are real numbers',
               'all arithmetic terms that occur are defined at the assignments compared']


class SubstWorld(FactoryWorld):
    def __init__(self, prog, lemmas=True):
        super().__init__(prog)
        th, F, E, V, Env, SV = self.th, self.F, self.E, self.V, self.Env, self.SV
        self.ME, self.MF = th.map_of(V, E), th.map_of(V, F)
        SE, SF_ = self.ME.sort, self.MF.sort
        fn = z3.Function
        self.upd = fn('upd', Env, SE, SF_, Env)
        self.subE = fn('subE', E, SE, SF_, E)
        self.subF = fn('subF', F, SE, SF_, F)
        self.ncE = fn('nocaptureE', E, SE, SF_, B)
        self.ncF = fn('nocaptureF', F, SE, SF_, B)
        self.bndE = fn('boundE', V, E, B)
        self.bndF = fn('boundF', V, F, B)
        self.cleanE = self.ME.fold_all('cleanE', lambda k, e, v: z3.Not(
            SV.mem(v, self.efv(e))), (V,))
        self.cleanF = self.MF.fold_all('cleanF', lambda k, f, v: z3.Not(
            SV.mem(v, self.fv(f))), (V,))
        BOOL = self.VT['BOOLEAN']
        self.typedE = self.ME.fold_all('typedE', lambda k, e: self.vtype(k) != BOOL)
        self.typedF = self.MF.fold_all('typedF', lambda k, f: self.vtype(k) == BOOL)
        en = z3.Const('sen', Env)
        s, t = z3.Const('ss', SE), z3.Const('st', SF_)
        v = z3.Const('sv', V)
        u = self.upd(en, s, t)
        th.ax('upd.r', th.forall([en, s, t, v], self.rval(u, v) == z3.If(
            self.ME.has(s, v), self.val(self.ME.get(s, v), en), self.rval(en, v)),
            [self.rval(u, v)]))
        th.ax('upd.b', th.forall([en, s, t, v], self.bval(u, v) == z3.If(
            self.MF.has(t, v), self.holds(self.MF.get(t, v), en), self.bval(en, v)),
            [self.bval(u, v)]))
        # nothing is captured: no variable bound in the term occurs in a replacement
        for nc, bnd, so in ((self.ncE, self.bndE, E), (self.ncF, self.bndF, F)):
            x = z3.Const('nx', so)
            w = fn(nc.name() + '.w', so, SE, SF_, V)
            ok = lambda v: z3.And(self.cleanE(s, v), self.cleanF(t, v))
            th.ax(nc.name(), th.forall([x, s, t, v], z3.Implies(
                z3.And(nc(x, s, t), bnd(v, x)), ok(v)), [(nc(x, s, t), bnd(v, x))]))
            th.ax(nc.name() + '2', th.forall([x, s, t], z3.Or(nc(x, s, t), z3.And(
                bnd(w(x, s, t), x), z3.Not(ok(w(x, s, t))))), [nc(x, s, t)]))
        self.SE0, self.SF0 = z3.Const('SE', SE), z3.Const('SF', SF_)
        U = lambda en: self.upd(en, self.SE0, self.SF0)
        # the parts of containers, at the updated assignment
        h, val = self.holds, self.val
        self.allU = self.SF.fold_all('allU', lambda x, en: h(x, U(en)), (Env,))
        self.noneU = self.SF.fold_all('noneU', lambda x, en: z3.Not(h(x, U(en))), (Env,))
        self.stable = self.SF.fold_all('stable', lambda x: self.subF(
            x, self.SE0, self.SF0) == x)
        self.sumU = self.MED.fold_sum('sumU', lambda a, c, n: c * val(a, U(n)), (Env,))
        self.prodU = self.MEE.fold_sum(
            'prodU', lambda a, b, n: self.powf(val(a, U(n)), val(b, U(n))),
            (Env,), z3.RealVal(1), lambda p, q: p * q)
        # lemmas: the folds at the updated assignment are the folds there (by induction over
        # the container; the entries of both have the same values)
        self.lemmas = [
            (self.SF, self.allU, self.allh), (self.SF, self.noneU, self.noneh),
            (self.MED, self.sumU, self.vsum), (self.MEE, self.prodU, self.vprod)]
        for C, a, b in self.lemmas if lemmas else ():
            x = z3.Const('lx', C.sort)
            th.ax('lemma.' + a.name(), th.forall([x, en], a(x, en) == b(x, U(en)),
                                                 [a(x, en), b(x, U(en))]))
        neg = lambda g: (lambda t, en: z3.Not(g(t, en)))
        self.proc[self.SF.sort.name()] = [
            ('allU', self.allU, (Env,)), ('someU', neg(self.noneU), (Env,))]
        self.procreal[self.MED.sort.name()] = [('sumU', self.sumU, (Env,))]
        self.procreal[self.MEE.sort.name()] = [('prodU', self.prodU, (Env,))]
        # uninterpreted functions: the variables they may depend on
        SVs = SV.sort
        self.notin = SV.fold_all('notinU', lambda x, v: z3.Not(self.reached(x, v)), (V,))
        self.acc[SVs.name()] = [('in', lambda t, v: SV.mem(v, t), (V,))]
        self.proc[SVs.name()] = [('reached', lambda t, v: z3.Not(self.notin(t, v)), (V,))]
        self.extra_candidates.append(self.templates)
        self.cont_types['ExpressionSubstitution'] = ('map', ('z', V), ('z', E), True)
        self.cont_types['FormulaSubstitution'] = ('map', ('z', V), ('z', F), True)
        C = self.contracts
        for cls in ('Formula', 'Expression'):
            c = self.substitute(self.subE if cls == 'Expression' else self.subF)
            C[S_ + cls + '::Substitute'] = c
            C[S_ + cls + 'Cell::Substitute'] = c
        C[S_ + 'uninterpreted_function'] = self.mkUF

    def reached(self, x, v):
        """v is among the variables that stand for x after the substitution"""
        BOOL = self.VT['BOOLEAN']
        own = v == x
        return z3.If(self.vtype(x) == BOOL,
                     z3.If(self.MF.has(self.SF0, x),
                           self.SV.mem(v, self.fv(self.MF.get(self.SF0, x))), own),
                     z3.If(self.ME.has(self.SE0, x),
                           self.SV.mem(v, self.efv(self.ME.get(self.SE0, x))), own))

    def mkUF(self, I, this, args, n):
        name, vs = self.ld(I, args[0]), self.ld(I, args[1])
        r = I.fresh(self.E, 'uf')
        I.assume(z3.And(self.ekind(r) == self.KE['UninterpretedFunction'],
                        self.ufname(r) == name, self.efv(r) == vs.term))
        return r

    def templates(self, I, node, entry, havoced, mods, iters, accs, pterm, term):
        out = []
        v = z3.Const('tv', self.V)
        BOOL = self.VT['BOOLEAN']
        for loc, path in accs:
            t0 = term(snap_get(entry, loc, path))
            if t0 is None:
                continue
            at = lambda s, loc=loc, path=path: term(snap_get(s, loc, path))
            if t0.sort() == B:
                for pol in (True, False):
                    for it in iters:
                        def c(s, at=at, it=it, pol=pol):
                            P = pterm(s, it)
                            if P is None or P.sort() != self.SF.sort:
                                return None
                            return z3.Or(at(s) if pol else z3.Not(at(s)), self.stable(P))
                        out.append(Cand('unless flagged, nothing was changed', c))
            for M, clean in ((self.ME, self.cleanE), (self.MF, self.cleanF)):
                if t0.sort() != M.sort:
                    continue
                out.append(Cand('entries keep their values', lambda s, at=at, M=M, t0=t0: z3.ForAll(
                    [v], z3.Implies(M.has(at(s), v), z3.And(
                        M.has(t0, v), M.get(at(s), v) == M.get(t0, v))),
                    patterns=[M.has(at(s), v)])))
                out.append(Cand('what is clean stays clean', lambda s, at=at, clean=clean, t0=t0:
                                z3.ForAll([v], z3.Implies(clean(t0, v), clean(at(s), v)),
                                          patterns=[clean(at(s), v)])))
                for ty in (self.typedE, self.typedF):
                    out.append(Cand('well typed', lambda s, at=at, ty=ty: ty(
                        at(s)) if at(s).sort() == ty.domain(0) else None))
                for it in iters:
                    for bt in (True, False):
                        def c2(s, at=at, it=it, M=M, t0=t0, bt=bt):
                            P = pterm(s, it)
                            if P is None or P.sort() != self.SV.sort:
                                return None
                            mine = self.vtype(v) == BOOL if bt else self.vtype(v) != BOOL
                            return z3.ForAll([v], M.has(at(s), v) == z3.And(
                                M.has(t0, v), z3.Not(z3.And(mine, self.SV.mem(v, P)))),
                                patterns=[M.has(at(s), v)])
                        out.append(Cand('bound variables are removed', c2))
        return out

    def maps(self, I, args):
        """(SE, SF) of the arguments of any overload"""
        SE, SF_ = self.ME.empty, self.MF.empty
        v = [self.ld(I, a) for a in args]
        if len(v) == 2 and z3.is_expr(v[0]) and v[0].sort() == self.V:
            if z3.is_expr(v[1]) and v[1].sort() == self.F:
                return SE, self.MF.put(SF_, v[0], v[1])
            return self.ME.put(SE, v[0], self.asE(I, v[1])), SF_
        for x in v:
            if isinstance(x, Cont) and x.ops is self.ME:
                SE = x.term
            elif isinstance(x, Cont) and x.ops is self.MF:
                SF_ = x.term
            else:
                raise Unsupported('Substitute')
        return SE, SF_

    def substitute(self, fn):
        def c(I, this, args, n):
            t = I.load(this)
            SE, SF_ = self.maps(I, args)
            nc = self.ncE if t.sort() == self.E else self.ncF
            I.oblige(nc(t, SE, SF_), 'no variable of a replacement is captured')
            I.oblige(z3.And(self.typedE(SE), self.typedF(SF_)),
                     'expressions replace real variables, formulas Boolean ones')
            r = fn(t, SE, SF_)
            I.ghost['subs'] = I.ghost.get('subs', ()) + ((r, SE, SF_),)
            I.assume(self.means(r, t, SE, SF_))
            return r
        return c

    def means(self, r, t, SE, SF_):
        m = self.val if t.sort() == self.E else self.holds
        return self.forall_env(lambda en: m(r, en) == m(t, self.upd(en, SE, SF_)),
                               lambda en: m(r, en))


def world(prog):
    return SubstWorld(prog)


def tasks(prog, w):
    out = []
    SE, SF_ = w.SE0, w.SF0

    def setting(I, t):
        """Preconditions; and that what is bound in a part is bound in the whole."""
        isE = t.sort() == w.E
        I.assume((w.ncE if isE else w.ncF)(t, SE, SF_))
        I.assume(z3.And(w.typedE(SE), w.typedF(SF_)))

    def parts(I, t, k):
        """Definition of `bound` for the parts of a term of that kind."""
        v = z3.Const('pv', w.V)
        isE = t.sort() == w.E
        whole = (w.bndE if isE else w.bndF)(v, t)

        def part(p):
            b = (w.bndE if p.sort() == w.E else w.bndF)(v, p)
            I.assume(z3.ForAll([v], z3.Implies(b, whole), patterns=[b]))
        if k in ('And', 'Or'):
            g = z3.Const('pg', w.F)
            I.assume(z3.ForAll([v, g], z3.Implies(
                z3.And(w.SF.mem(g, w.ops_(t)), w.bndF(v, g)), whole),
                patterns=[z3.MultiPattern(w.SF.mem(g, w.ops_(t)), w.bndF(v, g))]))
        elif k in ('Add', 'Mul'):
            M, m = (w.MED, w.amap(t)) if k == 'Add' else (w.MEE, w.mmap(t))
            x = z3.Const('px', w.E)
            I.assume(z3.ForAll([v, x], z3.Implies(
                z3.And(M.has(m, x), w.bndE(v, x)), whole),
                patterns=[z3.MultiPattern(M.has(m, x), w.bndE(v, x))]))
            if k == 'Mul':
                y = M.get(m, x)
                I.assume(z3.ForAll([v, x], z3.Implies(
                    z3.And(M.has(m, x), w.bndE(v, y)), whole),
                    patterns=[z3.MultiPattern(M.has(m, x), w.bndE(v, y))]))
        elif k == 'Not':
            part(w.opnd(t))
        elif k == 'Forall':
            part(w.qbody(t))
            q = w.SV.mem(v, w.qvars(t))
            I.assume(z3.ForAll([v], z3.Implies(q, whole), patterns=[q]))
        elif not isE and k not in ('True', 'False', 'Var'):
            part(w.lhs(t)), part(w.rhs(t))
        elif k in UNARY:
            part(w.arg(t))
        elif k in BINARY:
            part(w.arg1(t)), part(w.arg2(t))
        elif k == 'IfThenElse':
            part(w.icond(t)), part(w.ithen(t)), part(w.ielse(t))

    def cell(cls, k, fn):
        def t(I):
            isE = cls in ECELLS
            t = I.fresh(w.E if isE else w.F, 't')
            I.assume((w.ekind(t) == w.KE[k]) if isE else (w.kind(t) == w.KF[k]))
            setting(I, t)
            parts(I, t, k)
            args = [I.alloc(Cont(w.ME, SE, True)), I.alloc(Cont(w.MF, SF_, True))]
            try:
                r = w.ld(I, I.inline(fn, I.alloc(t), args, None))
            except CppThrow:
                I.oblige(z3.BoolVal(k == 'NaN'), 'substitution does not fail')
                return
            en = I.fresh(w.Env, 'en')
            U = w.upd(en, SE, SF_)
            if k == 'UninterpretedFunction':
                v = I.fresh(w.V, 'v')
                I.oblige(z3.And(w.ekind(r) == w.KE[k], w.ufname(r) == w.ufname(t)),
                         'the function stays the same')
                I.oblige(w.SV.mem(v, w.efv(r)) == z3.Not(w.notin(w.efv(t), v)),
                         'its variables are those of the replacements')
                return
            if k == 'RealConstant':
                I.assume(w.val(t, en) == w.val(t, U))       # does not depend on variables
            if k == 'Forall':
                forall(I, t, r, en)
                return
            if k in ('And', 'Or'):
                # the parts, by the contract of the recursive call
                g = z3.Const('ih', w.F)
                I.assume(z3.ForAll([g], z3.Implies(
                    z3.And(w.SF.mem(g, w.ops_(t)), w.ncF(g, SE, SF_)),
                    w.holds(w.subF(g, SE, SF_), en) == w.holds(g, U)),
                    patterns=[z3.MultiPattern(w.SF.mem(g, w.ops_(t)), w.holds(g, en)),
                              z3.MultiPattern(w.SF.mem(g, w.ops_(t)), w.holds(g, U))]))
                w.note(I, w.allh(w.ops_(t), en), w.allh(w.ops_(t), U),
                       w.noneh(w.ops_(t), en), w.noneh(w.ops_(t), U),
                       w.allU(w.ops_(t), en), w.noneU(w.ops_(t), en))
            m = w.val if isE else w.holds
            I.oblige(m(r, en) == m(t, U),
                     'the value is that of the term at the updated assignment')
        return t

    def forall(I, t, r, en):
        """Both directions, with the counterexample of one side carried to the other."""
        U = w.upd(en, SE, SF_)
        vs, body = w.qvars(t), w.qbody(t)
        name = 'the value is that of the term at the updated assignment'
        for f2, SE2, SF2 in I.ghost.get('subs', ()):
            g = w.mkForall(vs, f2)
            for F2 in (g, t):
                c, c2 = w.fcex(t, U), w.fcex(F2, en)
                pairs = ((w.mix(en, c, vs), c), (c2, w.mix(U, c2, vs)))
                for a, b in pairs:
                    ua = w.upd(a, SE2, SF2)
                    I.assume(w.coincide(body, ua, b))
                    d = w.disag(ua, b, w.fv(body))
                    w.note(I, ua, d)
                    # the replacements of that variable do not depend on the bound ones
                    for x in (w.ME.get(SE2, d), w.MF.get(SF2, d)):
                        fvx = w.efv(x) if x.sort() == w.E else w.fv(x)
                        dd = w.disag(a, en, fvx)
                        I.assume(w.coincide(x, a, en))
                        w.note(I, dd)
                        I.assume(z3.Or(w.SV.mem(dd, vs), z3.Not(w.SV.mem(dd, vs))))
                        for M, S, clean in ((w.ME, SE, w.cleanE), (w.MF, SF_, w.cleanF)):
                            w.note(I, S)
                            I.assume(z3.Implies(w.SV.mem(dd, vs), clean(S, dd)))
                w.note(I, *[x for p in pairs for x in p])
            w.note(I, g)
        I.oblige(z3.Implies(w.holds(t, U), w.holds(r, en)), name)
        I.oblige(z3.Implies(w.holds(r, en), w.holds(t, U)), name)

    for tab in (FCELLS, ECELLS):
        for cls, k in tab.items():
            for fn in prog.find(S_ + cls + '::Substitute'):
                out.append((cls + '::Substitute', cell(cls, k, fn)))

    # handles: every overload
    def handle(cls, fn):
        def t(I):
            isE = cls == 'Expression'
            t = I.fresh(w.E if isE else w.F, 't')
            args = []
            for p in I.params(fn):
                d = w.desc(qt(p))
                args.append(I.alloc(w.fresh_of(I, d, p.get('name') or 'arg')))
            se, sf = w.maps(I, args)
            I.assume((w.ncE if isE else w.ncF)(t, se, sf))
            I.assume(z3.And(w.typedE(se), w.typedF(sf)))
            r = w.ld(I, I.inline(fn, I.alloc(t), args, None))
            en = I.fresh(w.Env, 'en')
            m = w.val if isE else w.holds
            u = w.upd(en, se, sf)
            # with nothing to replace it is the same assignment
            I.assume(w.coincide(t, u, en))
            w.note(I, w.disag(u, en, w.efv(t) if isE else w.fv(t)))
            I.oblige(m(r, en) == m(t, u), 'the value is that of the term at the updated assignment')
        return t
    for cls in ('Expression', 'Formula'):
        for fn in prog.find(S_ + cls + '::Substitute'):
            ty = fn['type']['qualType'].replace('dreal::drake::symbolic::', '')
            out.append(('%s::Substitute %s' % (cls, ty), handle(cls, fn)))
    return out


def lemma_tasks(prog, w):
    """The folds at the updated assignment, by induction over the container (in a world
    without the lemmas)."""
    out = []
    U = lambda en: w.upd(en, w.SE0, w.SF0)

    def lemma(C, a, b, step):
        def t(I):
            en = I.fresh(w.Env, 'en')
            c = lambda s: a(s, en) == b(s, U(en))
            if not step:
                I.oblige(c(C.empty), 'the empty one')
                return
            m = I.fresh(C.sort, 'm')
            I.assume(c(m))
            if C.kind == 'set':
                x = I.fresh(C.T, 'x')
                m2 = C.ins(m, x)
            else:
                x = I.fresh(C.K, 'x')
                I.assume(z3.Not(C.has(m, x)))
                m2 = C.put(m, x, I.fresh(C.T, 'y'))
            I.oblige(c(m2), 'one more entry')
        return t
    for C, a, b in w.lemmas:
        for step in (False, True):
            out.append(('lemma %s, %s' % (a.name(), 'step' if step else 'base'),
                        lemma(C, a, b, step)))
    return out


class _Main:
    SOURCES, world, tasks = SOURCES, staticmethod(world), staticmethod(tasks)


class _Lemmas:
    SOURCES, tasks = SOURCES, staticmethod(lemma_tasks)
    world = staticmethod(lambda prog: SubstWorld(prog, False))


GROUPS = [_Main, _Lemmas]
