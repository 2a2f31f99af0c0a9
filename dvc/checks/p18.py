"""P18: Variables are sets, Environments reject bad values."""
import z3

from ..interp import Cont, CppThrow, IterV, Obj, Ref, Unsupported
from ..templates import scope_values
from ..theory import B, I as INT, R
from ..world import Cand, World, snap_get

SYM = 'third_party/com_github_robotlocomotion_drake/dreal/symbolic/'
SOURCES = [SYM + 'symbolic_variables.cc', SYM + 'symbolic_environment.cc', SYM + 'symbolic_variable.cc']
S_ = 'dreal::drake::symbolic::'
VS, EN, VR = S_ + 'Variables', S_ + 'Environment', S_ + 'Variable::'
TRUSTED = ['std::set, std::unordered_map and initializer lists (library contracts)',
           'std::includes, std::equal and std::set_intersection over two whole std::sets, with '
           'the order of the sets: inclusion, equality and intersection',
           'a variable is its identifier; two handles of one variable are one value']
ASSUMPTIONS = ['doubles are real numbers, or NaN']


class VarWorld(World):
    def __init__(self, prog):
        super().__init__(prog)
        th = self.th
        V = self.V = th.sort('V')
        self.scalar_types['Variable'] = V
        self.vid = z3.Function('vid', V, INT)
        v, u = z3.Consts('v u', V)
        th.ax('vid', th.forall([v, u], z3.Implies(self.vid(v) == self.vid(u), v == u),
                               [(self.vid(v), self.vid(u))]))
        th.ax('vid0', th.forall([v], self.vid(v) >= 0, [self.vid(v)]))
        self.nanp = z3.Function('isnan', R, B)
        th.ax('nan0', z3.Not(self.nanp(z3.RealVal(0))))
        SV, M = self.SV, self.M = th.set_of(V), th.map_of(V, R)
        self.P = self.pair_sort(V, R)
        QV = self.QV = th.seq_of(V)
        QP = self.QP = self.ops(('seq', ('pair', ('z', V), ('z', R))))
        s, x = z3.Const('s', SV.sort), z3.Const('x', V)
        th.ax('card_del', th.forall([s, x], SV.card(SV.dele(s, x)) == SV.card(s) - z3.If(
            SV.mem(x, s), 1, 0), [SV.dele(s, x)]))
        self.sub = SV.fold_all('subset', lambda x, t: SV.mem(x, t), (SV.sort,))
        dummy = self.dummy = lambda v: self.vid(v) == 0
        self.goodq = QP.fold_all('all entries good', lambda p: z3.And(
            z3.Not(dummy(self.P.fst(p))), z3.Not(self.nanp(self.P.snd(p)))))
        self.goodm = M.fold_all('all mappings good', lambda k, v: z3.And(
            z3.Not(dummy(k)), z3.Not(self.nanp(v))))
        self.goodv = QV.fold_all('all proper variables', lambda v: z3.Not(dummy(v)))
        self.zero = M.fold_all('all zero', lambda k, v: v == 0)
        notin = QV.fold_all('not listed', lambda y, v: y != v, (V,))
        self.inq = lambda q, v: z3.Not(notin(q, v))
        notinp = QP.fold_all('not a listed key', lambda p, v: self.P.fst(p) != v, (V,))
        self.inqp = lambda q, v: z3.Not(notinp(q, v))
        # containers built from a list
        self.elems = z3.Function('elems', QV.sort, SV.sort)
        q = z3.Const('q', QV.sort)
        th.ax('elems', th.forall([q, x], SV.mem(x, self.elems(q)) == self.inq(q, x),
                                 [SV.mem(x, self.elems(q))]))
        self.mapof = z3.Function('mapof', QP.sort, M.sort)
        self.first = z3.Function('first entry', QP.sort, V, R)
        qp, p = z3.Const('q', QP.sort), z3.Const('p', self.P.sort)
        th.ax('mapof', th.forall([qp, x], z3.And(
            M.has(self.mapof(qp), x) == self.inqp(qp, x),
            z3.Implies(self.inqp(qp, x), M.get(self.mapof(qp), x) == self.first(qp, x))),
            [M.has(self.mapof(qp), x)]))
        # templates
        self.acc[SV.sort.name()] = [('in', lambda t, v: SV.mem(v, t), (V,))]
        self.acc[M.sort.name()] = [('has', lambda t, v: M.has(t, v), (V,)),
                                   ('all zero', self.zero, ()), ('all good', self.goodm, ())]
        self.proc[SV.sort.name()] = [('in', lambda t, v: SV.mem(v, t), (V,))]
        self.proc[M.sort.name()] = [('has', lambda t, v: M.has(t, v), (V,)),
                                    ('all good', self.goodm, ())]
        self.proc[QV.sort.name()] = [('in', self.inq, (V,))]
        self.extra_candidates.append(self.templates)
        self.less_ok = True
        c = self.contracts
        c[VR + 'is_dummy'] = lambda I, t, a, n: dummy(I.load(t))
        c[VR + 'get_id'] = lambda I, t, a, n: self.vid(I.load(t))
        c[VR + 'equal_to'] = lambda I, t, a, n: I.load(t) == self.ld(I, a[0])
        c[VR + 'less'] = lambda I, t, a, n: self.vid(I.load(t)) < self.vid(self.ld(I, a[0]))
        c[S_ + 'operator<<'] = lambda I, t, a, n: a[0]      # text is not looked at
        self.nonlinear = False

    def templates(self, I, node, entry, havoced, mods, iters, accs, pterm, term):
        out = []
        q = z3.Const('tv', self.V)
        for loc, path in accs:
            t0 = term(snap_get(entry, loc, path))
            if t0 is None:
                continue
            at = lambda s, loc=loc, path=path: term(snap_get(s, loc, path))
            out.append(Cand('unchanged', lambda s, at=at, t0=t0: at(s) == t0))
            if t0.sort() == self.SV.sort:
                for it in iters:
                    def rem(s, at=at, it=it, t0=t0):
                        P = pterm(s, it)
                        if P is None or P.sort() != self.SV.sort:
                            return None
                        m = self.SV.mem(q, at(s))
                        return z3.ForAll([q], m == z3.And(self.SV.mem(q, t0), z3.Not(
                            self.SV.mem(q, P))), patterns=[m])
                    out.append(Cand('what is done is removed', rem))
                for l2, p2 in accs:
                    i0 = term(snap_get(entry, l2, p2))
                    if i0 is not None and i0.sort() == INT:
                        out.append(Cand('counts the removed', lambda s, at=at, t0=t0, l2=l2, p2=p2,
                                        i0=i0: term(snap_get(s, l2, p2)) - i0 == self.SV.card(
                                            t0) - self.SV.card(at(s))))
        for it in iters:
            for nm, fold, so in (('good', self.goodq, self.QP), ('good', self.goodm, self.M),
                                 ('proper', self.goodv, self.QV)):
                def done(s, it=it, fold=fold, so=so):
                    P = pterm(s, it)
                    return fold(P) if P is not None and P.sort() == so.sort else None
                out.append(Cand('what is done is ' + nm, done))
        return out

    def range_of(self, v):
        return {VS: 'vars_', EN: 'map_'}.get(v.cls)

    def default_term(self, I, sort, t):
        if sort == self.V:
            d = I.fresh(sort, 'dummy')
            I.assume(self.dummy(d))
            return d

    def construct(self, I, n, t, argn, ct):
        from ..interp import norm_type
        base, args, _, _, full = norm_type(t)
        if base in ('less', 'equal_to') and args and norm_type(args[0])[0] == 'Variable':
            return Obj(base, {})
        return super().construct(I, n, t, argn, ct)

    def init_list(self, I, n, t, items):
        from ..interp import norm_type
        base, args, _, _, full = norm_type(t)
        if base in ('less', 'equal_to') and not items and args and norm_type(args[0])[0] == 'Variable':
            return Obj(base, {})
        return super().init_list(I, n, t, items)

    def cont_from(self, I, d, c):
        """set / map built from a sequence"""
        o = self.ops(d)
        if o is self.SV and c.ops is self.QV:
            return Cont(o, self.elems(c.term), d[-1])
        if o is self.M and c.ops is self.QP:
            return Cont(o, self.mapof(c.term), d[-1])
        raise Unsupported('container from a list')

    def whole(self, I, a, b):
        if not (isinstance(a, IterV) and isinstance(b, IterV) and a.cref.loc == b.cref.loc and
                a.cref.path == b.cref.path and
                a.snap.ops is self.SV and not a.snap.unordered and a.state != 'end' and
                b.state == 'end' and a.p is not None and a.p.eq(self.SV.empty)):
            raise Unsupported('algorithm over part of a range')
        return a.snap.term

    def std_value_function(self, I, name, v, a, argn, n):
        if name == 'isnan' and z3.is_expr(v[0]) and v[0].sort() == R:
            return self.nanp(v[0])
        if name in ('includes', 'equal', 'set_intersection') and isinstance(v[-1], Obj):
            if v[-1].cls != ('equal_to' if name == 'equal' else 'less') or len(v) != (
                    6 if name == 'set_intersection' else 5):
                raise Unsupported('std::' + name)
            x, y = self.whole(I, v[0], v[1]), self.whole(I, v[2], v[3])
            if name == 'includes':
                return self.sub(y, x)
            if name == 'equal':
                return z3.And(self.sub(x, y), self.sub(y, x))
            out = I.load(v[4].cref)
            if out.ops is not self.SV:
                raise Unsupported('std::' + name)
            r, q = I.fresh(self.SV.sort, 'both'), z3.Const('q', self.V)
            m = self.SV.mem
            I.assume(z3.ForAll([q], m(q, r) == z3.And(m(q, x), m(q, y)), patterns=[
                m(q, r), z3.MultiPattern(m(q, x), m(q, y))]))
            I.store(v[4].cref, Cont(self.SV, self.SV.uni(out.term, r), out.unordered))
            return v[4]
        return super().std_value_function(I, name, v, a, argn, n)


def world(prog):
    return VarWorld(prog)


def tasks(prog, w):
    SV, M, mem = w.SV, w.M, w.SV.mem

    def vset(I, nm):
        t = I.fresh(SV.sort, nm)
        return I.alloc(Obj(VS, {'vars_': Cont(SV, t, False)})), t

    def env(I, nm='env'):
        t = I.fresh(M.sort, nm)
        return I.alloc(Obj(EN, {'map_': Cont(M, t, True)})), t

    def cur(I, r):
        o = w.ld(I, r)
        return o.fields['vars_' if 'vars_' in o.fields else 'map_'].term

    def same(I, t, spec, nm):
        """t is the set of the variables of which spec holds."""
        v = I.fresh(w.V, 'v')
        I.oblige(mem(v, t) == spec(v), nm)

    def truth(I, r):
        return I.as_bool(w.ld(I, r))

    out = []

    def find(q, sig):
        fs = prog.find(q, sig)
        if len(fs) != 1:
            raise Unsupported('%d functions %s %s' % (len(fs), q, sig))
        return fs[0]
    CV, CVS = r'const (dreal::drake::symbolic::)?Variable &', r'const (dreal::drake::symbolic::)?Variables &'

    # operations on two sets, also on one set twice
    def binary(q, sig, spec, nm, member=False, changes=False, result='set', free_first='value'):
        for alias in (False, True):
            def t(I, alias=alias):
                ra, a = vset(I, 'a')
                rb, b = (ra, a) if alias else vset(I, 'b')
                fn = find(q, sig)
                if member:
                    r = I.inline(fn, ra, [rb], None)
                elif free_first == 'value':
                    # passed by value: a copy
                    r = I.inline(fn, None, [I.alloc(I.load(ra)), rb], None)
                else:
                    r = I.inline(fn, None, [ra, rb], None)
                if result == 'set':
                    same(I, cur(I, r), lambda v: spec(v, a, b), 'the result is the ' + nm)
                elif result == 'bool':
                    I.oblige(truth(I, r) == spec(None, a, b), 'the answer is the ' + nm)
                elif result == 'count':
                    I.oblige(w.ld(I, r) == SV.card(a) - SV.card(cur(I, ra)),
                             'the number of erased elements is reported')
                if changes:
                    same(I, cur(I, ra), lambda v: spec(v, a, b), 'the set becomes the ' + nm)
                else:
                    I.oblige(cur(I, ra) == a, 'the first set is unchanged')
                if not alias:
                    I.oblige(cur(I, rb) == b, 'the second set is unchanged')
            out.append(('%s(%s)%s' % (q[len(S_):], 'Variables' if member else 'Variables, Variables',
                                      ' with itself' if alias else ''), t))
    union = lambda v, a, b: z3.Or(mem(v, a), mem(v, b))
    diff = lambda v, a, b: z3.And(mem(v, a), z3.Not(mem(v, b)))
    both = lambda v, a, b: z3.And(mem(v, a), mem(v, b))
    sub = w.sub
    binary(VS + '::insert', r'\(%s\)' % CVS, union, 'union', True, True, None)
    binary(VS + '::erase', r'\(%s\)' % CVS, diff, 'difference', True, True, 'count')
    binary(S_ + 'operator+=', r'Variables &, %s\)' % CVS, union, 'union', changes=True, free_first='ref')
    binary(S_ + 'operator-=', r'Variables &, %s\)' % CVS, diff, 'difference', changes=True,
           free_first='ref')
    binary(S_ + 'operator+', r'Variables, %s\)' % CVS, union, 'union')
    binary(S_ + 'operator-', r'Variables, %s\)' % CVS, diff, 'difference')
    binary(S_ + 'intersect', None, both, 'intersection', free_first='ref')
    binary(S_ + 'operator==', r'Variables', lambda _, a, b: z3.And(sub(a, b), sub(b, a)),
           'equality of sets', result='bool', free_first='ref')
    for nm, spec in (
            ('IsSubsetOf', lambda _, a, b: sub(a, b)), ('IsSupersetOf', lambda _, a, b: sub(b, a)),
            ('IsStrictSubsetOf', lambda _, a, b: z3.And(sub(a, b), z3.Not(sub(b, a)))),
            ('IsStrictSupersetOf', lambda _, a, b: z3.And(sub(b, a), z3.Not(sub(a, b))))):
        binary(VS + '::' + nm, None, spec, 'mathematical relation', True, result='bool')

    # operations with one variable
    def with_var(q, sig, spec, nm, order='sv', member=False, byvalue=False, changes=False,
                 result='set'):
        def t(I):
            ra, a = vset(I, 'a')
            x = I.fresh(w.V, 'x')
            rx = I.alloc(x)
            fn = find(q, sig)
            if member:
                r = I.inline(fn, ra, [rx], None)
            else:
                args = [I.alloc(I.load(ra)) if byvalue else ra, rx]
                r = I.inline(fn, None, args if order == 'sv' else args[::-1], None)
            s1 = lambda v: spec(v, a, x)
            if result == 'set':
                same(I, cur(I, r), s1, 'the result is the ' + nm)
            elif result == 'count':
                I.oblige(w.ld(I, r) == z3.If(mem(x, a), 1, 0), 'the number of erased elements is reported')
            elif result == 'bool':
                I.oblige(truth(I, r) == spec(None, a, x), 'the answer is ' + nm)
            if changes:
                same(I, cur(I, ra), s1, 'the set becomes the ' + nm)
            else:
                I.oblige(cur(I, ra) == a, 'the set is unchanged')
        out.append(('%s(%s)' % (q[len(S_):], 'Variable' if member else 'Variables, Variable'
                                if order == 'sv' else 'Variable, Variables'), t))
    add = lambda v, a, x: z3.Or(mem(v, a), v == x)
    rem = lambda v, a, x: z3.And(mem(v, a), v != x)
    with_var(VS + '::insert', r'\(%s\)' % CV, add, 'set with the variable', member=True,
             changes=True, result=None)
    with_var(VS + '::erase', r'\(%s\)' % CV, rem, 'set without the variable', member=True,
             changes=True, result='count')
    with_var(S_ + 'operator+=', r'Variables &, %s\)' % CV, add, 'set with the variable', changes=True)
    with_var(S_ + 'operator-=', r'Variables &, %s\)' % CV, rem, 'set without the variable', changes=True)
    with_var(S_ + 'operator+', r'\((dreal::drake::symbolic::)?Variables, %s\)' % CV, add,
             'set with the variable', byvalue=True)
    with_var(S_ + 'operator+', r'\(%s, (dreal::drake::symbolic::)?Variables\)' % CV, add,
             'set with the variable', order='vs', byvalue=True)
    with_var(S_ + 'operator-', r'\((dreal::drake::symbolic::)?Variables, %s\)' % CV, rem,
             'set without the variable', byvalue=True)
    with_var(VS + '::include', None, lambda _, a, x: mem(x, a), 'membership', member=True, result='bool')

    def sizes(I):
        ra, a = vset(I, 'a')
        I.oblige(w.ld(I, I.inline(find(VS + '::size', None), ra, [], None)) == SV.card(a),
                 'size counts the elements')
        I.oblige(truth(I, I.inline(find(VS + '::empty', None), ra, [], None)) == (SV.card(a) == 0),
                 'empty says whether there is no element')
    out.append(('Variables::size, empty', sizes))

    def finder(I):
        ra, a = vset(I, 'a')
        x = I.fresh(w.V, 'x')
        for fn in prog.find(VS + '::find'):
            r = w.ld(I, I.inline(fn, ra, [I.alloc(x)], None))
            I.oblige((z3.BoolVal(r.state != 'end')) == mem(x, a), 'find reaches an element exactly '
                     'when it is there')
            if r.state == 'at':
                I.oblige(r.cur == x, 'find reaches the element asked for')
    out.append(('Variables::find', finder))

    def construct(I, cls, sig, arg):
        cs = [c for r in prog.records[cls] for c in r.get('inner', ())
              if c['kind'] == 'CXXConstructorDecl' and sig in c['type']['qualType'].replace(S_, '')]
        if not cs:
            raise Unsupported('constructor ' + sig)
        rec = prog.records[cls][0]
        c = w.find_ctor(rec, cs[0]['type']['qualType'], 1)
        if c is None:
            raise Unsupported('constructor ' + sig)
        return I.construct_record(rec, c, [I.alloc(arg)], None)

    def vlist(I):
        q = I.fresh(w.QV.sort, 'list')
        o = construct(I, VS, 'initializer_list<Variable>', Cont(w.QV, q))
        same(I, o.fields['vars_'].term, lambda v: w.inq(q, v), 'the set holds exactly the listed variables')
    out.append(('Variables::Variables(list)', vlist))

    # ------------------------------------------------------ environments
    def checked(good, bad, f):
        """f throws exactly when `good` fails."""
        def t(I):
            st = {}
            try:
                f(I, st)
            except CppThrow:
                I.oblige(z3.Not(good(st)), 'an error is reported only for ' + bad)
                return
            I.oblige(good(st), 'an error is reported for every ' + bad)
            st['post']()
        return t

    def elist(I, st):
        q = st['q'] = I.fresh(w.QP.sort, 'list')
        st['post'] = lambda: None
        o = construct(I, EN, 'value_type', Cont(w.QP, q))
        m = o.fields['map_'].term

        def post():
            v = I.fresh(w.V, 'v')
            I.oblige(M.has(m, v) == w.inqp(q, v), 'exactly the listed variables have a value')
            I.oblige(z3.Implies(M.has(m, v), M.get(m, v) == w.first(q, v)),
                     'the value of a variable is the one first listed')
        st['post'] = post
    out.append(('Environment::Environment(list of entries)',
                checked(lambda st: w.goodq(st['q']), 'dummy variable or NaN', elist)))

    def evars(I, st):
        q = st['q'] = I.fresh(w.QV.sort, 'list')
        o = construct(I, EN, 'key_type', Cont(w.QV, q))
        m = o.fields['map_'].term

        def post():
            v = I.fresh(w.V, 'v')
            I.oblige(M.has(m, v) == w.inq(q, v), 'exactly the listed variables have a value')
            I.oblige(z3.Implies(M.has(m, v), M.get(m, v) == 0), 'the value of a variable is zero')
        st['post'] = post
    out.append(('Environment::Environment(list of variables)',
                checked(lambda st: w.goodv(st['q']), 'dummy variable', evars)))

    def emap(I, st):
        t = st['m'] = I.fresh(M.sort, 'map')
        o = construct(I, EN, '(map)', Cont(M, t, True)) if any(
            '(map)' in c['type']['qualType'] for r in prog.records[EN] for c in r.get('inner', ())
            if c['kind'] == 'CXXConstructorDecl') else construct(I, EN, 'Environment::map)', Cont(M, t, True))
        st['post'] = lambda: I.oblige(o.fields['map_'].term == t, 'the environment holds the given mappings')
    out.append(('Environment::Environment(map)',
                checked(lambda st: w.goodm(st['m']), 'dummy variable or NaN', emap)))

    def insert(I, st):
        re_, m = env(I)
        k, d = st['k'], st['d'] = I.fresh(w.V, 'k'), I.fresh(R, 'd')
        I.inline(find(EN + '::insert', None), re_, [I.alloc(k), I.alloc(d)], None)

        def post():
            v, m2 = I.fresh(w.V, 'v'), cur(I, re_)
            I.oblige(M.has(m2, v) == z3.Or(M.has(m, v), v == k), 'the variable gets a value')
            I.oblige(z3.Implies(M.has(m, v), M.get(m2, v) == M.get(m, v)), 'existing values are kept')
            I.oblige(z3.Implies(z3.Not(M.has(m, k)), M.get(m2, k) == d), 'the given value is stored')
        st['post'] = post
    out.append(('Environment::insert', checked(
        lambda st: z3.And(z3.Not(w.dummy(st['k'])), z3.Not(w.nanp(st['d']))),
        'dummy variable or NaN', insert)))

    def index(const):
        def f(I, st):
            re_, m = env(I)
            k = st['k'] = I.fresh(w.V, 'k')
            st['m'] = m
            fs = [x for x in prog.find(EN + '::operator[]')
                  if x['type']['qualType'].rstrip().endswith('const') == const]
            r = I.inline(fs[0], re_, [I.alloc(k)], None)

            def post():
                v, m2 = I.fresh(w.V, 'v'), cur(I, re_)
                I.oblige(w.ld(I, r) == z3.If(M.has(m, k), M.get(m, k), 0), 'the value stored is returned')
                I.oblige(z3.Implies(M.has(m, v), z3.And(M.has(m2, v), M.get(m2, v) == M.get(m, v))),
                         'existing values are kept')
                if const:
                    I.oblige(m2 == m, 'nothing is changed')
                else:
                    I.oblige(M.has(m2, v) == z3.Or(M.has(m, v), v == k), 'the variable gets a value')
                    x = I.fresh(R, 'x')
                    I.store(r, x)
                    I.oblige(M.get(cur(I, re_), k) == x, 'the result refers to the stored value')
            st['post'] = post
        return f
    out.append(('Environment::operator[]', checked(
        lambda st: z3.Not(w.dummy(st['k'])), 'dummy variable', index(False))))
    out.append(('Environment::operator[] const', checked(
        lambda st: z3.And(z3.Not(w.dummy(st['k'])), w.M.has(st['m'], st['k'])),
        'dummy or missing variable', index(True))))

    def domain(I):
        re_, m = env(I)
        r = I.inline(find(EN + '::domain', None), re_, [], None)
        same(I, cur(I, r), lambda v: M.has(m, v), 'the domain is the set of variables with a value')
        I.oblige(cur(I, re_) == m, 'nothing is changed')
    out.append(('Environment::domain', domain))

    def misc(I):
        re_, m = env(I)
        k = I.fresh(w.V, 'k')
        I.oblige(w.ld(I, I.inline(find(EN + '::size', None), re_, [], None)) == M.card(m), 'size')
        I.oblige(truth(I, I.inline(find(EN + '::empty', None), re_, [], None)) == (M.card(m) == 0), 'empty')
        for fn in prog.find(EN + '::find'):
            r = w.ld(I, I.inline(fn, re_, [I.alloc(k)], None))
            I.oblige(z3.BoolVal(r.state != 'end') == M.has(m, k), 'find reaches a mapping exactly when there is one')
            if r.state == 'at':
                e = I.load(I.deref_iter(I.alloc(r)))
                I.oblige(z3.And(e.fields['first'] == k, e.fields['second'] == M.get(m, k)),
                         'find reaches the mapping asked for')
    out.append(('Environment::size, empty, find', misc))
    return out


class _Identity:
    """Variables are compared by identifier (Variable as the record it is)."""
    SOURCES = [SYM + 'symbolic_variable.cc']

    @staticmethod
    def world(prog):
        w = World(prog)
        w.nonlinear = False
        return w

    @staticmethod
    def tasks(prog, w):
        def var(I, nm):
            i = I.fresh(INT, nm)
            I.assume(i >= 0)
            return I.alloc(Obj(VR[:-2], {'id_': i, 'type_': I.fresh(INT, nm + '.type')})), i

        def rel(nm, spec):
            def t(I):
                (ra, a), (rb, b) = var(I, 'a'), var(I, 'b')
                r = I.as_bool(w.ld(I, I.inline(prog.find(VR + nm)[0], ra, [rb], None)))
                I.oblige(r == spec(a, b), 'decided by the identifiers')
            return ('Variable::' + nm, t)

        def dummy(I):
            ra, a = var(I, 'a')
            I.oblige(I.as_bool(w.ld(I, I.inline(prog.find(VR + 'is_dummy')[0], ra, [], None))) == (a == 0),
                     'the anonymous variable is the one with identifier zero')
            I.oblige(w.ld(I, I.inline(prog.find(VR + 'get_id')[0], ra, [], None)) == a, 'the identifier')
        return [rel('equal_to', lambda a, b: a == b), rel('less', lambda a, b: a < b),
                ('Variable::is_dummy, get_id', dummy)]


class _Main:
    pass


_Main.SOURCES, _Main.TRUSTED, _Main.ASSUMPTIONS = SOURCES, TRUSTED, ASSUMPTIONS
_Main.world, _Main.tasks = staticmethod(world), staticmethod(tasks)
GROUPS = [_Main, _Identity]
