"""P22: SMT-LIB sorts, logics and terms."""
import re

import z3

from ..interp import Cont, CppThrow, Obj, Ref, Unsupported
from ..symbolic_world import S_, SymWorld
from ..theory import B, I as INT, R

SOURCES = ['dreal/smt2/sort.cc', 'dreal/smt2/term.cc', 'dreal/smt2/logic.cc']
TRUSTED = ['Formula::Substitute and Expression::Substitute: the value of the result is the value '
           'under the updated assignment (P12)',
           'std::string comparison; output of a string literal']
STR = z3.StringSort()
T_ = 'dreal::Term'


class SmtWorld(SymWorld):
    def __init__(self, prog):
        super().__init__(prog)
        th, V, Env = self.th, self.V, self.Env
        self.opaque -= {'ostream', 'basic_ostream'}
        self.upr = z3.Function('with_real', Env, V, R, Env)
        self.upb = z3.Function('with_bool', Env, V, B, Env)
        self.MVE, self.MVF = th.map_of(V, self.E), th.map_of(V, self.F)
        self.upm = z3.Function('with_all', Env, Env, self.MVE.sort, self.MVF.sort, Env)
        en, en2 = z3.Consts('en en2', Env)
        v, e, f = z3.Const('v', V), z3.Const('e', self.E), z3.Const('f', self.F)
        one = self.MVE.put(self.MVE.empty, v, e)
        th.ax('with one real', th.forall([en, v, e], self.upm(en, en, one, self.MVF.empty) ==
                                         self.upr(en, v, self.val(e, en)),
                                         [self.upm(en, en, one, self.MVF.empty)]))
        onb = self.MVF.put(self.MVF.empty, v, f)
        th.ax('with one bool', th.forall([en, v, f], self.upm(en, en, self.MVE.empty, onb) ==
                                         self.upb(en, v, self.holds(f, en)),
                                         [self.upm(en, en, self.MVE.empty, onb)]))
        th.ax('with none', th.forall([en], self.upm(en, en, self.MVE.empty, self.MVF.empty) == en,
                                     [self.upm(en, en, self.MVE.empty, self.MVF.empty)]))
        for c in ('Formula', 'Expression'):
            self.contracts[S_ + c + '::Substitute'] = self.substitute
        self.en = z3.Const('en', Env)
        self.contracts[S_ + 'operator<<'] = lambda I, t, a, n: self.out(I, a[0], a[1])
        self.nonlinear = False

    def substitute(self, I, this, args, n):
        x = self.lv(I, this)
        a = [self.ld(I, y) for y in args]
        r = I.fresh(x.sort(), 'substituted')
        en = self.en
        E = self.MVE
        if len(a) == 2 and z3.is_expr(a[0]) and a[0].sort() == self.V and z3.is_expr(a[1]):
            if a[1].sort() == self.E:
                I.oblige(self.vtype(a[0]) != self.VT['BOOLEAN'],
                         'an expression replaces a variable that is not Boolean')
                env = self.upr(en, a[0], self.val(a[1], en))
            else:
                I.oblige(self.vtype(a[0]) == self.VT['BOOLEAN'], 'a formula replaces a Boolean variable')
                env = self.upb(en, a[0], self.holds(a[1], en))
        else:
            me, mf = E.empty, self.MVF.empty
            for y in a:
                if isinstance(y, Cont) and y.ops is E:
                    me = y.term
                elif isinstance(y, Cont) and y.ops is self.MVF:
                    mf = y.term
                else:
                    raise Unsupported('Substitute')
            env = self.upm(en, en, me, mf)
        m = self.val if x.sort() == self.E else self.holds
        I.assume(m(r, en) == m(x, env))
        return r

    def out(self, I, os, x):
        o = I.load(os) if isinstance(os, Ref) else os
        if not (isinstance(o, Obj) and o.cls == 'ostream'):
            return os
        v = I.load(x) if isinstance(x, Ref) else x
        old = o.fields['text']
        if z3.is_expr(v) and v.sort() == STR:
            I.store(Ref(os.loc, os.path + ('text',)), z3.simplify(z3.Concat(old, v)))
        else:
            I.store(Ref(os.loc, os.path + ('text',)), I.fresh(STR, 'text'))
        return os

    def std_value_function(self, I, name, v, a, argn, n):
        if name == 'operator<<' and isinstance(v[0], Obj) and v[0].cls == 'ostream':
            return self.out(I, a[0], a[1])
        return super().std_value_function(I, name, v, a, argn, n)


def world(prog):
    return SmtWorld(prog)


def tasks(prog, w):
    def values(enum, scope='dreal::'):
        return {q.split('::')[-1]: v for q, v in prog.enums.items()
                if q.startswith(scope + enum + '::') and q.count('::') == (scope + enum).count('::') + 1}
    SORT, LOGIC = values('Sort'), values('Logic')
    TY = values('Type', 'dreal::Term::')
    VT = w.VT
    NAMES = {'Real': 'Real', 'Int': 'Int', 'Bool': 'Bool', 'Binary': 'Binary'}

    def among(x, vs):
        return z3.Or(*[x == v for v in vs])

    def parse(fn, names, enum):
        def t(I):
            s = I.fresh(STR, 's')
            known = z3.Or(*[s == z3.StringVal(k) for k in names])
            try:
                r = w.ld(I, I.inline(prog.find('dreal::' + fn)[0], None, [I.alloc(s)], None))
            except CppThrow:
                I.oblige(z3.Not(known), 'an error is reported only for an unknown name')
                return
            I.oblige(known, 'an error is reported for every unknown name')
            for k in names:
                I.oblige(z3.Implies(s == z3.StringVal(k), r == enum[k]), '%s is recognised' % k)
        return (fn, t)

    def printed(I, cls, x):
        os = I.alloc(Obj('ostream', {'text': z3.StringVal('')}))
        fn = [f for f in prog.find('dreal::operator<<') if re.search(r'const (dreal::)?%s &' % cls, f['type']['qualType'])][0]
        I.inline(fn, None, [os, I.alloc(x)], None)
        return I.load(os).fields['text']

    def printing(cls, enum):
        def t(I):
            x = I.fresh(INT, 'x')
            I.assume(among(x, enum.values()))
            text = printed(I, cls, x)
            for k, v in enum.items():
                I.oblige((x == v) == (text == z3.StringVal(k)), '%s and nothing else is printed as its name' % k)
        return ('operator<<(%s)' % cls, t)

    def to_type(I):
        s = I.fresh(INT, 'sort')
        I.assume(among(s, SORT.values()))
        r = w.ld(I, I.inline(prog.find('dreal::SortToType')[0], None, [s], None))
        for k, ty in (('Real', 'CONTINUOUS'), ('Int', 'INTEGER'), ('Bool', 'BOOLEAN'), ('Binary', 'BINARY')):
            I.oblige(z3.Implies(s == SORT[k], r == VT[ty]), '%s is the type of sort %s' % (ty, k))

    def term(I, nm):
        ty = I.fresh(INT, nm + '.type')
        I.assume(among(ty, TY.values()))
        e, f = I.fresh(w.E, nm + '.e'), I.fresh(w.F, nm + '.f')
        return I.alloc(Obj(T_, {'type_': ty, 'e_': e, 'f_': f})), ty, e, f

    def unchanged(I, r, ty, e, f, nm='the term is unchanged'):
        o = I.load(r)
        I.oblige(z3.And(o.fields['type_'] == ty, o.fields['e_'] == e, o.fields['f_'] == f), nm)

    def construct(I, sig, args):
        rec = prog.records[T_][0]
        cs = [c for c in rec.get('inner', ()) if c['kind'] == 'CXXConstructorDecl' and
              re.fullmatch(sig, c['type']['qualType'])]
        c = w.find_ctor(rec, cs[0]['type']['qualType'], len(args))
        return I.construct_record(rec, c, args, None)

    def holds_what(I, o, x):
        if x.sort() == w.E:
            I.oblige(z3.And(o.fields['type_'] == TY['EXPRESSION'], o.fields['e_'] == x),
                     'the term is the expression given')
        else:
            I.oblige(z3.And(o.fields['type_'] == TY['FORMULA'], o.fields['f_'] == x),
                     'the term is the formula given')

    def ctors(I):
        e, f = I.fresh(w.E, 'e'), I.fresh(w.F, 'f')
        holds_what(I, construct(I, r'void \((\w+::)*Expression\)', [I.alloc(e)]), e)
        holds_what(I, construct(I, r'void \((\w+::)*Formula\)', [I.alloc(f)]), f)
        o = construct(I, r'void \(\)', [])
        I.oblige(o.fields['type_'] == TY['FORMULA'], 'a default term is a formula')
        I.oblige(z3.Not(w.holds(o.fields['f_'], w.en)), 'a default term is false')

    def assign(sort):
        def t(I):
            r, ty, e, f = term(I, 't')
            x = I.fresh(w.E if sort == 'Expression' else w.F, 'x')
            fn = [q for q in prog.find(T_ + '::operator=') if re.search(r'\((\w+::)*%s\)' % sort, q['type']['qualType'])][0]
            I.inline(fn, r, [I.alloc(x)], None)
            holds_what(I, I.load(r), x)
        return ('Term::operator=(%s)' % sort, t)

    def getter(nm, want):
        def t(I):
            r, ty, e, f = term(I, 't')
            x = e if want == 'EXPRESSION' else f
            try:
                q = I.inline(prog.find(T_ + '::' + nm)[0], r, [], None)
            except CppThrow:
                I.oblige(ty != TY[want], 'an error is reported only if the term is of the other kind')
                return
            I.oblige(ty == TY[want], 'an error is reported if the term is of the other kind')
            I.oblige(w.ld(I, q) == x, 'what was stored is returned')
            unchanged(I, r, ty, e, f)
            if nm.startswith('mutable'):
                y = I.fresh(x.sort(), 'y')
                I.store(q, y)
                holds_what(I, I.load(r), y)
        return ('Term::' + nm, t)

    def kind(I):
        r, ty, e, f = term(I, 't')
        I.oblige(w.ld(I, I.inline(prog.find(T_ + '::type')[0], r, [], None)) == ty, 'the kind is returned')

    def check(sig, enum, boolean):
        def t(I):
            r, ty, e, f = term(I, 't')
            s = I.fresh(INT, 's')
            I.assume(among(s, enum.values()))
            ok = (ty == TY['FORMULA']) == (s == enum[boolean])
            fn = [q for q in prog.find(T_ + '::Check') if re.search(sig, q['type']['qualType'])][0]
            try:
                I.inline(fn, r, [s], None)
            except CppThrow:
                I.oblige(z3.Not(ok), 'a term of the right kind is accepted')
                return
            I.oblige(ok, 'a term of the wrong kind is rejected')
            unchanged(I, r, ty, e, f)
        return ('Term::Check(%s)' % ('Sort' if 'Sort' in sig else 'Variable::Type'), t)

    def substitute(I):
        r, ty, e, f = term(I, 't')
        q, ty2, e2, f2 = term(I, 'by')
        v = I.fresh(w.V, 'v')
        I.assume(among(w.vtype(v), VT.values()))
        isb = w.vtype(v) == VT['BOOLEAN']
        I.assume((ty2 == TY['FORMULA']) == isb)
        o = w.ld(I, I.inline(prog.find(T_ + '::Substitute')[0], r, [I.alloc(v), q], None))
        en = w.en
        er, eb = w.upr(en, v, w.val(e2, en)), w.upb(en, v, w.holds(f2, en))
        I.oblige(o.fields['type_'] == ty, 'the kind of the term stays')
        g, h = o.fields['f_'], o.fields['e_']
        for c, env, nm in ((isb, eb, 'a formula'), (z3.Not(isb), er, 'an expression')):
            I.oblige(z3.Implies(z3.And(ty == TY['FORMULA'], c), w.holds(g, en) == w.holds(f, env)),
                     '%s is substituted in the formula of the term' % nm)
            I.oblige(z3.Implies(z3.And(ty == TY['EXPRESSION'], c), w.val(h, en) == w.val(e, env)),
                     '%s is substituted in the expression of the term' % nm)
        unchanged(I, r, ty, e, f)

    return [parse('ParseSort', NAMES, SORT), parse('parse_logic', {k: k for k in LOGIC}, LOGIC),
            printing('Sort', SORT), printing('Logic', LOGIC), ('SortToType', to_type),
            ('Term::Term', ctors), assign('Expression'), assign('Formula'),
            getter('expression', 'EXPRESSION'), getter('mutable_expression', 'EXPRESSION'),
            getter('formula', 'FORMULA'), getter('mutable_formula', 'FORMULA'), ('Term::type', kind),
            check(r'Sort\)', SORT, 'Bool'), check(r'Type\)', VT, 'BOOLEAN'),
            ('Term::Substitute', substitute)]
