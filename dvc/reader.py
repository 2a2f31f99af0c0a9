"""A reader of prefix (SMT-LIB) terms, as the ghost state of an output stream.

The state of the reader after the text printed so far is a term of the
uninterpreted sort St.  Text that the program prints moves it; text that the
reader does not accept in the state moves it to an unknown state, about which
nothing can be proved.  Terms are read under one arbitrary assignment `en`.
"""
import re

import z3

from .interp import Obj, Ref, Unsupported, Opaque
from .symbolic_world import SymWorld, S_, UNARY
from .theory import B, I as INT, R

STREAMS = ('ostream', 'basic_ostream', 'ostringstream', 'basic_ostringstream', 'stringstream')
PREC = 17
UN = {k.lower(): k for k in UNARY}
BIN = {'/': 'Div', '^': 'Pow', 'pow': 'Pow', 'atan2': 'Atan2', 'min': 'Min', 'max': 'Max'}
CMP = {'=': lambda a, b: a == b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
       '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
NARY = ('+', '*', 'and', 'or')


class ReaderWorld(SymWorld):
    def __init__(self, prog):
        super().__init__(prog)
        self.opaque -= set(STREAMS)
        th = self.th
        St = self.St = th.sort('St')
        self.en = z3.Const('en_read', self.Env)
        fn = z3.Function
        self.sp, self.close, self.par = fn('sp', St, St), fn('close', St, St), fn('par', St, St)
        self.ready = fn('ready', St, B)
        self.seen = fn('seen', St, B)
        self.dr, self.db = fn('dr', St, R, St), fn('db', St, B, St)
        self.tokr, self.tokb = fn('tokr', St, R, St), fn('tokb', St, B, St)
        self.opname = fn('opname', St, INT, St)
        self.ops = {}
        for x in list(UN) + list(BIN) + list(CMP) + list(NARY) + ['-', 'not', 'ite']:
            self.ops[x] = len(self.ops)
        L0, L1, L2 = fn('L0', St, INT, St), fn('L1', St, INT, R, St), fn('L2', St, INT, R, R, St)
        LN = fn('LN', St, B, St)
        LI, LI1, LI2 = fn('LI', St, B, St), fn('LI1', St, B, R, St), fn('LI2', St, B, R, R, St)
        self.LS, self.LP = fn('LS', St, R, St), fn('LP', St, R, St)
        self.LA, self.LO = fn('LA', St, B, St), fn('LO', St, B, St)
        s = z3.Const('s', St)
        x, y = z3.Reals('x y')
        b, c = z3.Bools('b c')
        k = z3.Int('k')
        A = lambda nm, vs, body, pat: th.ax('read.' + nm, th.forall(vs, body, [pat]))
        sp, close, ready, dr, db = self.sp, self.close, self.ready, self.dr, self.db
        A('spsp', [s], sp(sp(s)) == sp(s), sp(sp(s)))
        A('closesp', [s], close(sp(s)) == close(s), close(sp(s)))
        A('sp', [s], z3.Implies(ready(s), sp(s) == s), sp(s))
        # a delivered value leaves the reader ready
        for nm, q, v, t in (('dr', dr, x, self.tokr), ('db', db, b, self.tokb)):
            A(nm + '.ready', [s, v], z3.Implies(ready(s), ready(q(s, v))), q(s, v))
            A(nm + '.tok', [s, v], z3.Implies(ready(s), z3.And(
                sp(t(s, v)) == q(s, v), close(t(s, v)) == close(q(s, v)))), t(s, v))
        self.nary0 = {'+': (self.LS, z3.RealVal(0)), '*': (self.LP, z3.RealVal(1)),
                      'and': (self.LA, z3.BoolVal(True)), 'or': (self.LO, z3.BoolVal(False))}
        on = self.opname
        for nm, kk in self.ops.items():
            op = z3.IntVal(kk)
            if nm in NARY:
                f, z = self.nary0[nm]
                body = sp(on(s, op)) == f(s, z)
            else:
                body = sp(on(s, op)) == L0(s, op)
            A('open ' + nm, [s], body, on(s, op))
        for f, v, q, out in ((self.LS, x, dr, lambda p: p), (self.LP, x, dr, lambda p: p),
                             (self.LA, b, db, lambda p: p), (self.LO, b, db, lambda p: p)):
            A('nary.close', [s, v], z3.And(ready(f(s, v)), close(f(s, v)) == q(s, v)), f(s, v))
        A('+', [s, x, y], dr(self.LS(s, x), y) == self.LS(s, x + y), dr(self.LS(s, x), y))
        A('*', [s, x, y], dr(self.LP(s, x), y) == self.LP(s, x * y), dr(self.LP(s, x), y))
        A('and', [s, b, c], db(self.LA(s, b), c) == self.LA(s, z3.And(b, c)), db(self.LA(s, b), c))
        A('or', [s, b, c], db(self.LO(s, b), c) == self.LO(s, z3.Or(b, c)), db(self.LO(s, b), c))
        A('L0', [s, k], ready(L0(s, k)), L0(s, k))
        A('L1', [s, k, x], z3.And(ready(L1(s, k, x)), dr(L0(s, k), x) == z3.If(
            z3.And(k != self.ops['ite'], k != self.ops['not']), L1(s, k, x), dr(L0(s, k), x))),
            dr(L0(s, k), x))
        A('L1b', [s, k, x], ready(L1(s, k, x)), L1(s, k, x))
        A('L2', [s, k, x, y], dr(L1(s, k, x), y) == L2(s, k, x, y), dr(L1(s, k, x), y))
        for nm, kk in self.ops.items():
            op = z3.IntVal(kk)
            if nm == '-':
                A('neg', [s, x], close(L1(s, op, x)) == dr(s, -x), close(L1(s, op, x)))
                A('sub', [s, x, y], close(L2(s, op, x, y)) == dr(s, x - y), close(L2(s, op, x, y)))
            elif nm in UN:
                f = (lambda t: z3.If(t >= 0, t, -t)) if nm == 'abs' else self.fn1[UN[nm]]
                A('un ' + nm, [s, x], close(L1(s, op, x)) == dr(s, f(x)), close(L1(s, op, x)))
            elif nm in BIN:
                f = {'Div': self.divf, 'Pow': self.powf, 'Atan2': self.atan2f,
                     'Min': lambda p, q: z3.If(q < p, q, p),
                     'Max': lambda p, q: z3.If(p < q, q, p)}[BIN[nm]]
                A('bin ' + nm, [s, x, y], close(L2(s, op, x, y)) == dr(s, f(x, y)),
                  close(L2(s, op, x, y)))
            elif nm in CMP:
                A('cmp ' + nm, [s, x, y], close(L2(s, op, x, y)) == db(s, CMP[nm](x, y)),
                  close(L2(s, op, x, y)))
        n_, i_ = z3.IntVal(self.ops['not']), z3.IntVal(self.ops['ite'])
        A('not', [s, b], z3.And(db(L0(s, n_), b) == LN(s, b), ready(LN(s, b)),
                                close(LN(s, b)) == db(s, z3.Not(b))), db(L0(s, n_), b))
        A('ite0', [s, b], z3.And(db(L0(s, i_), b) == LI(s, b), ready(LI(s, b))), db(L0(s, i_), b))
        A('ite1', [s, b, x], z3.And(dr(LI(s, b), x) == LI1(s, b, x), ready(LI1(s, b, x))),
          dr(LI(s, b), x))
        A('ite2', [s, b, x, y], z3.And(dr(LI1(s, b, x), y) == LI2(s, b, x, y), close(
            LI2(s, b, x, y)) == dr(s, z3.If(b, x, y))), dr(LI1(s, b, x), y))
        self.contracts[S_ + 'operator<<'] = lambda I, t, a, n: self.out(I, a[0], a[1])
        self._folds()

    def _folds(self):
        """The n-ary lists after the elements already printed."""
        St = self.St
        s = z3.Const('s', St)
        en = self.en

        # adding to the value collected in the innermost list
        def h(I, node, entry, havoced, mods, iters, accs, pterm, term):
            from .world import Cand, snap_get
            out = []
            for loc, path in accs:
                e0 = term(snap_get(entry, loc, path))
                if e0 is None or e0.sort() != St:
                    continue
                base = z3.Const('base', St)
                for it in iters:
                    for nm, f, fold, so, comb in (
                            ('sum', self.LS, self.vsum, self.MED.sort, lambda p, q: p + q),
                            ('product', self.LP, self.vprod, self.MEE.sort, lambda p, q: p * q),
                            ('and', self.LA, self.allh, self.SF.sort, z3.And),
                            ('or', self.LO, lambda P, e: z3.Not(self.noneh(P, e)), self.SF.sort,
                             z3.Or)):
                        def at(sn, loc=loc, path=path, it=it, f=f, fold=fold, so=so, comb=comb, e0=e0):
                            t, P = term(snap_get(sn, loc, path)), pterm(sn, it)
                            if t is None or P is None or P.sort() != so:
                                return None
                            v = z3.Const('v', f.domain(1))
                            return z3.ForAll([base, v], z3.Implies(
                                self.sp(e0) == f(base, v), self.sp(t) == f(
                                    base, comb(v, fold(P, en)))), patterns=[f(base, v)])
                        out.append(Cand('the list read so far is the %s of what is done' % nm, at))
            return out
        self.extra_candidates.append(h)

    # ---------------------------------------------------------- printing
    def stream(self, I, st=None, prec=None):
        return Obj('ostream', {
            'st': st if st is not None else I.fresh(self.St, 'stream'),
            'prec': prec if prec is not None else I.fresh(INT, 'precision')})

    def emit(self, I, os, f, *a):
        o = I.load(os)
        self.set(I, os, f(o.fields['st'], *a))

    def set(self, I, os, st):
        I.store(Ref(os.loc, os.path + ('st',)), st)
        I.assume(self.seen(st))          # (only makes the term known to the solver)
        I.assume(self.seen(self.sp(st)))

    def unknown(self, I, os):
        I.store(Ref(os.loc, os.path + ('st',)), I.fresh(self.St, 'unreadable'))

    def out(self, I, os, x):
        """os << x"""
        if not isinstance(os, Ref):
            os = I.alloc(os)
        o = I.load(os)
        if not (isinstance(o, Obj) and o.cls == 'ostream'):
            raise Unsupported('stream')
        v = I.load(x) if isinstance(x, Ref) else x
        st = o.fields['st']
        if z3.is_expr(v) and v.sort() == z3.StringSort():
            v = z3.simplify(v)
            if not z3.is_string_value(v):
                self.unknown(I, os)
                return os
            self.text(I, os, v.as_string())
        elif z3.is_expr(v) and v.sort() == R:
            I.oblige(v >= 0, 'a numeral is printed without a sign')
            I.oblige(o.fields['prec'] >= PREC, 'the precision is enough to print a double exactly')
            I.oblige(self.ready(st), 'a numeral is printed where a term can start')
            self.emit(I, os, self.tokr, v)
        elif z3.is_expr(v) and v.sort() == self.V:
            I.oblige(self.ready(st), 'a variable is printed where a term can start')
            if I.branch(self.vtype(v) == self.VT['BOOLEAN']):
                self.emit(I, os, self.tokb, self.bval(self.en, v))
            else:
                self.emit(I, os, self.tokr, self.rval(self.en, v))
        else:
            raise Unsupported('output of %r' % (v,))
        return os

    def text(self, I, os, s):
        for m in re.finditer(r'\s+|\(|\)|[^\s()]+', s):
            t = m.group(0)
            if t.isspace():
                self.emit(I, os, self.sp)
            elif t == '(':
                I.oblige(self.ready(I.load(os).fields['st']), 'a list is opened where a term can start')
                self.emit(I, os, self.par)
            elif t == ')':
                self.emit(I, os, self.close)
            else:
                st = I.load(os).fields['st']
                if z3.is_app(st) and st.decl().eq(self.par) and t in self.ops:
                    base = st.arg(0)
                    self.set(I, os, self.opname(base, z3.IntVal(self.ops[t])))
                elif t in ('true', 'false'):
                    I.oblige(self.ready(st), 'a constant is printed where a term can start')
                    self.emit(I, os, self.tokb, z3.BoolVal(t == 'true'))
                elif re.fullmatch(r'\d+(\.\d+)?', t):
                    I.oblige(self.ready(st), 'a numeral is printed where a term can start')
                    self.emit(I, os, self.tokr, z3.RealVal(t))
                else:
                    self.unknown(I, os)

    def global_var(self, I, n, d):
        c = {'max_digits10': 17, 'digits10': 15}.get(d.get('name'))
        if c is not None and re.search(r'numeric_limits<\s*double\s*>', self.source(n)):
            return I.alloc(z3.IntVal(c))
        return super().global_var(I, n, d)

    def std_value_function(self, I, name, v, a, argn, n):
        if name == 'operator<<' and isinstance(v[0], Obj) and v[0].cls == 'ostream':
            return self.out(I, a[0], a[1])
        return super().std_value_function(I, name, v, a, argn, n)

    def std_method_ext(self, I, obj, v, name, a, n):
        if isinstance(v, Obj) and v.cls == 'ostream':
            if name == 'precision':
                old = v.fields['prec']
                if a:
                    I.store(Ref(obj.loc, obj.path + ('prec',)), a[0])
                return old
            if name == 'operator<<':
                return self.out(I, obj, a[0])
            if name == 'str' and not a:
                return v
        return NotImplemented

    def construct(self, I, n, t, args, ct):
        from .interp import norm_type
        base = norm_type(t)[0]
        if base in STREAMS or base.split('::')[-1].split('<')[0] in STREAMS:
            return self.stream(I, z3.Const('start_of_text', self.St), z3.IntVal(6))
        return super().construct(I, n, t, args, ct)
