"""P23: differentiability verdicts and prefix printing."""
import z3

from ..interp import Cont, CppThrow, Obj, Ref
from ..reader import ReaderWorld
from ..symbolic_world import S_
from ..theory import B, R

SOURCES = ['dreal/symbolic/symbolic.cc', 'dreal/symbolic/prefix_printer.cc']
TRUSTED = ['contracts of the accessors of terms (P15)',
           'a double printed with 17 or more significant digits reads back as itself',
           'names of variables are SMT-LIB symbols']
ASSUMPTIONS = ['doubles are real numbers',
               'a real constant stands for the middle of its interval']
D = 'dreal::(anon)::IsDifferentiableVisitor::'
PP = 'dreal::PrefixPrinter::'


def add_smooth(w):
    """smooth(f), esmooth(e): built only from operations smooth inside their domain."""
    F, E, K, KE = w.F, w.E, w.KF, w.KE
    w.smooth, w.esmooth = z3.Function('smooth', F, B), z3.Function('esmooth', E, B)
    w.allsmooth = w.SF.fold_all('allsmooth', lambda x: w.smooth(x))
    w.msmooth = w.MED.fold_all('msmooth', lambda a, c: w.esmooth(a))
    w.psmooth = w.MEE.fold_all('psmooth', lambda a, b: z3.And(w.esmooth(a), w.esmooth(b)))
    f, e = z3.Const('f', F), z3.Const('e', E)
    k, ke = w.kind(f), w.ekind(e)
    w.th.ax('smooth', w.th.forall([f], w.smooth(f) == z3.And(
        k != K['Forall'],
        z3.Implies(z3.Or(k == K['And'], k == K['Or']), w.allsmooth(w.ops_(f))),
        z3.Implies(k == K['Not'], w.smooth(w.opnd(f))),
        z3.Implies(w.isrel(k), z3.And(w.esmooth(w.lhs(f)), w.esmooth(w.rhs(f))))),
        [(w.smooth(f), k)]))
    un = z3.Or(*[ke == KE[q] for q in w.unary_kinds])
    bi = z3.Or(*[ke == KE[q] for q in w.binary_kinds])
    w.th.ax('esmooth', w.th.forall([e], w.esmooth(e) == z3.And(
        z3.And(*[ke != KE[q] for q in ('Abs', 'Min', 'Max', 'IfThenElse', 'NaN',
                                       'UninterpretedFunction')]),
        z3.Implies(un, w.esmooth(w.arg(e))),
        z3.Implies(bi, z3.And(w.esmooth(w.arg1(e)), w.esmooth(w.arg2(e)))),
        z3.Implies(ke == KE['Add'], w.msmooth(w.amap(e))),
        z3.Implies(ke == KE['Mul'], w.psmooth(w.mmap(e)))), [(w.esmooth(e), ke)]))
    w.acc['Bool'] = w.acc.get('Bool', []) + [('value', lambda t: t, ())]
    for o, fold in ((w.SF, w.allsmooth), (w.MED, w.msmooth), (w.MEE, w.psmooth)):
        w.proc.setdefault(o.sort.name(), []).append(('all smooth', fold, ()))


def world(prog):
    w = ReaderWorld(prog)
    add_smooth(w)
    e = z3.Const('e', w.E)
    en = w.en
    w.th.ax('val.RealConstant', w.th.forall([e], z3.Implies(
        w.ekind(e) == w.KE['RealConstant'],
        w.val(e, en) == w.rclb(e) / 2 + w.rcub(e) / 2), [(w.ekind(e), w.val(e, en))]))
    # the type of a variable in an expression
    w.th.ax('evar.type', w.th.forall([e], z3.Implies(
        w.ekind(e) == w.KE['Var'], w.vtype(w.evar(e)) != w.VT['BOOLEAN']), [w.evar(e)]))
    x = z3.Real('x')
    w.th.ax('pow1', w.th.forall([x], w.powf(x, 1) == x, [w.powf(x, 1)]))

    def dvisit(I, this, args, n):
        x = w.lv(I, args[0])
        return (w.esmooth if x.sort() == w.E else w.smooth)(x)
    w.contracts[D + 'Visit'] = dvisit

    def pr(I, this, args, n):
        x = w.lv(I, args[0])
        os = I.load(this).fields['os_']
        st, prec = I.load(os).fields['st'], I.load(os).fields['prec']
        I.oblige(w.ready(st), 'a term is printed where a term can start')
        I.oblige(prec >= 17, 'the precision is enough to print a double exactly')
        I.oblige(printable(w, x), 'the term has a prefix form')
        s2 = I.fresh(w.St, 'printed')
        post(w, I, st, x, s2, True)
        I.store(Ref(os.loc, os.path + ('st',)), s2)
        return os
    w.contracts[PP + 'Print'] = pr
    add_printable(w)
    return w


def add_printable(w):
    """No forall, uninterpreted function or NaN inside."""
    F, E, K, KE = w.F, w.E, w.KF, w.KE
    w.pf, w.pe = z3.Function('printable', F, B), z3.Function('eprintable', E, B)
    f, g, e, b = z3.Const('f', F), z3.Const('g', F), z3.Const('e', E), z3.Const('b', E)
    k, ke = w.kind(f), w.ekind(e)
    ax = lambda nm, vs, body, pat: w.th.ax('printable.' + nm, w.th.forall(vs, body, [pat]))
    ax('f', [f], z3.Implies(w.pf(f), z3.And(
        k != K['Forall'], z3.Implies(k == K['Not'], w.pf(w.opnd(f))),
        z3.Implies(w.isrel(k), z3.And(w.pe(w.lhs(f)), w.pe(w.rhs(f)))))), (w.pf(f), k))
    ax('ops', [f, g], z3.Implies(z3.And(w.pf(f), z3.Or(k == K['And'], k == K['Or']),
                                        w.SF.mem(g, w.ops_(f))), w.pf(g)),
       (w.pf(f), w.SF.mem(g, w.ops_(f))))
    un = z3.Or(*[ke == KE[q] for q in w.unary_kinds])
    bi = z3.Or(*[ke == KE[q] for q in w.binary_kinds])
    ax('e', [e], z3.Implies(w.pe(e), z3.And(
        ke != KE['NaN'], ke != KE['UninterpretedFunction'], z3.Implies(un, w.pe(w.arg(e))),
        z3.Implies(bi, z3.And(w.pe(w.arg1(e)), w.pe(w.arg2(e)))),
        z3.Implies(ke == KE['IfThenElse'], z3.And(w.pf(w.icond(e)), w.pe(w.ithen(e)),
                                                  w.pe(w.ielse(e)))))), (w.pe(e), ke))
    ax('add', [e, b], z3.Implies(z3.And(w.pe(e), ke == KE['Add'], w.MED.has(w.amap(e), b)),
                                 w.pe(b)), (w.pe(e), w.MED.has(w.amap(e), b)))
    ax('mul', [e, b], z3.Implies(z3.And(w.pe(e), ke == KE['Mul'], w.MEE.has(w.mmap(e), b)), z3.And(
        w.pe(b), w.pe(w.MEE.get(w.mmap(e), b)))), (w.pe(e), w.MEE.has(w.mmap(e), b)))


def printable(w, x):
    return w.pe(x) if x.sort() == w.E else w.pf(x)


def post(w, I, st, x, s2, mk=False):
    d = w.dr(st, w.val(x, w.en)) if x.sort() == w.E else w.db(st, w.holds(x, w.en))
    facts = [('the text read back, followed by a space, denotes the term', w.sp(s2) == d),
             ('the text read back, followed by ), denotes the term', w.close(s2) == w.close(d))]
    for nm, y in facts:
        I.assume(y) if mk else I.oblige(y, nm)


def tasks(prog, w):
    def diff(kind, nm, q):
        def t(I):
            x = I.fresh(w.E if kind == 'Expression' else w.F, 'x')
            fn = [f for f in prog.find(q) if '(const %s &)' % kind in f['type']['qualType']][0]
            if kind == 'Expression':
                I.assume(w.ekind(x) != w.KE['NaN'])
            this = I.alloc(Obj(D[:-2], {})) if q.startswith(D) else None
            r = I.inline(fn, this, [I.alloc(x)], None)
            sm = w.esmooth(x) if kind == 'Expression' else w.smooth(x)
            r = I.as_bool(w.lv(I, r))
            I.oblige(z3.Implies(r, sm), 'reported as differentiable only if built from smooth operations')
            I.oblige(z3.Implies(sm, r), 'every term built from smooth operations is reported')
        return ('%s(%s)' % (nm, kind), t)

    def printer(I, prec):
        os = I.alloc(w.stream(I, I.fresh(w.St, 's'), prec))
        return os, I.alloc(Obj(PP[:-2], {'os_': os, '&os_': True, 'old_precision_': I.fresh(
            z3.IntSort(), 'old')}))

    def pr(kind):
        def t(I):
            x = I.fresh(w.E if kind == 'Expression' else w.F, 'x')
            os, this = printer(I, z3.IntVal(19))
            st = I.load(os).fields['st']
            I.assume(w.ready(st))
            I.assume(printable(w, x))
            fn = [f for f in prog.find(PP + 'Print') if '(const %s &)' % kind in f['type']['qualType']][0]
            I.inline(fn, this, [I.alloc(x)], None)
            post(w, I, st, x, I.load(os).fields['st'])
        return ('PrefixPrinter::Print(%s)' % kind, t)

    def top(kind):
        def t(I):
            x = I.fresh(w.E if kind == 'Expression' else w.F, 'x')
            I.assume(printable(w, x))
            st = z3.Const('start_of_text', w.St)
            I.assume(w.ready(st))
            fn = [f for f in prog.find('dreal::ToPrefix') if '(const %s &)' % kind in f['type']['qualType']][0]
            r = w.lv(I, I.inline(fn, None, [I.alloc(x)], None))
            post(w, I, st, x, r.fields['st'])
        return ('ToPrefix(%s)' % kind, t)

    out = []
    for k in ('Formula', 'Expression'):
        out += [diff(k, 'IsDifferentiableVisitor::Visit', D + 'Visit'),
                diff(k, 'IsDifferentiable', 'dreal::IsDifferentiable'), pr(k), top(k)]
    return out
