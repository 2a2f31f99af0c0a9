"""P07: the six comparison operators, on the real constructors and cells."""
import z3

from ..cell_world import CellWorld
from ..frontend import SYM
from ..interp import CppThrow, norm_type, qt
from ..symbolic_world import S_

SOURCES = [SYM + 'symbolic_formula.cc', SYM + 'symbolic_formula_cell.cc',
           SYM + 'symbolic_expression.cc', SYM + 'symbolic_expression_cell.cc']
TRUSTED = ['e1 - e2 has the value of the difference wherever both are defined (P08)']


def world(prog):
    w = CellWorld(prog)
    w.nonlinear = False

    def built(I, r, parts, forms):
        I.ghost['built'] = I.ghost.get('built', ()) + (r,)
    w.expr_hooks = [built]
    return w


def tasks(prog, w):
    out = []

    def sig(fn):
        return fn['type']['qualType'].replace('dreal::drake::symbolic::', '')

    def asE(v):
        return w.mkEV(v) if v.sort() == w.V else v
    for op in ('==', '!=', '<', '<=', '>', '>='):
        for fn in prog.find(S_ + 'operator' + op):
            s = sig(fn)
            ps = [norm_type(qt(c))[0] for c in fn.get('inner', ()) if c['kind'] == 'ParmVarDecl']
            if not s.startswith('Formula') or not all(
                    p.split('::')[-1] in ('Expression', 'Variable') for p in ps):
                continue
            for al in (False, True):
                def t(I, fn=fn, al=al, op=op):
                    args = w.arguments(I, fn, al)
                    vs = [w.ld(I, a) for a in args]
                    for v in vs:
                        if v.sort() == w.V:
                            I.assume(w.vtype(v) != w.VT['BOOLEAN'])
                    r = w.ld(I, I.inline(fn, None, args, None))
                    x, y = asE(vs[0]), asE(vs[1])
                    en = I.fresh(w.Env, 'en')
                    for d in I.ghost.get('built', ()):
                        w.note(I, w.val(d, en))
                    fs = w.facts_rel(r, op, x, y)
                    I.oblige(w.holds(r, en) == w.REL[op][1](w.val(x, en), w.val(y, en)), fs[0][0])
                    I.oblige(fs[1][1], fs[1][0])
                out.append(('operator%s %s%s' % (op, s, ' aliased' if al else ''), t))
    return out
