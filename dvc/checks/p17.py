"""P17: recognising literals, clauses and CNF; extracting clauses; common members."""
import z3

from ..interp import Cont
from ..symbolic_world import SymWorld, S_
from ..templates import disjoint_sets
from ..theory import B

SOURCES = ['dreal/symbolic/symbolic.cc']
TRUSTED = ['contracts of the accessors of formulas and of Variables::begin/end (proved in P15, P18)',
           'std::set iterates over its members in increasing order']


def add_shapes(w):
    """atomf, clausef, cnff: the shapes that the recognisers answer for."""
    K = w.KF
    k = w.kind

    def atom(f):
        ko = k(w.opnd(f))
        return z3.And(k(f) != K['And'], k(f) != K['Or'], z3.Implies(
            k(f) == K['Not'], z3.Or(ko == K['Var'], w.isrel(ko))))
    w.atom = atom
    w.aliteral = lambda f: z3.Or(atom(f), z3.And(k(f) == K['Not'], atom(w.opnd(f))))
    w.alllit = w.SF.fold_all('alllit17', w.aliteral)
    w.clause = lambda f: z3.Or(w.aliteral(f), z3.And(k(f) == K['Or'], w.alllit(w.ops_(f))))
    w.allclause = w.SF.fold_all('allclause17', w.clause)
    w.cnf17 = lambda f: z3.Or(w.clause(f), z3.And(k(f) == K['And'], w.allclause(w.ops_(f))))


def world(prog):
    w = SymWorld(prog)
    add_shapes(w)
    w.ordered_variables = True
    w.acc['Bool'] = [('value', lambda t: t, ())]
    w.proc[w.SF.sort.name()] += [('all literals', w.alllit, ()), ('all clauses', w.allclause, ())]
    disjoint_sets(w)
    for nm, pred in (('is_atomic', w.atom), ('is_clause', w.clause), ('is_cnf', w.cnf17)):
        w.contracts['dreal::' + nm] = (
            lambda pred: lambda I, this, args, n: pred(w.lv(I, args[0])))(pred)
    w.nonlinear = False
    return w


def tasks(prog, w):
    def recogniser(nm, pred):
        def t(I):
            f = I.fresh(w.F, 'f')
            r = I.inline(prog.find('dreal::' + nm)[0], None, [I.alloc(f)], None)
            I.oblige(I.as_bool(w.lv(I, r)) == pred(f), 'true exactly for formulas of that shape')
        return (nm, t)

    def clauses(I):
        f = I.fresh(w.F, 'f')
        I.assume(w.cnf17(f))
        r = w.lv(I, I.inline(prog.find('dreal::get_clauses')[0], None, [I.alloc(f)], None))
        I.oblige(w.allclause(r.term), 'every extracted formula is a clause')
        I.oblige(w.forall_env(lambda en: w.allh(r.term, en) == w.holds(f, en),
                              lambda en: w.holds(f, en)),
                 'the conjunction of the extracted clauses is equivalent to the formula')

    def have(I):
        a, b = Cont(w.SV, I.fresh(w.SV.sort, 'variables1')), Cont(w.SV, I.fresh(w.SV.sort, 'variables2'))
        r = I.inline(prog.find('dreal::HaveIntersection')[0], None, [I.alloc(a), I.alloc(b)], None)
        v = z3.Const('v', w.V)
        I.oblige(I.as_bool(w.lv(I, r)) == z3.Exists([v], z3.And(
            w.SV.mem(v, a.term), w.SV.mem(v, b.term))),
            'true exactly when the sets have a common member')
    return [recogniser('is_atomic', w.atom), recogniser('is_clause', w.clause),
            recogniser('is_cnf', w.cnf17), ('get_clauses', clauses), ('HaveIntersection', have)]
