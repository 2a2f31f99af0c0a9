"""Users of ExpressionAddFactory and ExpressionMulFactory (proved against the same contracts in
P08)."""
import z3

from .cell_world import CellWorld
from .interp import Cont, Obj, Unsupported
from .symbolic_world import S_


class FactoryWorld(CellWorld):
    """The two factories are the expression that they would return."""

    def __init__(self, prog):
        super().__init__(prog)
        C = self.contracts
        self.scalar_types['ExpressionAddFactory'] = self.E
        self.scalar_types['ExpressionMulFactory'] = self.E
        for cls, unit, fold, op in (
                ('ExpressionAddFactory', 0, self.vsum, '+'),
                ('ExpressionMulFactory', 1, self.vprod, '*')):
            mk = self.factory(unit, fold, op)
            setattr(self, 'ctor_' + cls, mk)
            for m, f in (('AddExpression', self.fac_add(op)), ('Add', self.fac_add(op)),
                         ('GetExpression', self.fac_get), ('Negate', self.fac_neg),
                         ('operator=', self.fac_set)):
                C[S_ + cls + '::' + m] = f

    def factory(self, unit, fold, op):
        def c(I, n, t, args, ct):
            a = [self.ld(I, x) for x in args]
            if not a:
                return self.mkC(z3.RealVal(unit))
            if len(a) == 1:
                x = self.unptr(I, a[0]) if isinstance(a[0], Obj) else a[0]
                return x if z3.is_expr(x) and x.sort() == self.E else None
            m = a[1]
            if isinstance(m, Obj) and m.cls == 'initlist' and not m.fields['items']:
                m = Cont(self.MED if op == '+' else self.MEE,
                         (self.MED if op == '+' else self.MEE).empty)
            if not isinstance(m, Cont):
                raise Unsupported('factory')
            r = I.fresh(self.E, 'factory')
            I.assume(self.forall_env(lambda en: self.val(r, en) == (
                a[0] + fold(m.term, en) if op == '+' else a[0] * fold(m.term, en)),
                lambda en: self.val(r, en)))
            return r
        return c

    def fac_add(self, op):
        def c(I, this, args, n):
            x = self.ld(I, args[0])
            if isinstance(x, Obj):
                x = self.unptr(I, x)
            r = self.post_arith(I, op, I.load(this), self.asE(I, x))
            I.store(this, r)
            return this
        return c

    def fac_get(self, I, this, args, n):
        r = I.load(this)
        I.store(this, I.fresh(self.E, 'used'))
        return r

    def fac_neg(self, I, this, args, n):
        I.store(this, self.post_arith(I, 'neg', I.load(this), None))
        return this

    def fac_set(self, I, this, args, n):
        x = self.ld(I, args[0])
        I.store(this, self.unptr(I, x) if isinstance(x, Obj) else x)
        return this
