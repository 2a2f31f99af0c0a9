"""Logical vocabulary: sorts, finite sets / maps / sequences, homomorphic folds.

Every container is an uninterpreted sort built from constructors (`ins`, `put`,
`snoc`); the axioms below are the defining equations of those constructors and
of folds over them.  They are library contracts (trusted), listed in evidence.
"""
import z3

B = z3.BoolSort()
I = z3.IntSort()
R = z3.RealSort()


class Theory:
    def __init__(self):
        self.axioms = []          # (name, z3 expr)
        self.sorts = {}
        self.sets = {}
        self.maps = {}
        self.seqs = {}
        self.trusted = []
        self.n = 0

    def sort(self, name):
        if name not in self.sorts:
            self.sorts[name] = z3.DeclareSort(name)
        return self.sorts[name]

    def ax(self, name, e):
        self.axioms.append((name, e))

    def forall(self, vs, body, pats):
        self.n += 1
        return z3.ForAll(vs, body, patterns=[
            z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats])

    def set_of(self, T):
        k = T.name()
        if k not in self.sets:
            self.sets[k] = SetT(self, T)
        return self.sets[k]

    def map_of(self, K, T):
        k = (K.name(), T.name())
        if k not in self.maps:
            self.maps[k] = MapT(self, K, T)
        return self.maps[k]

    def seq_of(self, T):
        k = T.name()
        if k not in self.seqs:
            self.seqs[k] = SeqT(self, T)
        return self.seqs[k]


class SetT:
    kind = 'set'

    def __init__(self, th, T):
        self.th, self.T = th, T
        n = 'Set_' + T.name()
        S = self.sort = z3.DeclareSort(n)
        self.empty = z3.Const(n + '.empty', S)
        self.ins = z3.Function(n + '.ins', S, T, S)
        self.dele = z3.Function(n + '.del', S, T, S)
        self.uni = z3.Function(n + '.uni', S, S, S)
        self.mem = z3.Function(n + '.mem', T, S, B)
        self.card = z3.Function(n + '.card', S, I)
        self.pick = z3.Function(n + '.pick', S, T)
        s, t = z3.Consts('s t', S)
        x, y = z3.Consts('x y', T)
        A = th.ax
        f = th.forall
        A(n + '.mem_empty', f([x], z3.Not(self.mem(x, self.empty)),
                              [self.mem(x, self.empty)]))
        A(n + '.mem_ins', f([s, x, y], self.mem(y, self.ins(s, x)) ==
                            z3.Or(y == x, self.mem(y, s)),
                            [self.mem(y, self.ins(s, x)), (self.mem(y, s), self.ins(s, x))]))
        A(n + '.mem_ins_self', f([s, x], self.mem(x, self.ins(s, x)), [self.ins(s, x)]))
        A(n + '.mem_del', f([s, x, y], self.mem(y, self.dele(s, x)) ==
                            z3.And(y != x, self.mem(y, s)),
                            [self.mem(y, self.dele(s, x))]))
        A(n + '.delins', f([s, x], z3.Implies(z3.Not(self.mem(x, s)),
                                             self.dele(self.ins(s, x), x) == s),
                           [self.dele(self.ins(s, x), x)]))
        A(n + '.insmem', f([s, x], z3.Implies(self.mem(x, s), self.ins(s, x) == s),
                           [self.ins(s, x)]))
        A(n + '.mem_uni', f([s, t, x], self.mem(x, self.uni(s, t)) ==
                            z3.Or(self.mem(x, s), self.mem(x, t)),
                            [self.mem(x, self.uni(s, t)), (self.mem(x, s), self.uni(s, t)),
                             (self.mem(x, t), self.uni(s, t))]))
        A(n + '.uni_empty', f([s], z3.And(self.uni(s, self.empty) == s,
                                          self.uni(self.empty, s) == s),
                              [self.uni(s, self.empty), self.uni(self.empty, s)]))
        A(n + '.uni_ins', f([s, t, x], self.uni(s, self.ins(t, x)) == self.ins(self.uni(s, t), x),
                            [self.uni(s, self.ins(t, x))]))
        A(n + '.card_empty', self.card(self.empty) == 0)
        A(n + '.card_ge', f([s], z3.And(self.card(s) >= 0,
                                       (self.card(s) == 0) == (s == self.empty)),
                            [self.card(s)]))
        A(n + '.card_ins', f([s, x], z3.And(self.card(self.ins(s, x)) == self.card(s) +
                            z3.If(self.mem(x, s), 0, 1), self.card(self.ins(s, x)) >= 1),
                             [self.ins(s, x)]))
        A(n + '.card_uni', f([s, t], z3.And(self.card(self.uni(s, t)) >= self.card(s),
                                           self.card(self.uni(s, t)) >= self.card(t)),
                             [self.uni(s, t)]))
        A(n + '.pick', f([s], z3.Implies(self.card(s) >= 1, self.mem(self.pick(s), s)),
                         [self.card(s)]))
        A(n + '.single', f([s, x], z3.Implies(z3.And(self.card(s) == 1, self.mem(x, s)),
                                              s == self.ins(self.empty, x)),
                           [(self.card(s), self.mem(x, s))]))
        self.folds = []

    def fold_all(self, name, P, extra=(), witness=True):
        """Declares all_P(s, extra..): for all x in s, P(x, extra..)."""
        th, S = self.th, self.sort
        a = z3.Function(name, *([S] + list(extra) + [B]))
        s, t = z3.Consts('s t', S)
        x = z3.Const('x', self.T)
        ex = [z3.Const('a%d' % i, q) for i, q in enumerate(extra)]
        f = th.forall
        if ex:
            th.ax(name + '.empty', f(ex, a(self.empty, *ex), [a(self.empty, *ex)]))
        else:
            th.ax(name + '.empty', a(self.empty))
        th.ax(name + '.ins', f([s, x] + ex, a(self.ins(s, x), *ex) ==
                               z3.And(a(s, *ex), P(x, *ex)),
                               [a(self.ins(s, x), *ex)] +
                               ([(self.ins(s, x), a(s, *ex))])))
        th.ax(name + '.uni', f([s, t] + ex, a(self.uni(s, t), *ex) ==
                               z3.And(a(s, *ex), a(t, *ex)),
                               [a(self.uni(s, t), *ex)]))
        th.ax(name + '.elim', f([s, x] + ex, z3.Implies(
            z3.And(a(s, *ex), self.mem(x, s)), P(x, *ex)),
            [(a(s, *ex), self.mem(x, s))]))
        if witness:
            w = z3.Function(name + '.w', *([S] + list(extra) + [self.T]))
            th.ax(name + '.wit', f([s] + ex, z3.Or(a(s, *ex), z3.And(
                self.mem(w(s, *ex), s), z3.Not(P(w(s, *ex), *ex)))), [a(s, *ex)]))
        self.folds.append((name, a, P))
        return a


class MapT:
    kind = 'map'

    def __init__(self, th, K, T):
        self.th, self.K, self.T = th, K, T
        n = 'Map_%s_%s' % (K.name(), T.name())
        S = self.sort = z3.DeclareSort(n)
        self.empty = z3.Const(n + '.empty', S)
        self.put = z3.Function(n + '.put', S, K, T, S)
        self.dele = z3.Function(n + '.del', S, K, S)
        self.has = z3.Function(n + '.has', S, K, B)
        self.get = z3.Function(n + '.get', S, K, T)
        self.card = z3.Function(n + '.card', S, I)
        self.pick = z3.Function(n + '.pick', S, K)
        s = z3.Const('s', S)
        k, j = z3.Consts('k j', K)
        v = z3.Const('v', T)
        A, f = th.ax, th.forall
        A(n + '.has_empty', f([k], z3.Not(self.has(self.empty, k)), [self.has(self.empty, k)]))
        A(n + '.has_put', f([s, k, v, j], self.has(self.put(s, k, v), j) ==
                            z3.Or(j == k, self.has(s, j)),
                            [self.has(self.put(s, k, v), j)]))
        A(n + '.get_put', f([s, k, v, j], self.get(self.put(s, k, v), j) ==
                            z3.If(j == k, v, self.get(s, j)),
                            [self.get(self.put(s, k, v), j)]))
        A(n + '.has_self', f([s, k, v], z3.And(self.has(self.put(s, k, v), k),
                                              self.get(self.put(s, k, v), k) == v),
                             [self.put(s, k, v)]))
        A(n + '.has_del', f([s, k, j], self.has(self.dele(s, k), j) ==
                            z3.And(j != k, self.has(s, j)), [self.has(self.dele(s, k), j)]))
        A(n + '.get_del', f([s, k, j], z3.Implies(j != k, self.get(self.dele(s, k), j) ==
                                                  self.get(s, j)),
                            [self.get(self.dele(s, k), j)]))
        A(n + '.card_empty', self.card(self.empty) == 0)
        A(n + '.card_ge', f([s], z3.And(self.card(s) >= 0,
                                       (self.card(s) == 0) == (s == self.empty)),
                            [self.card(s)]))
        A(n + '.card_put', f([s, k, v], z3.And(
            self.card(self.put(s, k, v)) == self.card(s) + z3.If(self.has(s, k), 0, 1),
            self.card(self.put(s, k, v)) >= 1), [self.put(s, k, v)]))
        A(n + '.card_del', f([s, k], self.card(self.dele(s, k)) == self.card(s) -
                             z3.If(self.has(s, k), 1, 0), [self.dele(s, k)]))
        A(n + '.delput', f([s, k, v], z3.Implies(z3.Not(self.has(s, k)),
                                                self.dele(self.put(s, k, v), k) == s),
                           [self.dele(self.put(s, k, v), k)]))
        u = z3.Const('u', T)
        A(n + '.putput', f([s, k, u, v], self.put(self.put(s, k, u), k, v) == self.put(s, k, v),
                           [self.put(self.put(s, k, u), k, v)]))
        A(n + '.putself', f([s, k, v], z3.Implies(z3.And(self.has(s, k), self.get(s, k) == v),
                                                 self.put(s, k, v) == s), [self.put(s, k, v)]))
        A(n + '.pick', f([s], z3.Implies(self.card(s) >= 1, self.has(s, self.pick(s))),
                         [self.card(s)]))
        A(n + '.single', f([s, k], z3.Implies(z3.And(self.card(s) == 1, self.has(s, k)),
                                              s == self.put(self.empty, k, self.get(s, k))),
                           [(self.card(s), self.has(s, k))]))

    def fold_all(self, name, P, extra=(), witness=True):
        th, S = self.th, self.sort
        a = z3.Function(name, *([S] + list(extra) + [B]))
        s = z3.Const('s', S)
        k = z3.Const('k', self.K)
        v = z3.Const('v', self.T)
        ex = [z3.Const('a%d' % i, q) for i, q in enumerate(extra)]
        f = th.forall
        if ex:
            th.ax(name + '.empty', f(ex, a(self.empty, *ex), [a(self.empty, *ex)]))
        else:
            th.ax(name + '.empty', a(self.empty))
        th.ax(name + '.put', f([s, k, v] + ex, z3.Implies(
            z3.Not(self.has(s, k)), a(self.put(s, k, v), *ex) ==
            z3.And(a(s, *ex), P(k, v, *ex))),
            [a(self.put(s, k, v), *ex), (self.put(s, k, v), a(s, *ex))]))
        th.ax(name + '.put2', f([s, k, v] + ex, z3.Implies(
            z3.And(a(s, *ex), P(k, v, *ex)), a(self.put(s, k, v), *ex)),
            [a(self.put(s, k, v), *ex)]))
        th.ax(name + '.del', f([s, k] + ex, z3.Implies(
            self.has(s, k), a(s, *ex) == z3.And(
                a(self.dele(s, k), *ex), P(k, self.get(s, k), *ex))),
            [a(self.dele(s, k), *ex)]))
        th.ax(name + '.elim', f([s, k] + ex, z3.Implies(
            z3.And(a(s, *ex), self.has(s, k)), P(k, self.get(s, k), *ex)),
            [(a(s, *ex), self.has(s, k))]))
        if witness:
            w = z3.Function(name + '.w', *([S] + list(extra) + [self.K]))
            th.ax(name + '.wit', f([s] + ex, z3.Or(a(s, *ex), z3.And(
                self.has(s, w(s, *ex)), z3.Not(P(w(s, *ex), self.get(s, w(s, *ex)), *ex)))),
                [a(s, *ex)]))
        return a

    def fold_sum(self, name, t, extra=(), unit=None, op=None):
        """Declares sum(m, extra..) = fold of t(k, v, extra..) with op (default +)."""
        th, S = self.th, self.sort
        ex = [z3.Const('a%d' % i, q) for i, q in enumerate(extra)]
        s = z3.Const('s', S)
        k = z3.Const('k', self.K)
        v = z3.Const('v', self.T)
        a = z3.Function(name, *([S] + list(extra) + [R]))
        op = op or (lambda p, q: p + q)
        unit = z3.RealVal(0) if unit is None else unit
        f = th.forall
        e0 = a(self.empty, *ex) == unit
        th.ax(name + '.empty', f(ex, e0, [a(self.empty, *ex)]) if ex else e0)
        th.ax(name + '.put', f([s, k, v] + ex, z3.Implies(
            z3.Not(self.has(s, k)), a(self.put(s, k, v), *ex) ==
            op(a(s, *ex), t(k, v, *ex))),
            [a(self.put(s, k, v), *ex), (self.put(s, k, v), a(s, *ex))]))
        th.ax(name + '.del', f([s, k] + ex, z3.Implies(
            self.has(s, k), a(s, *ex) == op(a(self.dele(s, k), *ex),
                                           t(k, self.get(s, k), *ex))),
            [a(self.dele(s, k), *ex)]))
        # overwriting: put(s,k,v) == put(del(s,k),k,v) when has(s,k)
        th.ax(name + '.over', f([s, k, v] + ex, z3.Implies(
            self.has(s, k), z3.And(
                a(self.put(s, k, v), *ex) == op(a(self.dele(s, k), *ex), t(k, v, *ex)),
                a(s, *ex) == op(a(self.dele(s, k), *ex), t(k, self.get(s, k), *ex)))),
            [a(self.put(s, k, v), *ex), (self.put(s, k, v), a(s, *ex))]))
        return a


class SeqT:
    kind = 'seq'

    def __init__(self, th, T):
        self.th, self.T = th, T
        n = 'Seq_' + T.name()
        S = self.sort = z3.DeclareSort(n)
        self.empty = z3.Const(n + '.empty', S)
        self.snoc = z3.Function(n + '.snoc', S, T, S)
        self.len = z3.Function(n + '.len', S, I)
        self.nth = z3.Function(n + '.nth', S, I, T)
        self.take = z3.Function(n + '.take', S, I, S)
        self.upd = z3.Function(n + '.upd', S, I, T, S)
        s = z3.Const('s', S)
        x = z3.Const('x', T)
        i, j = z3.Ints('i j')
        A, f = th.ax, th.forall
        A(n + '.len0', self.len(self.empty) == 0)
        A(n + '.lenge', f([s], z3.And(self.len(s) >= 0, (self.len(s) == 0) == (s == self.empty)),
                          [self.len(s)]))
        A(n + '.lensnoc', f([s, x], z3.And(self.len(self.snoc(s, x)) == self.len(s) + 1,
                                          self.nth(self.snoc(s, x), self.len(s)) == x),
                            [self.snoc(s, x)]))
        A(n + '.nthsnoc', f([s, x, i], z3.Implies(
            z3.And(0 <= i, i < self.len(s)), self.nth(self.snoc(s, x), i) == self.nth(s, i)),
            [self.nth(self.snoc(s, x), i)]))
        A(n + '.take0', f([s], self.take(s, 0) == self.empty, [self.take(s, 0)]))
        A(n + '.takelen', f([s, i], z3.Implies(z3.And(0 <= i, i <= self.len(s)),
                                              self.len(self.take(s, i)) == i), [self.take(s, i)]))
        A(n + '.takeall', f([s, i], z3.Implies(i == self.len(s), self.take(s, i) == s),
                            [self.take(s, i)]))
        A(n + '.takesnoc', f([s, i], z3.Implies(
            z3.And(0 <= i, i < self.len(s)),
            self.take(s, i + 1) == self.snoc(self.take(s, i), self.nth(s, i))),
            [(self.take(s, i), self.nth(s, i))]))
        A(n + '.takesnoc2', f([s, i, x], z3.Implies(
            z3.And(0 <= i, i <= self.len(s)), self.take(self.snoc(s, x), i) == self.take(s, i)),
            [self.take(self.snoc(s, x), i)]))
        A(n + '.nthtake', f([s, i, j], z3.Implies(
            z3.And(0 <= j, j < i, i <= self.len(s)), self.nth(self.take(s, i), j) == self.nth(s, j)),
            [self.nth(self.take(s, i), j)]))
        A(n + '.upd', f([s, i, x, j], z3.Implies(z3.And(0 <= i, i < self.len(s)), z3.And(
            self.len(self.upd(s, i, x)) == self.len(s),
            self.nth(self.upd(s, i, x), j) == z3.If(i == j, x, self.nth(s, j)))),
            [self.nth(self.upd(s, i, x), j)]))
        A(n + '.decomp', f([s, i], z3.Implies(z3.And(i == self.len(s) - 1, i >= 0),
                                             s == self.snoc(self.take(s, i), self.nth(s, i))),
                           [self.take(s, i)]))
        A(n + '.taketake', f([s, i, j], z3.Implies(
            z3.And(0 <= j, j <= i, i <= self.len(s)),
            self.take(self.take(s, i), j) == self.take(s, j)), [self.take(self.take(s, i), j)]))
        A(n + '.updlen', f([s, i, x], self.len(self.upd(s, i, x)) == self.len(s),
                           [self.upd(s, i, x)]))

    def fold_all(self, name, P, extra=(), witness=True):
        th, S = self.th, self.sort
        a = z3.Function(name, *([S] + list(extra) + [B]))
        s = z3.Const('s', S)
        x = z3.Const('x', self.T)
        i = z3.Int('i')
        ex = [z3.Const('a%d' % q, r) for q, r in enumerate(extra)]
        f = th.forall
        th.ax(name + '.empty', f(ex, a(self.empty, *ex), [a(self.empty, *ex)]) if ex
              else a(self.empty))
        th.ax(name + '.snoc', f([s, x] + ex, a(self.snoc(s, x), *ex) ==
                                z3.And(a(s, *ex), P(x, *ex)),
                                [a(self.snoc(s, x), *ex), (self.snoc(s, x), a(s, *ex))]))
        th.ax(name + '.elim', f([s, i] + ex, z3.Implies(
            z3.And(a(s, *ex), 0 <= i, i < self.len(s)), P(self.nth(s, i), *ex)),
            [(a(s, *ex), self.nth(s, i))]))
        if witness:
            w = z3.Function(name + '.w', *([S] + list(extra) + [I]))
            th.ax(name + '.wit', f([s] + ex, z3.Or(a(s, *ex), z3.And(
                0 <= w(s, *ex), w(s, *ex) < self.len(s),
                z3.Not(P(self.nth(s, w(s, *ex)), *ex)))), [a(s, *ex)]))
        return a

    def fold_sum(self, name, t, unit=None, op=None):
        """Declares sum(s) = fold of t(x) over the elements with op (default +)."""
        th, S = self.th, self.sort
        s = z3.Const('s', S)
        x = z3.Const('x', self.T)
        a = z3.Function(name, S, R)
        op = op or (lambda p, q: p + q)
        th.ax(name + '.empty', a(self.empty) == (z3.RealVal(0) if unit is None else unit))
        th.ax(name + '.snoc', th.forall([s, x], a(self.snoc(s, x)) == op(a(s), t(x)),
                                        [a(self.snoc(s, x)), (self.snoc(s, x), a(s))]))
        return a
