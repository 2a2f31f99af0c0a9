"""General loop-invariant templates (candidates; kept only if proved)."""
import z3

from .interp import Ref, Cont, IterV
from .theory import I as INT
from .world import Cand, leaves, snap_get


def term(v):
    if isinstance(v, Cont):
        return v.term
    return v if z3.is_expr(v) else None


def scope_values(snap, frame=True):
    """[(loc, path, value)] of everything reachable from the current frame."""
    out, seen = [], set()
    for fr in snap[2][-1:]:
        for k, r in fr.items():
            if isinstance(r, Ref) and r.loc in snap[0] and r.loc not in seen:
                seen.add(r.loc)
                for p, v in leaves(snap[0][r.loc]):
                    out.append((r.loc, p, v))
    return out


def counting(w):
    """Sequences stay prefixes of what they were; integers move in step."""
    def h(I, node, entry, havoced, mods, iters, accs, pterm, _term):
        out = []
        q = []        # changing integer quantities: (name, snap -> term, entry value)
        consts = []
        for loc, path in accs:
            v0 = snap_get(entry, loc, path)
            t0 = term(v0)
            if isinstance(v0, Cont) and v0.ops.kind == 'seq':
                o = v0.ops

                def pre(s, loc=loc, path=path, t0=t0, o=o):
                    t = term(snap_get(s, loc, path))
                    return None if t is None else z3.And(o.len(t) <= o.len(t0),
                                                         t == o.take(t0, o.len(t)))
                out.append(Cand('sequence is a prefix of the old one', pre))
                q.append(('len', lambda s, loc=loc, path=path, o=o: o.len(
                    term(snap_get(s, loc, path))), o.len(t0)))
            elif t0 is not None and t0.sort() == INT:
                q.append(('int', lambda s, loc=loc, path=path: term(snap_get(s, loc, path)), t0))
        for loc, path, v in scope_values(entry):
            t = term(v)
            if t is not None and not isinstance(v, Cont) and t.sort() == INT and not any(
                    loc == m and path[:len(q_)] == q_ for m, q_ in mods):
                consts.append(t)
        seen = set()
        consts = [c for c in consts if not (c.get_id() in seen or seen.add(c.get_id()))]
        for i, (n1, f1, e1) in enumerate(q):
            for c in consts + [z3.IntVal(0)]:
                out.append(Cand('%s >= constant' % n1, lambda s, f1=f1, c=c: f1(s) >= c))
                out.append(Cand('%s <= constant' % n1, lambda s, f1=f1, c=c: f1(s) <= c))
            for n2, f2, e2 in q[i + 1:]:
                out.append(Cand('%s and %s move together' % (n1, n2), lambda s, f1=f1, e1=e1, f2=f2,
                                e2=e2: f1(s) - e1 == f2(s) - e2))
                out.append(Cand('%s and %s move oppositely' % (n1, n2), lambda s, f1=f1, e1=e1,
                                f2=f2, e2=e2: f1(s) - e1 == e2 - f2(s)))
        return out
    w.extra_candidates.append(h)


def disjoint_sets(w):
    """Nothing processed so far is a member of another set in scope."""
    def h(I, node, entry, havoced, mods, iters, accs, pterm, _term):
        out = []
        full = {}
        for _loc, _p, v in scope_values(entry):
            c = v.snap if isinstance(v, IterV) else v
            if isinstance(c, Cont) and c.ops.kind == 'set':
                full[c.term.get_id()] = (c.ops, c.term)
        for it in iters:
            v0 = snap_get(entry, *it)
            if not isinstance(v0, IterV) or v0.snap.ops.kind != 'set':
                continue
            for ops, t in full.values():
                if ops is not v0.snap.ops or t.eq(v0.snap.term):
                    continue

                def at(s, it=it, ops=ops, t=t):
                    P = pterm(s, it)
                    if P is None:
                        return None
                    x = z3.Const('dx', ops.T)
                    return z3.ForAll([x], z3.Implies(ops.mem(x, P), z3.Not(ops.mem(x, t))),
                                     patterns=[ops.mem(x, P)])
                out.append(Cand('nothing processed is in another set in scope', at))
        return out
    w.extra_candidates.append(h)
