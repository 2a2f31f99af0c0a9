"""Frames: what the functions of the symbolic library leave as it was.

`frames(mod)` runs the tasks of another check with the same contracts, but asks
only the two questions that matter for values staying what they are: a cell is
changed in place only if the handle at hand is the only one, and an operand that
is taken by reference to const has the same value afterwards.  Loops need no
invariants for that.
"""
import z3

from .cell_world import CellWorld
from .interp import Ref, qt
from .verify import Verifier

CONST = 'an operand that is not assigned to keeps its value'


def const_ref(p):
    t = qt(p).strip()
    return t.endswith('&') and not t.endswith('&&') and t.startswith('const ')


def frame_of_call(w, I, fn, this, args):
    ps = I.params(fn)
    refs = [(p, a) for p, a in zip(ps, args) if isinstance(a, Ref) and a.loc is not None]
    free = {a.loc for p, a in refs if not const_ref(p)}
    isconst = fn['type']['qualType'].rstrip().endswith(('const', 'const noexcept'))
    if isinstance(this, Ref) and this.loc is not None:
        if isconst and this.loc not in free:
            refs = refs + [(None, this)]
        elif not isconst:
            free.add(this.loc)
    out = []
    for p, a in refs:
        if a.loc in free:
            continue
        v = I.load(a)
        if z3.is_expr(v):
            out.append((a, v))
    return out


def check_frame(w, I, keep):
    for a, v in keep:
        n = I.load(a)
        I.oblige(n is v or n == v, CONST)


def frames(mod, label):
    class Group:
        SOURCES = mod.SOURCES
        TRUSTED = getattr(mod, 'TRUSTED', [])
        ASSUMPTIONS = getattr(mod, 'ASSUMPTIONS', [])

        @staticmethod
        def world(prog):
            w = mod.world(prog)
            w.only = {CellWorld.UNSHARED, CONST}
            w.allow_empty = True
            w.loop_candidates = lambda *a: []
            w.frame_of_call = lambda *a: frame_of_call(w, *a)
            w.check_frame = lambda *a: check_frame(w, *a)
            return w

        @staticmethod
        def tasks(prog, w):
            return [('frame of %s: %s' % (label, t[0]),) + tuple(t[1:])
                    for t in mod.tasks(prog, w)]
    return Group
