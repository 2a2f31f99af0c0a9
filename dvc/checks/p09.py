"""P09: building new values never changes existing ones.

Handles: `Formula` and `Expression` are pointers to counted cells.  The count of
a cell is at least the number of handles that denote it, through every copy,
move, assignment, swap and destruction, and a cell is given back only when no
handle denotes it.  Cells: the only functions that change a cell do so when its
count is one, that is, when the handle at hand is the only one; all operators
and members leave what they take by reference to const as it was."""
import re

import z3

from ..cell_world import EREC, FREC
from ..frame import frames
from ..frontend import FUNC, SYM, body_of
from ..interp import Cont, Infeasible, Obj, Ref, Unsupported, norm_type, qt
from ..symbolic_world import S_
from ..theory import B, I as INT
from ..world import World
from . import p06, p08, p10, p11, p12, p13, p14

RC, DEAD = Ref('RC'), Ref('DEAD')
HANDLES = ('Formula', 'Expression')
CELLS = ('FormulaCell', 'ExpressionCell')


class HandleWorld(World):
    destructors = True
    nonlinear = False

    def __init__(self, prog):
        super().__init__(prog)
        self.Cell = self.th.sort('Cell')
        self.null = z3.Const('null', self.Cell)
        self.count = self.th.map_of(self.Cell, INT)
        self.cells = self.th.set_of(self.Cell)
        self.others = z3.Function('others', self.Cell, INT)
        c = z3.Const('c', self.Cell)
        self.th.ax('others', z3.ForAll([c], self.others(c) >= 0, patterns=[self.others(c)]))
        for h in HANDLES:
            for nm in ('True', 'False', 'Zero', 'One', 'Pi', 'E', 'NaN'):
                self.contracts[S_ + h + '::' + nm] = self.constant

    # ------------------------------------------------------------ pointers
    def cellptr(self, t):
        b, _, _, ptr, _ = norm_type(t)
        return ptr and b in CELLS

    def null_pointer(self, I, t):
        return self.null if self.cellptr(t) else super().null_pointer(I, t)

    def ptr_nonnull(self, I, v):
        return v != self.null if z3.is_expr(v) and v.sort() == self.Cell else \
            super().ptr_nonnull(I, v)

    def desc(self, t):
        if self.cellptr(t):
            return ('z', self.Cell)
        return super().desc(t)

    def constant(self, I, this, args, n):
        p = I.fresh(self.Cell, 'constant')
        I.assume(p != self.null)
        self.change(I, p, 1)
        return Obj(S_ + 'Formula', {'ptr_': p})

    # ------------------------------------------------------------ counts
    def change(self, I, p, d):
        r = self.place(I, p)
        old = I.load(r)
        I.store(r, old + d)
        return old

    def place(self, I, p):
        I.oblige(p != self.null, 'no null handle is followed')
        I.oblige(z3.Not(self.cells.mem(p, I.load(DEAD).term)), 'no cell is used after its end')
        return Ref('RC', (('val', p),))

    def member_of_term(self, I, r, v, name, n):
        if v.sort() == self.Cell and name == 'rc_':
            return self.place(I, v)
        raise Unsupported('member %s' % name)

    def std_value_function(self, I, name, v, a, argn, n):
        if name.startswith('atomic_') and isinstance(a[0], Ref) and a[0].loc == 'RC':
            return self.atomic(I, a[0], name[7:].replace('_explicit', ''), v[1:])
        if name.startswith('operator') and a and isinstance(a[0], Ref) and a[0].loc == 'RC':
            return self.atomic(I, a[0], name, v[1:])
        return super().std_value_function(I, name, v, a, argn, n)

    def std_method(self, I, obj, v, name, args, n):
        if obj.loc == 'RC':
            return self.atomic(I, obj, name, [self.ld(I, x) for x in args])
        return super().std_method(I, obj, v, name, args, n)

    def atomic(self, I, r, name, v):
        old = I.load(r)
        if name == 'load' or name.startswith('operator unsigned') or name == 'operator __integral_type':
            return old
        if name in ('fetch_add', 'fetch_sub'):
            I.store(r, old + v[0] if name == 'fetch_add' else old - v[0])
            return old
        if name in ('operator++', 'operator--'):
            new = old + (1 if name[-1] == '+' else -1)
            I.store(r, new)
            return old if v else new
        if name in ('operator+=', 'operator-='):
            new = old + v[0] if name[8] == '+' else old - v[0]
            I.store(r, new)
            return new
        raise Unsupported('atomic ' + name)

    def enum_constant(self, I, n, d):
        if d.get('name', '').startswith('memory_order'):
            return z3.IntVal(0)
        return super().enum_constant(I, n, d)

    def ld(self, I, x):
        return I.load(x) if isinstance(x, Ref) else x

    def delete_object(self, I, p, n):
        c = I.load(p) if isinstance(p, Ref) else p
        if not (z3.is_expr(c) and c.sort() == self.Cell):
            raise Unsupported('delete')
        I.oblige(z3.Not(self.cells.mem(c, I.load(DEAD).term)), 'no cell is given back twice')
        d = I.load(DEAD)
        I.store(DEAD, Cont(d.ops, d.ops.ins(d.term, c)))

    # ------------------------------------------------------------ handles
    def handle(self, t):
        return norm_type(t)[0] if norm_type(t)[0] in HANDLES else None

    def copy_construct(self, I, n, base, ct, args):
        if base not in HANDLES:
            return None
        return self.new_handle(I, base, ct, [I.ev(a) for a in args])

    def construct(self, I, n, t, args, ct):
        if self.handle(t):
            return self.new_handle(I, self.handle(t), ct, [I.ev(a) for a in args])
        return super().construct(I, n, t, args, ct)

    def new_handle(self, I, cls, ct, args):
        rec = self.record(S_ + cls)
        c = self.find_ctor(rec, ct, len(args))
        if c is None:
            raise Unsupported('constructor of %s: %s' % (cls, ct))
        c = I.prog.resolve(c['_tu'], c['id'])
        self.by_value(I, c)
        return I.construct_record(rec, c, args, None)

    def by_value(self, I, fn):
        for p in I.params(fn):
            _, _, ref, ptr, _ = norm_type(qt(p))
            if self.handle(qt(p)) and not ref and not ptr:
                raise Unsupported('handle passed by value')

    def destroy(self, I, r):
        v = I.load(r)
        if isinstance(v, Obj) and 'ptr_' in v.fields:
            cls = v.cls.split('::')[-1]
            for fn in I.prog.find(S_ + cls + '::~' + cls):
                I.inline(fn, r, [], None)
                return
            raise Unsupported('destructor of %s' % cls)

    # ------------------------------------------------------------ the invariant
    def start(self, I, handles):
        """Memory where every cell has at least the count of its handles."""
        rc = I.fresh(self.count.sort, 'rc')
        I.mem['RC'] = Cont(self.count, rc)
        I.mem['DEAD'] = Cont(self.cells, self.cells.empty)
        x = I.fresh(self.Cell, 'x')
        I.assume(x != self.null)
        points = [x] + [I.load(h).fields['ptr_'] for h in handles]
        for p in points:
            I.assume(z3.Implies(p != self.null, self.invariant(I, p, handles)))
        return x

    def invariant(self, I, x, handles, extra=()):
        n = sum((z3.If(I.load(h).fields['ptr_'] == x, 1, 0) for h in handles), z3.IntVal(0))
        return self.count.get(I.load(RC).term, x) >= self.others(x) + n

    def finish(self, I, x, handles):
        I.oblige(self.invariant(I, x, handles), 'a cell counts at least the handles that denote it')
        n = sum((z3.If(I.load(h).fields['ptr_'] == x, 1, 0) for h in handles), z3.IntVal(0))
        I.oblige(z3.Implies(self.cells.mem(x, I.load(DEAD).term), self.others(x) + n == 0),
                 'a cell is given back only when no handle denotes it')

    def fresh_handle(self, I, cls, nm, null=False):
        p = I.fresh(self.Cell, nm)
        if not null:
            I.assume(p != self.null)
        return I.alloc(Obj(S_ + cls, {'ptr_': p}))


class _Handles:
    SOURCES = [SYM + 'symbolic_formula.cc', SYM + 'symbolic_expression.cc']
    TRUSTED = ['std::atomic counts as one thread sees it; std::swap exchanges two pointers; '
               'the end of a cell ends its operands one by one']
    ASSUMPTIONS = ['a count does not exceed the range of unsigned',
                   'the source of a move is not stored inside the cell that its target gives up']

    @staticmethod
    def world(prog):
        return HandleWorld(prog)

    @staticmethod
    def tasks(prog, w):
        out = []

        def ptr(I, h):
            return I.load(h).fields['ptr_']

        def ctor_of(cls, sel):
            rec = w.record(S_ + cls)
            for c in rec.get('inner', ()):
                if c['kind'] != 'CXXConstructorDecl':
                    continue
                ps = [qt(p) for p in c.get('inner', ()) if p['kind'] == 'ParmVarDecl']
                if sel(ps):
                    return c['type']['qualType']
            raise Unsupported('no such constructor of ' + cls)

        for cls in HANDLES:
            def copy(I, cls=cls, move=False):
                src = w.fresh_handle(I, cls, 'source')
                p = ptr(I, src)
                x = w.start(I, [src])
                ct = ctor_of(cls, lambda ps: len(ps) == 1 and norm_type(ps[0])[0] == cls and
                             ps[0].rstrip().endswith('&&') == move)
                a = Ref(src.loc, src.path, True) if move else src
                h = I.alloc(w.new_handle(I, cls, ct, [a]))
                I.oblige(ptr(I, h) == p, 'the new handle denotes what the source denoted')
                if not move:
                    I.oblige(ptr(I, src) == p, 'the source denotes what it denoted')
                w.finish(I, x, [src, h])
            out.append((cls + ': copy constructor', copy))
            out.append((cls + ': move constructor', lambda I, copy=copy: copy(I, move=True)))

            def pointer(I, cls=cls):
                p = I.fresh(w.Cell, 'cell')
                I.assume(p != w.null)
                x = w.start(I, [])
                I.assume(w.invariant(I, p, []))
                ct = ctor_of(cls, lambda ps: len(ps) == 1 and w.cellptr(ps[0]))
                h = I.alloc(w.new_handle(I, cls, ct, [p]))
                I.oblige(ptr(I, h) == p, 'the handle denotes the cell')
                w.finish(I, x, [h])
            out.append((cls + ': constructor from a cell', pointer))

            def default(I, cls=cls):
                x = w.start(I, [])
                h = I.alloc(w.new_handle(I, cls, ctor_of(cls, lambda ps: not ps), []))
                w.finish(I, x, [h])
            out.append((cls + ': default constructor', default))

            def assign(I, cls=cls, move=False, alias=False):
                fns = [f for f in prog.find(S_ + cls + '::operator=')
                       if qt(I.params(f)[0]).rstrip().endswith('&&') == move]
                if len(fns) != 1:
                    raise Unsupported('assignment of ' + cls)
                src = w.fresh_handle(I, cls, 'source')
                dst = src if alias else w.fresh_handle(I, cls, 'target', null=True)
                hs = [src] if alias else [src, dst]
                p = ptr(I, src)
                x = w.start(I, hs)
                w.by_value(I, fns[0])
                r = I.inline(fns[0], dst, [Ref(src.loc, src.path, True) if move else src], None)
                I.oblige(ptr(I, dst) == p, 'the target denotes what the source denoted')
                if not move:
                    I.oblige(ptr(I, src) == p, 'the source denotes what it denoted')
                I.oblige(isinstance(r, Ref) and r.loc == dst.loc, 'the result is the target')
                w.finish(I, x, hs)
            out.append((cls + ': copy assignment', assign))
            out.append((cls + ': copy assignment to itself',
                        lambda I, assign=assign: assign(I, alias=True)))
            out.append((cls + ': move assignment', lambda I, assign=assign: assign(I, move=True)))

            def dtor(I, cls=cls):
                fn, = prog.find(S_ + cls + '::~' + cls)
                h = w.fresh_handle(I, cls, 'handle', null=True)
                x = w.start(I, [h])
                I.inline(fn, h, [], None)
                w.finish(I, x, [])
            out.append((cls + ': destructor', dtor))

            def swap(I, cls=cls):
                fns = [f for f in prog.find(S_ + 'swap') + prog.find(S_ + cls + '::swap')
                       if norm_type(qt(I.params(f)[0]))[0] == cls]
                if len(fns) != 1:
                    raise Unsupported('swap of ' + cls)
                a = w.fresh_handle(I, cls, 'a', null=True)
                b = w.fresh_handle(I, cls, 'b', null=True)
                p, q = ptr(I, a), ptr(I, b)
                x = w.start(I, [a, b])
                I.inline(fns[0], None, [a, b], None)
                I.oblige(z3.And(ptr(I, a) == q, ptr(I, b) == p), 'the handles exchange what they denote')
                w.finish(I, x, [a, b])
            out.append((cls + ': swap', swap))

            def use_count(I, cls=cls):
                fn, = prog.find(S_ + cls + 'Cell::use_count')
                p = I.fresh(w.Cell, 'cell')
                I.assume(p != w.null)
                x = w.start(I, [])
                r = I.inline(fn, I.alloc(p), [], None)
                I.oblige(z3.Implies(w.ld(I, r) <= 1, w.count.get(I.load(RC).term, p) <= 1),
                         'a count of one means that there is no other handle')
                w.finish(I, x, [])
            out.append((cls + ': use_count', use_count))
        return out


def is_cell(q):
    b = q.rsplit('::', 1)[-1]
    return b in FREC or b in EREC


def changes_of(fn, tu):
    """Where the code of a function can change a cell: uses of its members."""
    out = set()

    def walk(n):
        if n.get('kind') == 'MemberExpr':
            d = tu.decl.get(n.get('referencedMemberDecl'))
            if d is not None and is_cell(d.get('_q', '').rsplit('::', 1)[0]):
                t = qt(n)
                const = t.startswith('const ') or t.rstrip().endswith('const')
                if d['kind'] == 'FieldDecl' and d.get('name') != 'rc_' and not const:
                    out.add('the member %s' % d['name'])
                if d['kind'] == 'CXXMethodDecl':
                    t = d['type']['qualType']
                    r = t.split('(')[0].rstrip()
                    if not t.rstrip().endswith('const') and r[-1:] in '&*' and \
                            not r.startswith('const '):
                        out.add(d['name'])
        elif n.get('kind') == 'CXXConstCastExpr':
            out.add('const_cast')
        for c in n.get('inner', ()):
            walk(c)
    walk(body_of(fn))
    return out


class _Reach:
    """The functions whose code can change a cell are those of the groups below."""
    SOURCES = [SYM + 'symbolic_formula.cc', SYM + 'symbolic_formula_cell.cc',
               SYM + 'symbolic_expression.cc', SYM + 'symbolic_expression_cell.cc',
               'dreal/symbolic/symbolic.cc']
    TRUSTED = ['no cell is changed through a cast other than const_cast']
    COVERED = re.compile(
        r'(operator(\+|-|\*|/|&&|\|\||!|\+=|-=|\*=|/=)|Formula::make_(con|dis)junction|'
        r'\(anon\)::Negate\w+|(Expression|Formula)\w+::(Expand|Substitute|Differentiate|Evaluate|Less|'
        r'EqualTo)|Expression(Add|Mul)Factory::\w+)$')

    @staticmethod
    def world(prog):
        return World(prog)

    @staticmethod
    def tasks(prog, w):
        fns = {}
        callers = {}
        for fn in prog.defs.values():
            b = body_of(fn)
            if b is None or fn['kind'] == 'CXXDestructorDecl':
                continue
            if fn['kind'] != 'CXXConstructorDecl':
                c = changes_of(fn, fn['_tu'])
                if c:
                    fns[fn['id'], fn['_tu'].src] = (fn, c)

            def walk(n):
                k = n.get('kind')
                m = n.get('referencedMemberDecl') if k == 'MemberExpr' else \
                    (n.get('referencedDecl') or {}).get('id') if k == 'DeclRefExpr' else None
                d = prog.resolve(fn['_tu'], m) if m else None
                if d is not None and d['kind'] in FUNC:
                    callers.setdefault(d.get('_q'), set()).add(fn.get('_q'))
                for c in n.get('inner', ()):
                    walk(c)
            walk(b)

        def covered(q, seen=()):
            if _Reach.COVERED.search(q):
                return True
            cs = callers.get(q, set()) - {q}
            return bool(cs) and q not in seen and all(covered(c, seen + (q,)) for c in cs)
        out = []
        for fn, what in fns.values():
            q = fn['_q']

            def t(I, q=q, what=what):
                if not covered(q):
                    raise Unsupported('%s can change cells (%s) and has no contract' % (
                        q, ', '.join(sorted(what))))
                I.oblige(z3.BoolVal(True), 'the function is verified, or inlined where it is called')
            out.append(('cells can be changed in ' + q.replace(S_, ''), t))
        return out


GROUPS = [_Handles, _Reach, frames(p06, 'P06'), frames(p08, 'P08'), frames(p10._Main, 'P10'),
          frames(p11, 'P11'), frames(p12._Main, 'P12'),
          frames(p13._Main, 'P13'), frames(p14, 'P14')]
