"""Types, the C++ standard library (trusted contracts), contract registry,
loop-invariant templates."""
import re

import z3

from .frontend import body_of
from .interp import (Cont, Obj, Ref, NULL, Closure, IterV, Inserter, Opaque, FnPtr,
                     Unsupported, Infeasible, CppThrow, norm_type, qt, INTS, split_args)
from .theory import Theory, B, I as ISORT, R


class Cand:
    def __init__(self, name, at):
        self.name, self._at = name, at

    def at(self, snap):
        return self._at(snap)


def snap_get(snap, loc, path):
    v = snap[0].get(loc)
    for p in path:
        if isinstance(v, Obj):
            v = v.fields.get(p)
        else:
            return None
    return v


def leaves(v, path=()):
    if isinstance(v, Obj):
        for k, x in v.fields.items():
            if isinstance(k, str) and not k.startswith('&'):
                for l in leaves(x, path + (k,)):
                    yield l
    else:
        yield path, v


class World:
    set_grows = False       # sets may grow while they are walked

    def __init__(self, prog):
        self.prog = prog
        self.th = Theory()
        self.contracts = {}
        self.trusted = {}          # contract name -> reason it is not proved here
        self.scalar_types = {}     # base type name -> z3 sort
        self.cont_types = {}       # base type name -> descriptor (class modelled as container)
        self.nonlinear = True     # products of unknowns occur
        self.opaque = {'ostream', 'basic_ostream', 'logger', 'TimerGuard', 'Timer',
                       'ostringstream', 'basic_ostringstream', 'Stat'}
        self.virtuals = set()
        self.acc = {}              # z3 sort name -> [(name, fn, extras)]
        self.accreal = {}
        self.proc = {}
        self.procreal = {}
        self.extra_candidates = []
        self.theory_int = True
        self.verifying = None
        self.assumptions = set()
        self.elem_hooks = []
        self.transparent = set()   # the only member of a class modelled as a container
        self.string = self.th.sort('Str')

    # ---- registration
    def contract(self, name, trusted=None):
        def deco(f):
            self.contracts[name] = f
            if trusted:
                self.trusted[name] = trusted
            return f
        return deco

    def contract_for(self, I, fn, q, this):
        key = q
        if key in self.contracts:
            if self.verifying is not None and self.verifying == (fn.get('id'), len(I.stack)):
                return None
            return self.contracts[key]
        return None

    def is_virtual(self, fn):
        return bool(fn.get('virtual')) or (fn.get('_q') in self.virtuals)

    # ---- types
    def desc(self, t):
        base, args, is_ref, is_ptr, full = norm_type(t)
        if is_ptr:
            return ('ptr', t)
        if base in self.scalar_types:
            return ('z', self.scalar_types[base])
        if base in self.cont_types:
            return self.cont_types[base]
        if base == 'bool':
            return ('z', B)
        if base in INTS or full in INTS:
            return ('z', ISORT)
        if base in ('double', 'float', 'long double'):
            return ('z', R)
        if base in ('set', 'unordered_set'):
            return ('set', self.desc(args[0]), base != 'set')
        if base in ('map', 'unordered_map'):
            return ('map', self.desc(args[0]), self.desc(args[1]), base != 'map')
        if base in ('vector', 'deque', 'initializer_list', 'list'):
            return ('seq', self.desc(args[0]))
        if base == 'pair':
            return ('pair', self.desc(args[0]), self.desc(args[1]))
        if base == 'tuple':
            return ('tuple', tuple(self.desc(a) for a in args))
        if base in ('basic_string', 'string'):
            return ('z', z3.StringSort())
        if base in ('shared_ptr', 'unique_ptr'):
            return ('sptr', args[0])
        if base == 'atomic':
            return self.desc(args[0])
        if base == 'function':
            return ('fn',)
        if base in self.opaque:
            return ('opaque', base)
        rec = self.record(full) or self.record(base)
        if rec is not None:
            return ('obj', rec)
        if self.is_enum(full):
            return ('z', ISORT)
        raise Unsupported('type %s' % t)

    def is_enum(self, full):
        base = full.split('::')[-1]
        return any(('::' + base + '::') in k for k in self.prog.enums)

    def record(self, name):
        name = re.sub(r'\(anonymous namespace\)', '(anon)', name)
        for q in (name,):
            if q in self.prog.records:
                return self.prog.records[q][0]
        base = name.split('::')[-1].split('<')[0]
        c = [q for q in self.prog.records if q.split('::')[-1] == base]
        if c:
            return self.prog.records[c[0]][0]
        return None

    def elem_sort(self, d):
        if d[0] == 'z':
            return d[1], None, None
        if d[0] in ('set', 'map', 'seq'):
            ops = self.ops(d)
            dec = (lambda term, ops=ops: Cont(ops, term))
            return ops.sort, (lambda v: v.term), dec
        if d[0] == 'pair':
            sa, ea, da = self.elem_sort(d[1])
            sb, eb, db = self.elem_sort(d[2])
            p = self.pair_sort(sa, sb)

            def enc(v):
                x, y = v.fields['first'], v.fields['second']
                return p.mk(ea(x) if ea else x, eb(y) if eb else y)

            def dec(t):
                x, y = p.fst(t), p.snd(t)
                return Obj('pair', {'first': da(x) if da else x, 'second': db(y) if db else y})
            return p.sort, enc, dec
        if d[0] == 'tuple':
            es = [self.elem_sort(x) for x in d[1]]
            p = self.tuple_sort([e[0] for e in es])

            def enc(v):
                xs = [v.fields[str(i)] for i in range(len(es))]
                return p.mk(*[e[1](x) if e[1] else x for e, x in zip(es, xs)])

            def dec(t):
                xs = [g(t) for g in p.get]
                return Obj('tuple', {str(i): e[2](x) if e[2] else x
                                     for i, (e, x) in enumerate(zip(es, xs))})
            return p.sort, enc, dec
        if d[0] in ('obj', 'sptr', 'ptr', 'fn', 'opaque'):
            h = self.encode_obj(d)
            if h is not None:
                return h
        raise Unsupported('container of %s' % (d[0],))

    def encode_obj(self, d):
        return None

    def pair_sort(self, a, b):
        k = 'Pair_%s_%s' % (a.name(), b.name())
        if not hasattr(self, '_pairs'):
            self._pairs = {}
        if k not in self._pairs:
            class PS:
                pass
            p = PS()
            p.sort = z3.DeclareSort(k)
            p.mk = z3.Function(k + '.mk', a, b, p.sort)
            p.fst = z3.Function(k + '.fst', p.sort, a)
            p.snd = z3.Function(k + '.snd', p.sort, b)
            x, y = z3.Const('x', a), z3.Const('y', b)
            q = z3.Const('p', p.sort)
            self.th.ax(k + '.proj', self.th.forall([x, y], z3.And(
                p.fst(p.mk(x, y)) == x, p.snd(p.mk(x, y)) == y), [p.mk(x, y)]))
            self.th.ax(k + '.eta', self.th.forall([q], p.mk(p.fst(q), p.snd(q)) == q,
                                                  [p.fst(q), p.snd(q)]))
            self._pairs[k] = p
        return self._pairs[k]

    def tuple_sort(self, ss):
        k = 'Tuple_' + '_'.join(s.name() for s in ss)
        if not hasattr(self, '_tuples'):
            self._tuples = {}
        if k not in self._tuples:
            class TS:
                pass
            p = TS()
            p.sort = z3.DeclareSort(k)
            p.mk = z3.Function(k + '.mk', *(list(ss) + [p.sort]))
            p.get = [z3.Function('%s.%d' % (k, i), p.sort, s) for i, s in enumerate(ss)]
            xs = [z3.Const('x%d' % i, s) for i, s in enumerate(ss)]
            self.th.ax(k + '.proj', self.th.forall(xs, z3.And(
                *[g(p.mk(*xs)) == x for g, x in zip(p.get, xs)]), [p.mk(*xs)]))
            self._tuples[k] = p
        return self._tuples[k]

    def ops(self, d):
        if d[0] == 'set':
            s, e, dec = self.elem_sort(d[1])
            o = self.th.set_of(s)
        elif d[0] == 'map':
            ks, ke, kd = self.elem_sort(d[1])
            s, e, dec = self.elem_sort(d[2])
            if ke:
                raise Unsupported('map with structured keys')
            o = self.th.map_of(ks, s)
        elif d[0] == 'seq':
            s, e, dec = self.elem_sort(d[1])
            o = self.th.seq_of(s)
        else:
            raise Unsupported('not a container: %s' % (d,))
        if e is not None and not hasattr(o, 'encode'):
            o.encode, o.decode = e, dec
        return o

    def fresh_of(self, I, d, name):
        if isinstance(d, str):
            d = self.desc(d)
        if d[0] == 'z':
            return I.fresh(d[1], name)
        if d[0] in ('set', 'map', 'seq'):
            return Cont(self.ops(d), I.fresh(self.ops(d).sort, name),
                        d[0] != 'seq' and bool(d[-1]))
        if d[0] == 'pair':
            return Obj('pair', {'first': self.fresh_of(I, d[1], name + '.first'),
                                'second': self.fresh_of(I, d[2], name + '.second')})
        if d[0] == 'obj':
            return self.fresh_record(I, d[1], name)
        if d[0] == 'opaque':
            return Opaque(d[1])
        if d[0] == 'ptr':
            b = norm_type(d[1])
            inner = d[1].rstrip()
            inner = re.sub(r'\*\s*(const)?\s*$', '', inner)
            return I.alloc(self.fresh_of(I, self.desc(inner), name + '_pointee'))
        raise Unsupported('fresh value of %s' % (d[0],))

    def record_fields(self, rec):
        """[(name, type string, decl)] including bases."""
        out = []
        for b in rec.get('bases', ()):
            t = b.get('type', {})
            r = self.record(norm_type(t.get('desugaredQualType') or t.get('qualType', ''))[4])
            if r is not None:
                out += self.record_fields(r)
        for c in rec.get('inner', ()):
            if c['kind'] == 'FieldDecl':
                out.append((c.get('name', ''), qt(c), c))
        return out

    def fresh_record(self, I, rec, name):
        fs = {}
        for nm, t, c in self.record_fields(rec):
            v = self.fresh_of(I, self.desc(t), name + '.' + nm)
            if t.rstrip().endswith('&'):
                v = I.alloc(v)
                fs['&' + nm] = True
            fs[nm] = v
        return Obj(rec.get('_q'), fs)

    def default(self, I, t):
        d = self.desc(t)
        return self.default_desc(I, d, t)

    def default_desc(self, I, d, t=''):
        if d[0] == 'z':
            if d[1] == B:
                return z3.BoolVal(False)
            if d[1] == ISORT:
                return z3.IntVal(0)
            if d[1] == R:
                return z3.RealVal(0)
            if d[1] == z3.StringSort():
                return z3.StringVal('')
            v = self.default_term(I, d[1], t)
            if v is None:
                raise Unsupported('default value of %s' % t)
            return v
        if d[0] in ('set', 'map', 'seq'):
            o = self.ops(d)
            return Cont(o, o.empty, d[0] != 'seq' and bool(d[-1]))
        if d[0] == 'opaque':
            return Opaque(d[1])
        if d[0] == 'ptr':
            return NULL
        if d[0] == 'pair':
            return Obj('pair', {'first': self.default_desc(I, d[1]),
                                'second': self.default_desc(I, d[2])})
        if d[0] == 'obj':
            rec = d[1]
            fs = {}
            for nm, ft, c in self.record_fields(rec):
                if c.get('hasInClassInitializer') and c.get('inner'):
                    fs[nm] = I.field_init(ft, c['inner'][-1])
                else:
                    fs[nm] = self.default(I, ft)
            return Obj(rec.get('_q'), fs)
        raise Unsupported('default of %s' % (d[0],))

    def default_term(self, I, sort, t):
        return None

    def arbitrary(self, I, t, name):
        """Any value of the type: what a variable that outlives the call may hold."""
        return I.havoc_value(self.default(I, t.rstrip('& ')), name)

    def arbitrary_fields(self, I, this, known):
        """Forgets what the fields that the contract does not name hold."""
        o = I.load(this)
        I.store(this, Obj(o.cls, {
            k: x if k in known or str(k).startswith('&') else I.havoc_value(x, str(k))
            for k, x in o.fields.items()}))

    def opaque_type(self, base):
        return base in self.opaque

    def static_local(self, I, d):
        return None

    def global_var(self, I, n, d):
        return None

    def enum_constant(self, I, n, d):
        t = norm_type((d.get('type') or {}).get('qualType', ''))[0]
        for k, v in self.prog.enums.items():
            if k.endswith('::' + t + '::' + d['name']):
                return z3.IntVal(v)
        return None

    def float_literal(self, s):
        from fractions import Fraction
        v = Fraction(float(s))
        return z3.RealVal(str(v))

    def range_of(self, v):
        return None

    # ---- scalar operations
    def pointer_cast(self, I, n, v):
        return v

    def dynamic_cast(self, I, n, v):
        raise Unsupported('dynamic_cast')

    def integral_cast(self, I, n, v):
        if z3.is_expr(v) and v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def int_to_float(self, I, v):
        self.assumptions.add('double arithmetic is exact real arithmetic')
        return z3.ToReal(v)

    def float_to_int(self, I, n, v):
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    def ptr_nonnull(self, I, v):
        return z3.BoolVal(True)

    def ptr_eq(self, I, x, y):
        if isinstance(x, Ref) and isinstance(y, Ref):
            return z3.BoolVal(x.loc == y.loc and x.path == y.path)
        if isinstance(x, Ref) and x.loc is None or isinstance(y, Ref) and y.loc is None:
            return z3.BoolVal(False)
        if z3.is_expr(x) and z3.is_expr(y):
            return x == y
        raise Unsupported('pointer comparison')

    def binop(self, I, op, x, y, n):
        if z3.is_expr(x) and z3.is_expr(y):
            if x.sort() == B and y.sort() == ISORT:
                x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if y.sort() == B and x.sort() == ISORT:
                y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
            if op == '==':
                return x == y
            if op == '!=':
                return x != y
            if x.sort() == B and op in ('&', '|', '^'):
                return {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](x, y)
            if op == '<':
                return x < y
            if op == '<=':
                return x <= y
            if op == '>':
                return x > y
            if op == '>=':
                return x >= y
            if op == '+':
                return x + y
            if op == '-':
                return x - y
            if op == '*':
                return x * y
            if op == '/':
                if x.sort() == R or y.sort() == R:
                    return self.real_div(I, x, y)
                I.oblige(y != 0, 'integer division by zero')
                q = x / y
                return z3.If(z3.And(x >= 0, y > 0), x / y, I.fresh(ISORT, 'div'))
            if op == '%':
                I.oblige(y != 0, 'integer modulo by zero')
                return z3.If(z3.And(x >= 0, y > 0), x % y, I.fresh(ISORT, 'mod'))
        if isinstance(x, Cont) and isinstance(y, Cont) and op in ('==', '!='):
            e = x.term == y.term
            return e if op == '==' else z3.Not(e)
        raise Unsupported('operator %s on %r, %r' % (op, x, y))

    def neg(self, I, v, n):
        return -v

    def real_div(self, I, x, y):
        return x / y

    # ---- construction
    def init_list(self, I, n, t, items):
        d = self.desc(t)
        if d[0] in ('set', 'map', 'seq'):
            return self.fill(I, d, items)
        if d[0] == 'pair' and len(items) == 2:
            return Obj('pair', {'first': items[0], 'second': items[1]})
        if d[0] == 'z' and len(items) == 1:
            return items[0]
        if not items:
            return self.default_desc(I, d, t)
        if d[0] == 'obj':
            fs = self.record_fields(d[1])
            o = {}
            for (nm, ft, c), v in zip(fs, items):
                o[nm] = v
            return Obj(d[1].get('_q'), o)
        raise Unsupported('initialiser list for %s' % t)

    def fill(self, I, d, items):
        o = self.ops(d)
        t = o.empty
        for x in items:
            if d[0] == 'set':
                t = o.ins(t, I.unwrap(x, o))
            elif d[0] == 'seq':
                t = o.snoc(t, I.unwrap(x, o))
            else:
                t = o.put(t, x.fields['first'], I.unwrap(x.fields['second'], o))
        return Cont(o, t, d[0] != 'seq' and bool(d[-1]))

    def construct(self, I, n, t, argn, ct):
        base, targs, is_ref, is_ptr, full = norm_type(t)
        h = getattr(self, 'ctor_' + base, None)
        if h is not None:
            r = h(I, n, t, [I.ev(a) for a in argn], ct)
            if r is not None:
                return r
        d = self.desc(t)
        if d[0] in ('set', 'map', 'seq'):
            args = [I.ev(a) for a in argn if a['kind'] != 'CXXDefaultArgExpr']
            args = [I.load(a) if isinstance(a, Ref) else a for a in args]
            if not args:
                return self.default_desc(I, d, t)
            if isinstance(args[0], Obj) and args[0].cls == 'initlist':
                return self.fill(I, d, args[0].fields['items'])
            if len(args) >= 2 and isinstance(args[0], IterV):
                acc = I.alloc(self.default_desc(I, d, t))
                self.copy_range(I, n, args[0], args[1], lambda x: self.cont_add(I, acc, x))
                return I.load(acc)
            if len(args) == 1 and isinstance(args[0], Cont):
                if args[0].ops.kind != d[0]:
                    return self.cont_from(I, d, args[0])
                return args[0]
            if d[0] == 'seq' and len(args) == 1 and z3.is_expr(args[0]):
                raise Unsupported('vector(n)')
            raise Unsupported('container constructor %s' % ct)
        if d[0] == 'pair':
            args = [I.ev(a) for a in argn]
            args = [I.load(a) if isinstance(a, Ref) else a for a in args]
            if len(args) == 2:
                return Obj('pair', {'first': args[0], 'second': args[1]})
            if len(args) == 1 and isinstance(args[0], Obj):
                return args[0]
        if d[0] == 'tuple':
            args = [I.ev(a) for a in argn]
            return self.make_tuple(I, d, [I.load(a) if isinstance(a, Ref) else a for a in args])
        if d[0] == 'opaque':
            return Opaque(base)
        if d[0] == 'fn':
            args = [I.ev(a) for a in argn]
            return I.load(args[0]) if isinstance(args[0], Ref) else args[0]
        if d[0] == 'z':
            if d[1] == z3.StringSort():
                args = [I.ev(a) for a in argn if a['kind'] != 'CXXDefaultArgExpr']
                args = [I.load(a) if isinstance(a, Ref) else a for a in args]
                if args and z3.is_expr(args[0]):
                    return args[0]
                return z3.StringVal('')
            if not argn:
                return self.default_desc(I, d, t)
            args = [I.ev(a) for a in argn]
            args = [I.load(a) if isinstance(a, Ref) else a for a in args]
            if len(args) == 1 and z3.is_expr(args[0]) and args[0].sort() == d[1]:
                return args[0]
        if d[0] == 'obj':
            rec = d[1]
            c = self.find_ctor(rec, ct, len(argn))
            if c is not None:
                args = [I.ev(a) for a in argn]
                return I.construct_record(rec, c, args, argn)
            if not argn:
                return self.default_desc(I, d, t)
            m = re.match(r'void \((?:const )?([\w:]+) &&?\)', ct or '')
            if len(argn) == 1 and m and m.group(1).split('::')[-1] == base:
                x = I.ev(argn[0])      # defaulted copy / move: memberwise
                x = I.load(x) if isinstance(x, Ref) else x
                if isinstance(x, Obj) and x.cls == rec.get('_q'):
                    return x
        if d[0] == 'sptr':
            args = [I.ev(a) for a in argn]
            args = [I.load(a) if isinstance(a, Ref) else a for a in args]
            if not args:
                return Obj('sptr', {'ptr': NULL})
            if isinstance(args[0], Obj):
                return args[0]
            return Obj('sptr', {'ptr': args[0]})
        raise Unsupported('construction of %s with %s' % (t, ct))

    def cont_from(self, I, d, c):
        raise Unsupported('%s from %s' % (d[0], c.ops.kind))

    def make_tuple(self, I, d, args):
        if len(args) == 1 and isinstance(args[0], Obj) and args[0].cls == 'tuple':
            return args[0]
        if len(args) != len(d[1]):
            raise Unsupported('tuple constructor')
        return Obj('tuple', {str(i): x for i, x in enumerate(args)})

    def source(self, n):
        """Source text of an expression (for what clang's dump leaves out)."""
        r = n.get('range', {})
        b, e = r.get('begin', {}), r.get('end', {})
        if 'offset' not in b or 'offset' not in e or not n.get('_file'):
            return ''
        with open(n['_file']) as f:
            return f.read()[b['offset']:e['offset'] + e.get('tokLen', 0)]

    def find_ctor(self, rec, ct, n):
        """The real constructor definition with this signature."""
        cands = []
        def norm(t):
            t = re.sub(r'\b\w+::', '', t or '')
            m = re.match(r'^void \((.*)\)(.*)$', t, re.S)
            if not m:
                return t
            ps = [p if p.rstrip()[-1:] in '&*' else re.sub(r'\bconst\b ?', '', p)
                  for p in split_args(m.group(1))]
            return 'void (%s)%s' % (', '.join(ps), m.group(2))
        for c in rec.get('inner', ()):
            if c['kind'] == 'CXXConstructorDecl' and norm(c.get('type', {}).get('qualType')) == norm(ct):
                cands.append(c)
        for c in cands:
            r = self.prog.resolve(c['_tu'], c['id'])
            if r is not None and (body_of(r) is not None or
                                  any(x['kind'] == 'CXXCtorInitializer' for x in r.get('inner', ()))):
                return r
        return None

    def new_object(self, I, n, init):
        v = I.rv(init)
        return I.alloc(v)

    def base_init(self, I, rec, c, this):
        t = c['baseInit']
        tt = t.get('desugaredQualType') or t.get('qualType', '')
        sub = c['inner'][0]
        if norm_type(tt)[0] in self.opaque:
            return
        v = I.rv(sub)
        if isinstance(v, Obj):
            o = I.load(this)
            d = dict(o.fields)
            d.update(v.fields)
            I.store(this, Obj(o.cls, d))

    def no_body(self, I, fn, q, this, args, n):
        raise Unsupported('no body and no contract: %s' % q)

    def field(self, I, v, p):
        raise Unsupported('field %s' % p)

    def setfield(self, I, old, p, v):
        raise Unsupported('store to field %s' % p)

    def member_of_term(self, I, r, v, name, n):
        return I.alloc(self.field(I, v, name))

    destructors = False     # destructors of temporaries and locals have effects

    def copy_construct(self, I, n, base, ct, args):
        return None

    def null_pointer(self, I, t):
        return NULL

    def address_of(self, I, r):
        return r

    def delete_object(self, I, p, n):
        raise Unsupported('delete')

    ignored = ()            # calls without effect (arguments are not evaluated)
    allow_empty = False     # a task without obligations counts as proved
    only = None             # names of the obligations to generate (all)

    def frame_of_call(self, I, fn, this, args):
        """What the function under verification has to leave as it is."""
        return None

    def check_frame(self, I, keep):
        pass

    def store_to_part(self, I, what):
        raise Unsupported('store to the member %s of a value' % what[1])

    def on_havoc_iter(self, I, it, p):
        """Hook: p is any part that the iterator can have walked."""

    def on_element(self, I, it, x):
        for h in self.elem_hooks:
            h(I, it, x)

    # ---- std members
    def cont_add(self, I, cref, x):
        c = I.load(cref)
        x = I.load(x) if isinstance(x, Ref) else x
        o = c.ops
        if o.kind == 'set':
            I.store(cref, Cont(o, o.ins(c.term, I.unwrap(x, o)), c.unordered))
        elif o.kind == 'seq':
            I.store(cref, Cont(o, o.snoc(c.term, I.unwrap(x, o))))
        else:   # map insert: keeps an existing entry
            k, v = x.fields['first'], x.fields['second']
            if not I.branch(o.has(c.term, k)):
                v = I.unwrap(v, o)
                self.on_put(I, o, c.term, k, v)
                I.store(cref, Cont(o, o.put(c.term, k, v), c.unordered))

    def on_put(self, I, ops, before, key, value):
        """Hook: a map gets an entry (with operator[], when the entry is assigned)."""

    def opaque_call(self, I, v, name, n):
        if name == 'should_log' or name == 'enabled':
            return z3.BoolVal(False)
        t = qt(n) if n is not None else 'void'
        return Opaque(name)

    def std_method(self, I, obj, v, name, args, n):
        a = [I.load(x) if isinstance(x, Ref) else x for x in args]
        if isinstance(v, Cont):
            r = self.cont_method(I, obj, v, name, a, args, n)
            return I.conv(r, n)
        if isinstance(v, Obj) and 'ptr' in v.fields:
            if name == 'get':
                return v.fields['ptr']
            if name == 'reset':
                I.store(obj, v.set('ptr', a[0] if a else NULL))
                return None
        if z3.is_expr(v) and v.sort() == z3.StringSort():
            if name == 'empty':
                return z3.Length(v) == 0
            if name in ('size', 'length'):
                return z3.Length(v)
        if z3.is_expr(v) and name in ('load',) or name.startswith('operator ') and z3.is_expr(v):
            return v
        if name == 'store' and z3.is_expr(v):
            I.store(obj, a[0])
            return None
        r = self.std_method_ext(I, obj, v, name, a, n)
        if r is not NotImplemented:
            return r
        raise Unsupported('std method %s on %r' % (name, v))

    def std_method_ext(self, I, obj, v, name, a, n):
        return NotImplemented

    def cont_method(self, I, obj, c, name, a, raw, n):
        o, t = c.ops, c.term
        if name in ('begin', 'cbegin'):
            return I.begin(obj)
        if name in ('end', 'cend'):
            return I.end(obj)
        if name == 'size':
            return o.len(t) if o.kind == 'seq' else o.card(t)
        if name == 'empty':
            return t == o.empty
        if name == 'clear':
            I.store(obj, Cont(o, o.empty, c.unordered))
            return None
        if name == 'reserve':
            return None
        if o.kind == 'set':
            if name in ('insert', 'emplace'):
                if len(a) == 1 and isinstance(a[0], Obj) and a[0].cls == 'initlist':
                    for x in a[0].fields['items']:
                        self.cont_add(I, obj, x)
                    return None
                if len(a) == 1:
                    x = I.unwrap(a[0], o)
                    new = z3.Not(o.mem(x, t))
                    I.store(obj, Cont(o, o.ins(t, x), c.unordered))
                    return Obj('pair', {'first': IterV(obj, I.load(obj), None, x, 'at'), 'second': new})
                if len(a) == 2 and isinstance(a[0], IterV) and isinstance(a[1], IterV):
                    self.copy_range(I, n, a[0], a[1], lambda x: self.cont_add(I, obj, x))
                    return None
                if len(a) == 2:
                    self.cont_add(I, obj, a[1])
                    return IterV(obj, I.load(obj), None, I.unwrap(a[1], o), 'at')
            if name == 'emplace_hint':
                self.cont_add(I, obj, a[1])
                return IterV(obj, I.load(obj), None, I.unwrap(a[1], o), 'at')
            if name == 'erase' and not isinstance(a[0], IterV):
                x = I.unwrap(a[0], o)
                r = z3.If(o.mem(x, t), z3.IntVal(1), z3.IntVal(0))
                I.store(obj, Cont(o, o.dele(t, x), c.unordered))
                return r
            if name == 'erase' and isinstance(a[0], IterV):
                if a[0].state != 'at':
                    I.oblige(z3.BoolVal(False), 'erase of a valid iterator')
                    raise Infeasible()
                I.store(obj, Cont(o, o.dele(t, a[0].cur), c.unordered))
                return Opaque('iterator after erase')
            if name == 'count':
                return z3.If(o.mem(I.unwrap(a[0], o), t), z3.IntVal(1), z3.IntVal(0))
            if name == 'find':
                x = I.unwrap(a[0], o)
                if I.branch(o.mem(x, t)):
                    return IterV(obj, c, None, x, 'at')
                return IterV(obj, c, None, None, 'end')
        if o.kind == 'map':
            if name in ('find',):
                if I.branch(o.has(t, a[0])):
                    return IterV(obj, c, None, a[0], 'at')
                return IterV(obj, c, None, None, 'end')
            if name == 'at':
                if not I.branch(o.has(t, a[0])):
                    raise CppThrow('out_of_range')
                return Ref(obj.loc, obj.path + (('val', a[0]),))
            if name == 'count':
                return z3.If(o.has(t, a[0]), z3.IntVal(1), z3.IntVal(0))
            if name in ('emplace', 'insert', 'try_emplace', 'emplace_hint'):
                if name == 'emplace_hint':
                    a = a[1:]
                if len(a) == 1 and isinstance(a[0], Obj) and a[0].cls == 'pair':
                    k, v = a[0].fields['first'], a[0].fields['second']
                elif len(a) == 2 and isinstance(a[0], IterV) and isinstance(a[1], IterV):
                    self.copy_range(I, n, a[0], a[1], lambda x: self.cont_add(I, obj, x))
                    return None
                elif len(a) == 2 and not isinstance(a[0], IterV):
                    k, v = a
                elif len(a) == 1 and isinstance(a[0], Obj) and a[0].cls == 'initlist':
                    for x in a[0].fields['items']:
                        self.cont_add(I, obj, x)
                    return None
                elif len(a) == 2 and isinstance(a[0], IterV) and isinstance(a[1], Obj):
                    k, v = a[1].fields['first'], a[1].fields['second']
                else:
                    raise Unsupported('map::%s' % name)
                v = self.coerce_elem(I, o, v)
                if I.branch(o.has(t, k)):
                    return Obj('pair', {'first': IterV(obj, c, None, k, 'at'),
                                        'second': z3.BoolVal(False)})
                v = I.unwrap(v, o)
                self.on_put(I, o, t, k, v)
                I.store(obj, Cont(o, o.put(t, k, v), c.unordered))
                return Obj('pair', {'first': IterV(obj, I.load(obj), None, k, 'at'),
                                    'second': z3.BoolVal(True)})
            if name == 'operator[]':
                if not I.branch(o.has(t, a[0])):
                    dv = self.map_default(I, o)
                    new = o.put(t, a[0], dv)
                    I.ghost['default'] = (a[0], t, new)
                    I.store(obj, Cont(o, new, c.unordered))
                return Ref(obj.loc, obj.path + (('val', a[0]),))
            if name == 'erase':
                k = a[0].cur if isinstance(a[0], IterV) else a[0]
                if isinstance(a[0], IterV) and a[0].state != 'at':
                    I.oblige(z3.BoolVal(False), 'erase of a valid iterator')
                    raise Infeasible()
                r = z3.If(o.has(t, k), z3.IntVal(1), z3.IntVal(0))
                I.store(obj, Cont(o, o.dele(t, k), c.unordered))
                return Opaque('iterator after erase') if isinstance(a[0], IterV) else r
        if o.kind == 'seq':
            if name in ('push_back', 'emplace_back'):
                x = a[0] if len(a) == 1 else self.emplaced(I, o, a)
                I.store(obj, Cont(o, o.snoc(t, I.unwrap(self.coerce_elem(I, o, x), o))))
                return None
            if name == 'insert' and len(a) == 3 and isinstance(a[0], IterV):
                at = I.resolve_iter(raw[0] if isinstance(raw[0], Ref) else I.alloc(a[0]))
                if at.state != 'end' or not isinstance(a[1], IterV):
                    raise Unsupported('vector::insert not at the end')
                self.copy_range(I, n, a[1], a[2], lambda x: self.cont_add(I, obj, x))
                return Opaque('iterator after insert')
            if name in ('operator[]', 'at'):
                I.oblige(z3.And(a[0] >= 0, a[0] < o.len(t)), 'vector index in range')
                return Ref(obj.loc, obj.path + (('nth', a[0]),))
            if name == 'back':
                I.oblige(o.len(t) > 0, 'back() of a non-empty vector')
                return Ref(obj.loc, obj.path + (('nth', o.len(t) - 1),))
            if name == 'front':
                I.oblige(o.len(t) > 0, 'front() of a non-empty vector')
                return Ref(obj.loc, obj.path + (('nth', z3.IntVal(0)),))
            if name == 'pop_back':
                I.oblige(o.len(t) > 0, 'pop_back() of a non-empty vector')
                I.store(obj, Cont(o, o.take(t, o.len(t) - 1)))
                return None
            if name == 'resize':
                I.oblige(z3.And(a[0] >= 0, a[0] <= o.len(t)), 'resize only shrinks')
                I.store(obj, Cont(o, o.take(t, a[0])))
                return None
        raise Unsupported('%s::%s/%d' % (o.kind, name, len(a)))

    def emplaced(self, I, o, a):
        t = getattr(o, 'decode', None)
        if t is not None and o.T.name().startswith('Tuple_'):
            return Obj('tuple', {str(i): x for i, x in enumerate(a)})
        if t is not None and o.T.name().startswith('Pair_'):
            return Obj('pair', {'first': a[0], 'second': a[1]})
        raise Unsupported('emplace_back')

    def coerce_elem(self, I, o, v):
        return v

    def map_default(self, I, o):
        if o.T == R:
            return z3.RealVal(0)
        if o.T == ISORT:
            return z3.IntVal(0)
        raise Unsupported('operator[] default')

    # ---- std algorithms (as loops over the same engine)
    def copy_range(self, I, n, first, last, sink):
        self.iterate(I, n, first, last, lambda r: sink(r))

    def iterate(self, I, n, first, last, f, stop=None):
        if not isinstance(first, IterV):
            raise Unsupported('algorithm over %r' % (first,))
        it = I.alloc(first)

        def body():
            f(I.deref_iter(it))
        I.loop(n if n is not None else {'_line': None}, lambda: not I.at_end(it), body,
               lambda: I.incr_iter(it))

    def std_function(self, I, name, args, argn, n, d):
        a = args
        if name in ('move',) and len(a) == 1:
            r = a[0]
            if isinstance(r, Ref):
                return Ref(r.loc, r.path, True)
            return r
        if name == 'forward' and len(a) == 1:
            r = a[0]
            if isinstance(r, Ref) and n.get('valueCategory') == 'xvalue':
                return Ref(r.loc, r.path, True)
            return r
        if name in ('__assert_fail', '__assert', 'abort', '__builtin_unreachable'):
            I.oblige(z3.BoolVal(False), 'assertion cannot fail')
            raise Infeasible()
        v = [I.load(x) if isinstance(x, Ref) else x for x in a]
        r = self.std_value_function(I, name, v, a, argn, n)
        return I.conv(r, n)

    def std_value_function(self, I, name, v, a, argn, n):
        if name in ('operator*', 'operator->') and isinstance(v[0], IterV):
            return I.deref_iter(a[0] if isinstance(a[0], Ref) else I.alloc(v[0]))
        if name in ('operator*', 'operator->') and isinstance(v[0], Obj) and 'ptr' in v[0].fields:
            return v[0].fields['ptr']
        if name == 'operator++' and isinstance(v[0], IterV):
            if len(v) > 1:
                old = v[0]
                I.incr_iter(a[0])
                return old
            return I.incr_iter(a[0])
        if name in ('operator==', 'operator!='):
            x, y = v
            if isinstance(x, IterV) and isinstance(y, IterV):
                rx = a[0] if isinstance(a[0], Ref) else I.alloc(x)
                ry = a[1] if isinstance(a[1], Ref) else I.alloc(y)
                x, y = I.resolve_iter(rx), I.resolve_iter(ry)
                if x.state == 'end' or y.state == 'end':
                    e = z3.BoolVal(x.state == y.state)
                else:
                    e = x.cur == y.cur
                return e if name == 'operator==' else z3.Not(e)
            if isinstance(x, Cont) and isinstance(y, Cont):
                e = x.term == y.term
                return e if name == 'operator==' else z3.Not(e)
            if isinstance(x, Obj) and 'ptr' in x.fields:
                e = self.ptr_eq(I, x.fields['ptr'], y.fields['ptr'] if isinstance(y, Obj) else y)
                return e if name == 'operator==' else z3.Not(e)
            if z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort():
                return x == y if name == 'operator==' else x != y
        if name == 'get' and isinstance(v[0], Obj) and v[0].cls in ('tuple', 'pair'):
            m = re.match(r'.*?\bget\s*<\s*(\d+)\s*>', self.source(n), re.S)
            if not m:
                raise Unsupported('std::get')
            k = m.group(1)
            if v[0].cls == 'pair':
                k = ('first', 'second')[int(k)]
            return Ref(a[0].loc, a[0].path + (k,)) if isinstance(a[0], Ref) else v[0].fields[k]
        if name == 'make_tuple':
            return Obj('tuple', {str(i): x for i, x in enumerate(v)})
        if name == 'operator[]' and isinstance(v[0], Cont):
            return self.cont_method(I, a[0], v[0], 'operator[]', v[1:], a[1:], n)
        if name == 'operator=':
            if isinstance(v[1], Obj) and v[1].cls == 'initlist' and isinstance(v[0], Cont):
                raise Unsupported('assign from list')
            I.store(a[0], v[1])
            return a[0]
        if name == 'operator()':
            return I.call_closure(v[0], a[1:])
        if name in ('operator<<',):
            return a[0]
        if name in ('operator+', 'operator+=') and z3.is_expr(v[0]) and v[0].sort() == z3.StringSort():
            if z3.is_expr(v[1]) and v[1].sort() == z3.StringSort():
                s = z3.Concat(v[0], v[1])
            else:
                s = I.fresh(z3.StringSort(), 'str')
            if name == 'operator+=':
                I.store(a[0], s)
                return a[0]
            return s
        if name == 'to_string':
            return I.fresh(z3.StringSort(), 'str')
        if name in ('make_pair',):
            return Obj('pair', {'first': v[0], 'second': v[1]})
        if name in ('inserter',):
            return Inserter(a[0], 'ins')
        if name in ('back_inserter',):
            return Inserter(a[0], 'ins')
        if name in ('begin', 'cbegin'):
            return I.begin(a[0])
        if name in ('end', 'cend'):
            return I.end(a[0])
        if name == 'next' and isinstance(v[0], IterV):
            r = I.alloc(v[0])
            I.incr_iter(r)
            return I.load(r)
        if name == 'transform' and len(v) == 4 and isinstance(v[2], Inserter):
            sink = v[2].cref
            self.iterate(I, n, v[0], v[1],
                         lambda x: self.cont_add(I, sink, I.call_closure(v[3], [x])))
            return v[2]
        if name == 'copy' and isinstance(v[2], Inserter):
            sink = v[2].cref
            self.iterate(I, n, v[0], v[1], lambda x: self.cont_add(I, sink, x))
            return v[2]
        if name == 'copy_if' and isinstance(v[2], Inserter):
            sink = v[2].cref

            def f(x):
                if I.branch(I.as_bool(self.ld(I, I.call_closure(v[3], [x])))):
                    self.cont_add(I, sink, x)
            self.iterate(I, n, v[0], v[1], f)
            return v[2]
        if name == 'for_each':
            self.iterate(I, n, v[0], v[1], lambda x: I.call_closure(v[2], [x]))
            return v[2]
        if name in ('all_of', 'any_of', 'none_of'):
            res = I.alloc(z3.BoolVal(name != 'any_of'))
            flag = {'all_of': False, 'any_of': True, 'none_of': True}[name]

            def f(x):
                b = I.as_bool(self.ld(I, I.call_closure(v[2], [x])))
                if I.branch(b) == flag:
                    I.store(res, z3.BoolVal(name == 'any_of'))
                    from .interp import CppBreak
                    raise CppBreak()
            self.iterate_break(I, n, v[0], v[1], f)
            return I.load(res)
        if name in ('find_if', 'count_if', 'find'):
            raise Unsupported('std::' + name)
        if name == 'accumulate':
            acc = I.alloc(v[2])

            def f(x):
                cur = I.load(acc)
                if len(v) == 4:
                    r = I.call_closure(v[3], [I.alloc(cur), x])
                    I.store(acc, self.ld(I, r))
                else:
                    xv = self.ld(I, x)
                    I.store(acc, self.binop(I, '+', cur, xv, n))
            self.iterate(I, n, v[0], v[1], f)
            return I.load(acc)
        if name in ('min', 'max') and len(v) == 2 and z3.is_expr(v[0]) and z3.is_expr(v[1]):
            return z3.If((v[1] < v[0]) if name == 'min' else (v[0] < v[1]), v[1], v[0])
        if name == 'swap' and len(a) == 2:
            I.store(a[0], v[1])
            I.store(a[1], v[0])
            return None
        if name in ('make_shared', 'make_unique'):
            t = qt(n)
            inner = norm_type(t)[1]
            return self.make_smart(I, n, inner[0] if inner else '', a)
        if name == 'isnan' and z3.is_expr(v[0]) and v[0].sort() == R:
            self.assumptions.add('no NaN reaches the verified code (doubles are reals)')
            return z3.BoolVal(False)
        r = self.std_function_ext(I, name, v, a, argn, n)
        if r is not NotImplemented:
            return r
        raise Unsupported('std function %s/%d' % (name, len(v)))

    def iterate_break(self, I, n, first, last, f):
        it = I.alloc(first)

        def body():
            f(I.deref_iter(it))
        I.loop(n, lambda: not I.at_end(it), body, lambda: I.incr_iter(it))

    def ld(self, I, x):
        return I.load(x) if isinstance(x, Ref) else x

    def make_smart(self, I, n, t, args):
        raise Unsupported('make_shared')

    def std_function_ext(self, I, name, v, a, argn, n):
        return NotImplemented

    # ---- loop invariant templates
    def loop_candidates(self, I, node, entry, havoced, mods):
        iters, accs = [], []
        for loc, base in mods:
            for path, v in leaves(snap_get(havoced, loc, base), base):
                if isinstance(v, IterV):
                    iters.append((loc, path))
                elif isinstance(v, (Cont,)) or z3.is_expr(v):
                    accs.append((loc, path))
        out = []

        def pterm(snap, it):
            v = snap_get(snap, *it)
            if not isinstance(v, IterV):
                return None
            if v.state == 'end' and v.p is None:
                return None
            if v.snap.ops.kind == 'seq':
                return v.snap.ops.take(v.snap.term, v.p)
            return v.p

        def term(v):
            if isinstance(v, Cont):
                return v.term
            if z3.is_expr(v):
                return v
            return None
        for loc, path in accs:
            e0 = term(snap_get(entry, loc, path))
            if e0 is None:
                continue
            sn = e0.sort().name()
            nm = 'acc%s' % ''.join('.%s' % (p,) for p in path)
            for an, af, aex in self.acc.get(sn, ()):
                ex = [z3.Const('q%d' % i, s) for i, s in enumerate(aex)]

                def mk1(snap, af=af, ex=ex, loc=loc, path=path, e0=e0):
                    t = term(snap_get(snap, loc, path))
                    if t is None:
                        return None
                    return self.q(ex, af(t, *ex), [af(t, *ex)])
                out.append(Cand('%s(%s)' % (an, nm), mk1))
                for it in iters:
                    pe = pterm(entry, it)
                    if pe is None:
                        continue
                    for pn, pf, pex in self.proc.get(pe.sort().name(), ()):
                        if list(pex) != list(aex):
                            continue
                        for con, cn in ((z3.And, 'and'), (z3.Or, 'or')):
                            def mk2(snap, af=af, pf=pf, con=con, ex=ex, loc=loc, path=path,
                                    e0=e0, it=it):
                                t = term(snap_get(snap, loc, path))
                                P = pterm(snap, it)
                                if t is None or P is None:
                                    return None
                                a1 = af(t, *ex)
                                p1 = pf(P, *ex)
                                return self.q(ex, a1 == con(af(e0, *ex), p1), [a1, p1])
                            out.append(Cand('%s(%s)==%s(old) %s %s(done)' % (an, nm, an, cn, pn), mk2))

                        def mk3(snap, af=af, pf=pf, ex=ex, loc=loc, path=path, e0=e0, it=it):
                            t = term(snap_get(snap, loc, path))
                            P = pterm(snap, it)
                            if t is None or P is None:
                                return None
                            a1 = af(t, *ex)
                            return self.q(ex, z3.Implies(z3.And(af(e0, *ex), pf(P, *ex)), a1), [a1])
                        out.append(Cand('%s(old) and %s(done) => %s(%s)' % (an, pn, an, nm), mk3))
            for an, af, aex in self.accreal.get(sn, ()):
                ex = [z3.Const('q%d' % i, s) for i, s in enumerate(aex)]
                for it in iters:
                    pe = pterm(entry, it)
                    if pe is None:
                        continue
                    for pn, pf, pex in self.procreal.get(pe.sort().name(), ()):
                        if list(pex) != list(aex):
                            continue
                        for con, cn in ((lambda x, y: x + y, '+'), (lambda x, y: x * y, '*')):
                            def mk4(snap, af=af, pf=pf, con=con, ex=ex, loc=loc, path=path,
                                    e0=e0, it=it):
                                t = term(snap_get(snap, loc, path))
                                P = pterm(snap, it)
                                if t is None or P is None:
                                    return None
                                a1 = af(t, *ex)
                                return self.q(ex, a1 == con(af(e0, *ex), pf(P, *ex)), [a1])
                            out.append(Cand('%s(%s)==%s(old) %s %s(done)' % (an, nm, an, cn, pn), mk4))
        for it in iters:
            pe = pterm(entry, it)
            if pe is None:
                continue
            for pn, pf, pex in self.proc.get(pe.sort().name(), ()):
                ex = [z3.Const('q%d' % i, s) for i, s in enumerate(pex)]

                def mk5(snap, pf=pf, ex=ex, it=it):
                    P = pterm(snap, it)
                    return None if P is None else self.q(ex, pf(P, *ex), [pf(P, *ex)])
                out.append(Cand('%s(done)' % pn, mk5))
            for loc, path in accs:
                v0 = snap_get(entry, loc, path)
                if isinstance(v0, Cont) and v0.ops.kind == 'set' and v0.term.sort() == pe.sort():
                    def mk6(snap, loc=loc, path=path, o=v0.ops, e0=v0.term, it=it):
                        t, P = term(snap_get(snap, loc, path)), pterm(snap, it)
                        return None if t is None or P is None else t == o.uni(e0, P)
                    out.append(Cand('acc == old with done', mk6))
        for it in iters:
            v0 = snap_get(entry, *it)
            if isinstance(v0, IterV) and v0.snap.ops.kind == 'map' and any(
                    loc == v0.cref.loc for loc, _p in mods):
                def walked(s, it=it, v0=v0):
                    P = pterm(s, it)
                    now = term(snap_get(s, v0.cref.loc, v0.cref.path))
                    if P is None or now is None:
                        return None
                    return self.walked_map(v0.snap.ops, now, v0.snap.term, P)
                out.append(Cand('entries not yet walked are as they were', walked))
        for h in self.extra_candidates:
            out += h(I, node, entry, havoced, mods, iters, accs, pterm, term)
        return out

    def walked_map(self, ops, now, snap, P):
        """The keys are the same, and entries outside P are unchanged."""
        k = z3.Const('wk', ops.K)
        return z3.ForAll([k], z3.And(
            ops.has(now, k) == ops.has(snap, k),
            z3.Implies(z3.Not(ops.has(P, k)), ops.get(now, k) == ops.get(snap, k))),
            patterns=[ops.has(now, k), ops.has(snap, k)])

    def q(self, ex, body, pats):
        if not ex:
            return body
        pats = [p for p in pats if z3.is_app(p) and p.num_args() > 0 and
                p.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        return z3.ForAll(ex, body, patterns=pats) if pats else z3.ForAll(ex, body)
