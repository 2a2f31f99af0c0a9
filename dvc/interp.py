"""Symbolic execution of the real functions (clang AST) into proof obligations.

A function is executed once per control path (deterministic re-execution along
a decision trail).  Calls use the callee's contract when one is registered and
otherwise inline the callee's real body; loops are cut by invariants that are
selected (Houdini) from abstraction-level templates.  Everything the executor
does not know raises Unsupported - it never guesses.
"""
import itertools
import re
import time

import z3

from .frontend import body_of, FUNC


DEBUG = False


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class CppReturn(Exception):
    def __init__(self, value):
        self.value = value


class CppThrow(Exception):
    def __init__(self, what, node=None):
        self.what = what
        self.node = node


class CppBreak(Exception):
    pass


class CppContinue(Exception):
    pass


# ---------------------------------------------------------------- values
class Cont:
    """Immutable value of a set / map / sequence."""
    __slots__ = ('ops', 'term', 'unordered')

    def __init__(self, ops, term, unordered=False):
        self.ops, self.term, self.unordered = ops, term, unordered

    def __repr__(self):
        return '%s:%s' % (self.ops.kind, self.term)


class Obj:
    """Immutable record value."""
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def set(self, name, v):
        d = dict(self.fields)
        d[name] = v
        return Obj(self.cls, d)

    def __repr__(self):
        return '%s%r' % (self.cls, self.fields)


class Ref:
    """Lvalue / pointer: location plus access path."""
    __slots__ = ('loc', 'path', 'moved')

    def __init__(self, loc, path=(), moved=False):
        self.loc, self.path, self.moved = loc, tuple(path), moved

    def __repr__(self):
        return '&%s%s' % (self.loc, ''.join('.' + str(p) for p in self.path))


NULL = Ref(None)


class Closure:
    def __init__(self, node, captures, this):
        self.node, self.captures, self.this = node, captures, this


class IterV:
    """Iterator: container reference, processed part `p`, current key."""
    __slots__ = ('cref', 'snap', 'p', 'cur', 'state', 'rev')

    def __init__(self, cref, snap, p, cur=None, state='lazy'):
        self.cref, self.snap, self.p, self.cur, self.state = cref, snap, p, cur, state

    def __repr__(self):
        return 'Iter(%s,%s,%s)' % (self.p, self.cur, self.state)


class Inserter:
    def __init__(self, cref, how):
        self.cref, self.how = cref, how


class Opaque:
    """A value whose content is irrelevant (loggers, timers, streams)."""

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Opaque(%s)' % self.why


class FnPtr:
    def __init__(self, node, tu):
        self.node, self.tu = node, tu


# ---------------------------------------------------------------- types
def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            depth += 1
        elif ch in '>)':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_norm_cache = {}


def norm_type(t):
    """-> (name, args, is_ref, is_ptr)"""
    if t in _norm_cache:
        return _norm_cache[t]
    s = t.strip()
    is_ref = is_ptr = False
    if s.endswith(' noexcept'):
        s = s[:-9]
    ch = True
    while ch:
        ch = False
        s = s.strip()
        if s.endswith('&'):
            is_ref = True
            s = s.rstrip('&')
            ch = True
        for suf in (' const', '*const', ' volatile'):
            if s.endswith(suf):
                s = s[:-len('const')] if suf != ' volatile' else s[:-9]
                ch = True
        s = s.strip()
        if s.endswith('*'):
            is_ptr = True
            s = s[:-1]
            ch = True
        for pre in ('const ', 'class ', 'struct ', 'enum ', 'typename ', 'volatile '):
            if s.startswith(pre):
                s = s[len(pre):]
                ch = True
    s = s.strip()
    args = []
    m = re.match(r'^([^<(]*)<(.*)>(.*)$', s, re.S)
    if m and not s.startswith('(lambda') and not m.group(3).strip().startswith('('):
        name = m.group(1).strip()
        args = split_args(m.group(2))
        if m.group(3):
            name = name + '<>' + m.group(3)
    else:
        name = s
    base = name.split('::')[-1] if '(' not in name else name
    r = (base.strip(), args, is_ref, is_ptr, name)
    _norm_cache[t] = r
    return r


def qt(node):
    t = node.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''


INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'size_t',
        'unsigned long long', 'short', 'unsigned short', 'char', 'unsigned char',
        'int64_t', 'uint64_t', 'int32_t', 'unsigned', 'size_type', 'difference_type',
        'signed char', 'std::size_t', 'Id', 'ptrdiff_t', 'uint32_t'}

OPAQUE_TYPES = ('ostream', 'basic_ostream', 'logger', 'TimerGuard', 'Timer',
                'ostringstream', 'basic_ostringstream', 'hash')


class Obligation:
    __slots__ = ('name', 'func', 'where', 'pc', 'goal', 'status', 'detail', 'time', 'backend')

    def __init__(self, name, func, where, pc, goal):
        self.name, self.func, self.where = name, func, where
        self.pc, self.goal = pc, goal
        self.status = None
        self.detail = ''
        self.time = 0.0
        self.backend = None


def str_prefix(path):
    out = []
    for p in path:
        if not isinstance(p, str):
            break
        out.append(p)
    return tuple(out)


def uncovered(ws, mods):
    """The written places that no place of `mods` contains."""
    return {(l, p) for l, p in ws if not any(l == m and p[:len(q)] == q for m, q in mods)}


class Interp:
    MAXDEPTH = 60

    def __init__(self, prog, world):
        self.prog = prog
        self.temps = []
        self.w = world            # theory + contracts + types
        self.mem = {}
        self.pc = []
        self.frames = []
        self.counter = itertools.count()
        self.cnt = 0
        self.obls = []
        self.obl_seen = set()
        self.ctx = []             # explore contexts
        self.writes = None
        self.stack = []           # inlined functions
        self.curfunc = '?'
        self.curline = None
        self.loopmemo = {}
        self.opno = 0
        self.solver_time = 0.0
        self.nchecks = 0
        self.strong = False
        self._mk_solver()
        self.deferred = None
        self.globals = {}
        self.inlined = set()
        self.contracted = set()
        self.ghost = {}

    # -- solver ------------------------------------------------------------
    def _mk_solver(self):
        """The solver without and with the theory of products."""
        self.solvers = []
        for nl, rel in ((False, 2), (True, 2), (False, 0)):
            s = z3.Solver()
            s.set('auto_config', False)
            s.set('smt.mbqi', False)
            s.set('smt.arith.nl', nl)
            s.set('smt.relevancy', rel)
            s.set('timeout', 4000)
            for _, a in self.w.th.axioms:
                s.add(a)
            self.solvers.append(s)
        self.nax = len(self.w.th.axioms)

    def check(self, fs, timeout=4000, nl=True):
        if len(self.w.th.axioms) != self.nax:
            self._mk_solver()
        t = time.time()
        r = z3.unknown
        # the last one instantiates on every term; it is tried where the
        # first gave up without having run out of time
        for s in self.solvers if nl else self.solvers[:1]:
            if s is self.solvers[1] and not self.w.nonlinear:
                continue
            if s is self.solvers[2] and not (
                    self.strong and 'incomplete' in self.last_reason):
                continue
            s.push()
            s.set('timeout', timeout if s is not self.solvers[2] else
                  300 if timeout < 4000 else 3000)
            for f in fs:
                s.add(f)
            r1 = s.check()
            why = s.reason_unknown() if r1 == z3.unknown else ''
            s.pop()
            self.nchecks += 1
            if s is self.solvers[2] and r1 != z3.unsat:
                break
            if r1 == z3.unsat or s is self.solvers[0]:
                r, self.last_reason = r1, why
                self.gave_up = 'incomplete' not in why
            else:
                self.gave_up = 'incomplete' not in why
                if 'incomplete' not in self.last_reason:
                    r, self.last_reason = r1, why
            if r == z3.unsat:
                break
        self.solver_time += time.time() - t
        return r

    def feasible(self, extra=()):
        return self.check(list(self.pc) + list(extra), 400, False) != z3.unsat

    # -- state -------------------------------------------------------------
    def snapshot(self):
        return (dict(self.mem), list(self.pc), [dict(f) for f in self.frames],
                self.cnt, dict(self.ghost))

    def restore(self, s):
        self.mem = dict(s[0])
        self.pc = list(s[1])
        self.frames = [dict(f) for f in s[2]]
        self.cnt = s[3]
        self.ghost = dict(s[4])

    def fresh(self, sort, name='v'):
        self.cnt += 1
        return z3.Const('%s!%d' % (name, self.cnt), sort)

    def alloc(self, v):
        self.cnt += 1
        loc = 'L%d' % self.cnt
        self.mem[loc] = v
        return Ref(loc)

    def assume(self, c):
        if c is True or c is None:
            return
        self.pc.append(c)

    def oblige(self, goal, name, where=None):
        """Records `goal` as an obligation under the current path, then assumes it."""
        if goal is True:
            return
        if self.w.only is not None and name not in self.w.only:
            return
        if goal is False:
            goal = z3.BoolVal(False)
        o = Obligation(name, self.curfunc, where or self.curline, list(self.pc), goal)
        self.obls.append(o)
        self.pc.append(goal)

    # -- memory ------------------------------------------------------------
    def load(self, r):
        if not isinstance(r, Ref):
            return r
        if r.loc is None:
            self.oblige(z3.BoolVal(False), 'null dereference')
            raise Infeasible()
        v = self.mem[r.loc]
        for p in r.path:
            v = self._get(v, p)
        return v

    def _get(self, v, p):
        if isinstance(p, tuple):
            if p[0] == 'elem':          # map entry as pair
                return Obj('pair', {'first': p[1], 'second': self.wrap(
                    v.ops.get(v.term, p[1]), v.ops)})
            if p[0] == 'val':
                return self.wrap(v.ops.get(v.term, p[1]), v.ops)
            if p[0] == 'nth':
                return self.wrap(v.ops.nth(v.term, p[1]), v.ops)
            raise Unsupported('path %r' % (p,))
        if isinstance(v, Obj):
            if p not in v.fields:
                raise Unsupported('field %s of %s' % (p, v.cls))
            return v.fields[p]
        if z3.is_expr(v):
            return self.w.field(self, v, p)
        if isinstance(v, Cont) and p in self.w.transparent:
            return v
        raise Unsupported('field %s of %r' % (p, v))

    def wrap(self, term, ops):
        """Container element terms may stand for structured values."""
        f = getattr(ops, 'decode', None)
        return f(term) if f else term

    def unwrap(self, v, ops):
        f = getattr(ops, 'encode', None)
        if f:
            return f(v)
        if isinstance(v, Cont):
            return v.term
        return v

    def store(self, r, v):
        if not isinstance(r, Ref) or r.loc is None:
            raise Unsupported('store to non-location')
        if ('copy', r.loc) in self.ghost:
            self.w.store_to_part(self, self.ghost['copy', r.loc])
        if self.writes is not None:
            self.writes.add((r.loc, str_prefix(r.path)))
        if not r.path:
            self.mem[r.loc] = v
            return
        self.mem[r.loc] = self._set(self.mem[r.loc], r.path, v)

    def _set(self, old, path, v):
        p = path[0]
        if len(path) > 1:
            v = self._set(self._get(old, p), path[1:], v)
        if isinstance(p, tuple):
            if p[0] == 'elem':
                return Cont(old.ops, old.ops.put(old.term, p[1], self.unwrap(
                    v.fields['second'], old.ops)), old.unordered)
            if p[0] == 'val':
                x = self.unwrap(v, old.ops)
                k = self.ghost.get('default')
                new = k is not None and k[0].eq(p[1]) and k[2].eq(old.term)
                self.w.on_put(self, old.ops, k[1] if new else old.term, p[1], x)
                return Cont(old.ops, old.ops.put(old.term, p[1], x), old.unordered)
            if p[0] == 'nth':
                return Cont(old.ops, old.ops.upd(old.term, p[1], self.unwrap(v, old.ops)))
            raise Unsupported('store path')
        if isinstance(old, Obj):
            return old.set(p, v)
        if z3.is_expr(old):
            return self.w.setfield(self, old, p, v)
        if isinstance(old, Cont) and p in self.w.transparent and isinstance(v, Cont):
            return v
        raise Unsupported('store field %s' % (p,))

    # -- path enumeration --------------------------------------------------
    def explore(self, fn):
        """All paths of fn from the current state: [(outcome, payload, state)]."""
        start = self.snapshot()
        results = []
        todo = [[]]
        npaths = 0
        if self.ctx:
            self.ctx[-1]['op'] += 1
        maxcnt = self.cnt
        while todo:
            trail = todo.pop()
            npaths += 1
            if npaths > 4000:
                raise Unsupported('too many paths')
            self.restore(start)
            c = {'trail': list(trail), 'pos': 0, 'todo': todo, 'op': 0}
            self.ctx.append(c)
            try:
                try:
                    out = ('ok', fn())
                except CppReturn as e:
                    out = ('return', e.value)
                except CppThrow as e:
                    out = ('throw', e)
                except CppBreak:
                    out = ('break', None)
                except CppContinue:
                    out = ('continue', None)
                except Infeasible:
                    out = None
            finally:
                self.ctx.pop()
            maxcnt = max(maxcnt, self.cnt)
            if out is not None:
                results.append((out[0], out[1], self.snapshot()))
        self.restore(start)
        self.cnt = maxcnt
        return results

    def branch(self, c):
        """Forks on a Boolean; returns the Python bool of this path."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.choose([c, z3.Not(c)])
        return k == 0

    def choose(self, conds):
        """Forks over alternatives given by (not necessarily exclusive) conditions."""
        x = self.ctx[-1]
        if x['pos'] < len(x['trail']):
            d = x['trail'][x['pos']]
            x['pos'] += 1
            self.assume(conds[d])
            return d
        ok = []
        for i, c in enumerate(conds):
            if c is True or c is None or self.feasible([c]):
                ok.append(i)
        if not ok:
            raise Infeasible()
        for d in reversed(ok[1:]):
            x['todo'].append(x['trail'][:x['pos']] + [d])
        d = ok[0]
        x['trail'] = x['trail'][:x['pos']] + [d]
        x['pos'] += 1
        self.assume(conds[d])
        return d

    # -- truth helpers -----------------------------------------------------
    def as_bool(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, Ref):
            return z3.BoolVal(v.loc is not None)
        if z3.is_expr(v):
            if v.sort() == z3.BoolSort():
                return v
            if v.sort() == z3.IntSort():
                return v != 0
            if v.sort() == z3.RealSort():
                return v != 0
        raise Unsupported('truth of %r' % (v,))

    # ================================================================ exec
    def var_ref(self, did, node=None):
        for f in (self.frames[-1],):
            if did in f:
                return f[did]
        if did in self.globals:
            return self.globals[did]
        return None

    def exec(self, n):
        k = n['kind']
        if '_line' in n and n.get('_line'):
            self.curline = '%s:%s' % ((n.get('_file') or '').replace('/repo/', ''), n['_line'])
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        return self.eval_void(n)

    def eval_void(self, n):
        self.ev(n)

    def s_CompoundStmt(self, n):
        if not self.w.destructors:
            for c in n.get('inner', ()):
                self.exec(c)
            return
        try:
            for c in n.get('inner', ()):
                self.exec(c)
        except CppReturn:
            self.leave(n)
            raise
        self.leave(n)

    def leave(self, n):
        """End of a block: its objects with destructors, in reverse order."""
        for c in reversed(n.get('inner', ())):
            for d in reversed(c.get('inner', ())) if c['kind'] == 'DeclStmt' else ():
                r = self.frames[-1].get(d.get('id'))
                if r is not None and norm_type(qt(d))[2:4] == (False, False):
                    self.w.destroy(self, r)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in n.get('inner', ()):
            if d['kind'] == 'VarDecl':
                self.declare(d)

    def declare(self, d):
        init = [c for c in d.get('inner', ()) if c['kind'].endswith('Expr') or
                c['kind'] in ('ExprWithCleanups', 'LambdaExpr') or
                c['kind'].endswith('Literal') or c['kind'].endswith('Operator')]
        t = qt(d)
        base, args, is_ref, is_ptr, full = norm_type(t)
        if self.w.opaque_type(base):
            self.frames[-1][d['id']] = self.alloc(Opaque(base))
            return
        if d.get('storageClass') == 'static':
            g = self.w.static_local(self, d)
            if g is not None:
                self.frames[-1][d['id']] = g
                return
        if (d.get('storageClass') == 'static' or d.get('tls')) and not (
                self.is_const(t) and not self.mentions_locals(init)):
            # whatever earlier calls left in it
            self.frames[-1][d['id']] = self.alloc(self.w.arbitrary(self, t, d.get('name', 'v')))
            return
        if not init:
            v = self.default_value(t)
        else:
            v = self.ev(init[0])
        if is_ref or t.rstrip().endswith('&'):
            if not isinstance(v, Ref):
                v = self.alloc(v)
            self.frames[-1][d['id']] = v
        else:
            if isinstance(v, Ref) and init and init[0].get('valueCategory') in ('lvalue', 'xvalue') \
                    and not is_ptr:
                v = self.load(v)
            self.frames[-1][d['id']] = self.alloc(v)

    @staticmethod
    def is_const(t):
        t = t.rstrip('& ')
        return t.endswith('const') if t.endswith('*const') or t.endswith('*') else \
            t.startswith('const ')

    def mentions_locals(self, n):
        if isinstance(n, list):
            return any(self.mentions_locals(c) for c in n)
        if n.get('kind') == 'CXXThisExpr':
            return True
        if n.get('kind') == 'DeclRefExpr':
            d = n['referencedDecl']
            if d.get('kind') in ('ParmVarDecl', 'BindingDecl'):
                return True
            if d.get('kind') == 'VarDecl' and d['id'] in self.frames[-1]:
                return True
        return any(self.mentions_locals(c) for c in n.get('inner', ()) if isinstance(c, dict))

    def global_value(self, n, d):
        """A variable at namespace scope or a static member."""
        full = n['_tu'].decl.get(d['id'])
        par = n['_tu'].parent.get(d['id']) if full is not None else None
        if full is None or (par is not None and par.get('kind') not in (
                'NamespaceDecl', 'CXXRecordDecl', 'TranslationUnitDecl')):
            return None
        t = qt(full)
        init = [c for c in full.get('inner', ()) if c['kind'].endswith(('Expr', 'Literal', 'Operator'))
                or c['kind'] == 'ExprWithCleanups']
        try:
            if self.is_const(t) and init and not self.mentions_locals(init):
                v = self.ev(init[-1])
                return v if isinstance(v, Ref) else self.alloc(v)
            return self.alloc(self.w.arbitrary(self, t, d.get('name', 'v')))
        except KeyError:
            return None

    def default_value(self, t):
        base, args, is_ref, is_ptr, full = norm_type(t)
        if is_ptr:
            return NULL
        return self.w.default(self, t)

    def s_IfStmt(self, n):
        inner = n['inner']
        i = 0
        if n.get('hasInit'):
            self.exec(inner[0])
            i = 1
        if n.get('hasVar'):
            self.exec(inner[i])
            i += 1
        c = self.as_bool(self.rv(inner[i]))
        if self.branch(c):
            self.exec(inner[i + 1])
        elif len(inner) > i + 2:
            self.exec(inner[i + 2])

    def s_ReturnStmt(self, n):
        inner = n.get('inner', ())
        if not inner:
            raise CppReturn(None)
        v = self.ev(inner[0])
        raise CppReturn(v)

    def s_BreakStmt(self, n):
        raise CppBreak()

    def s_ContinueStmt(self, n):
        raise CppContinue()

    def s_SwitchStmt(self, n):
        inner = n['inner']
        v = self.rv(inner[0])
        body = inner[-1]
        # flatten cases
        stmts = []
        labels = []      # (list of values or 'default', index)

        def add(st):
            if st['kind'] == 'CaseStmt':
                ci = st['inner']
                labels.append((self.const_value(ci[0]), len(stmts)))
                add(ci[-1])
            elif st['kind'] == 'DefaultStmt':
                labels.append((None, len(stmts)))
                add(st['inner'][-1])
            else:
                stmts.append(st)
        for st in body.get('inner', ()):
            add(st)
        conds, targets = [], []
        bytgt = {}
        for lab, idx in labels:
            if lab is not None:
                bytgt.setdefault(idx, []).append(v == lab)
        alls = [c for cs in bytgt.values() for c in cs]
        dflt = [idx for lab, idx in labels if lab is None]
        for idx in sorted(bytgt):
            conds.append(z3.Or(*bytgt[idx]) if len(bytgt[idx]) > 1 else bytgt[idx][0])
            targets.append(idx)
        conds.append(z3.Not(z3.Or(*alls)) if alls else z3.BoolVal(True))
        targets.append(dflt[0] if dflt else None)
        conds2 = [z3.simplify(c) for c in conds]
        known = [i for i, c in enumerate(conds2) if z3.is_true(c)]
        k = known[0] if known else self.choose(conds2)
        t = targets[k]
        if t is None:
            return
        try:
            for st in stmts[t:]:
                self.exec(st)
        except CppBreak:
            pass

    def const_value(self, n):
        if n['kind'] == 'ConstantExpr' and 'value' in n:
            return z3.IntVal(int(n['value']))
        return self.rv(n)

    def s_CXXTryStmt(self, n):
        inner = n['inner']
        try:
            self.exec(inner[0])
        except CppThrow as e:
            for h in inner[1:]:
                # catch handlers: accept every handler (types are not modelled)
                for c in h.get('inner', ()):
                    if c['kind'] == 'CompoundStmt':
                        self.exec(c)
                        return
            raise

    # -- loops ---------------------------------------------------------------
    def s_WhileStmt(self, n):
        inner = [c for c in n['inner'] if c]
        cond, body = inner[0], inner[-1]
        self.loop(n, lambda: self.as_bool(self.rv(cond)), lambda: self.exec(body), None)

    def s_DoStmt(self, n):
        inner = n['inner']
        body, cond = inner[0], inner[1]
        try:
            self.exec(body)
        except CppContinue:
            pass
        except CppBreak:
            return
        self.loop(n, lambda: self.as_bool(self.rv(cond)), lambda: self.exec(body), None)

    def s_ForStmt(self, n):
        init, _var, cond, inc, body = n['inner']
        if init and init.get('kind'):
            self.exec(init)
        self.loop(n, (lambda: self.as_bool(self.rv(cond))) if cond and cond.get('kind') else (lambda: True),
                  lambda: self.exec(body),
                  (lambda: self.eval_void(inc)) if inc and inc.get('kind') else None)

    def s_CXXForRangeStmt(self, n):
        # inner: init?, range DeclStmt, begin DeclStmt, end DeclStmt, cond, inc, loopvar DeclStmt, body
        inner = n['inner']
        rng = inner[1]
        var = inner[-2]
        body = inner[-1]
        rdecl = rng['inner'][0]
        self.declare(rdecl)
        r = self.frames[-1][rdecl['id']]
        v = self.load(r)
        vd = var['inner'][0]
        if isinstance(v, Obj) and self.w.range_of(v) is not None:
            f = self.w.range_of(v)
            r = Ref(r.loc, r.path + (f,))
            v = self.load(r)
        if isinstance(v, Obj) and v.cls == 'initlist':
            for item in v.fields['items']:
                self.bind_loop_var(vd, self.alloc(item))
                try:
                    self.exec(body)
                except CppContinue:
                    continue
                except CppBreak:
                    break
            return
        if not isinstance(v, Cont):
            raise Unsupported('range-for over %r' % (v,))
        it = self.alloc(self.begin(r))

        def cond():
            return not self.at_end(it)

        def b():
            self.bind_loop_var(vd, self.deref_iter(it))
            self.exec(body)
        self.loop(n, cond, b, lambda: self.incr_iter(it))

    def bind_loop_var(self, vd, elem):
        t = qt(vd)
        if norm_type(t)[2]:
            self.frames[-1][vd['id']] = elem
        else:
            self.frames[-1][vd['id']] = self.alloc(self.load(elem))

    # iterators
    def begin(self, cref):
        v = self.load(cref)
        if isinstance(v, Obj):
            f = self.w.range_of(v)
            if f is not None:
                return self.begin(Ref(cref.loc, cref.path + (f,)))
        if not isinstance(v, Cont):
            raise Unsupported('begin of %r' % (v,))
        p = z3.IntVal(0) if v.ops.kind == 'seq' else v.ops.empty
        return IterV(cref, v, p)

    def end(self, cref):
        v = self.load(cref)
        if isinstance(v, Obj):
            f = self.w.range_of(v)
            if f is not None:
                return self.end(Ref(cref.loc, cref.path + (f,)))
        if not isinstance(v, Cont):
            raise Unsupported('end of %r' % (v,))
        return IterV(cref, v, None, None, 'end')

    def resolve_iter(self, r):
        it = self.load(r)
        if it.state != 'lazy':
            return it
        ops, s = it.snap.ops, it.snap.term
        if ops.kind == 'seq':
            done = it.p == ops.len(s)
            if self.branch(done):
                n = IterV(it.cref, it.snap, it.p, None, 'end')
            else:
                self.assume(it.p < ops.len(s))
                n = IterV(it.cref, it.snap, it.p, it.p, 'at')
        elif ops.kind == 'set' and self.w.set_grows:
            # elements may be inserted while the set is walked: at the end, those that were
            # in it at the beginning have been visited
            x = self.fresh(ops.T, 'elem')
            if self.branch(self.fresh(z3.BoolSort(), 'done')):
                y = z3.Const('y', ops.T)
                self.assume(z3.ForAll([y], z3.Implies(ops.mem(y, s), ops.mem(y, it.p)), patterns=[
                    ops.mem(y, s), ops.mem(y, it.p)]))
                n = IterV(it.cref, it.snap, it.p, None, 'end')
            else:
                self.assume(ops.mem(x, self.load(it.cref).term))
                self.assume(z3.Not(ops.mem(x, it.p)))
                self.w.on_element(self, it, x)
                n = IterV(it.cref, it.snap, it.p, x, 'at')
        else:
            if it.p.eq(ops.empty):
                done = ops.card(s) == 0
            else:
                done = it.p == s
            if self.branch(done):
                self.assume(it.p == s)
                n = IterV(it.cref, it.snap, it.p, None, 'end')
            else:
                x = self.fresh(ops.T if ops.kind == 'set' else ops.K, 'elem')
                inside = ops.mem(x, s) if ops.kind == 'set' else ops.has(s, x)
                seen = ops.mem(x, it.p) if ops.kind == 'set' else ops.has(it.p, x)
                self.assume(inside)
                self.assume(z3.Not(seen))
                self.assume(ops.card(s) >= 1)
                self.w.on_element(self, it, x)
                n = IterV(it.cref, it.snap, it.p, x, 'at')
        # resolution is not a program write
        w, self.writes = self.writes, None
        self.store(r, n)
        self.writes = w
        return n

    def at_end(self, r):
        return self.resolve_iter(r).state == 'end'

    def deref_iter(self, r):
        it = self.resolve_iter(r)
        if it.state != 'at':
            self.oblige(z3.BoolVal(False), 'dereference of end iterator')
            raise Infeasible()
        ops = it.snap.ops
        if ops.kind == 'set':
            return self.alloc(self.wrap(it.cur, ops))
        if ops.kind == 'seq':
            return Ref(it.cref.loc, it.cref.path + (('nth', it.cur),))
        return Ref(it.cref.loc, it.cref.path + (('elem', it.cur),))

    def incr_iter(self, r):
        it = self.resolve_iter(r)
        if it.state != 'at':
            self.oblige(z3.BoolVal(False), 'increment of end iterator')
            raise Infeasible()
        ops = it.snap.ops
        now = self.load(it.cref)
        if isinstance(now, Cont) and not now.term.eq(it.snap.term):
            if ops.kind == 'map':       # the values of entries may be assigned
                self.oblige(self.w.walked_map(ops, now.term, it.snap.term, ops.put(
                    it.p, it.cur, ops.get(it.snap.term, it.cur))),
                    'no entry is added, removed or changed while the map is walked')
            elif ops.kind == 'set' and self.w.set_grows:
                y = z3.Const('y', ops.T)
                self.oblige(z3.ForAll([y], z3.Implies(ops.mem(y, it.snap.term), ops.mem(
                    y, now.term)), patterns=[ops.mem(y, it.snap.term)]),
                    'nothing is taken out of the set while it is walked')
            else:
                self.oblige(now.term == it.snap.term,
                            'the container is not changed while it is walked')
        if ops.kind == 'set':
            p = ops.ins(it.p, it.cur)
        elif ops.kind == 'seq':
            p = z3.simplify(it.p + 1)
        else:
            p = ops.put(it.p, it.cur, ops.get(it.snap.term, it.cur))
        self.store(r, IterV(it.cref, it.snap, p))
        return r

    def havoc_value(self, v, name):
        if isinstance(v, bool):
            return self.fresh(z3.BoolSort(), name)
        if isinstance(v, int):
            return self.fresh(z3.IntSort(), name)
        if z3.is_expr(v):
            return self.fresh(v.sort(), name)
        if isinstance(v, Cont):
            return Cont(v.ops, self.fresh(v.ops.sort, name), v.unordered)
        if isinstance(v, Obj):
            return Obj(v.cls, {k: self.havoc_value(x, name + '.' + str(k)) for k, x in v.fields.items()})
        if isinstance(v, IterV):
            ops = v.snap.ops
            if ops.kind == 'seq':
                p = self.fresh(z3.IntSort(), name)
                self.assume(z3.And(p >= 0, p <= ops.len(v.snap.term)))
            else:
                p = self.fresh(ops.sort, name)
                x = z3.Const('hx', ops.T if ops.kind == 'set' else ops.K)
                if ops.kind == 'set' and self.w.set_grows:
                    pass
                elif ops.kind == 'set':
                    self.assume(z3.ForAll([x], z3.Implies(ops.mem(x, p), ops.mem(x, v.snap.term)),
                                          patterns=[ops.mem(x, p)]))
                else:
                    self.assume(z3.ForAll([x], z3.Implies(ops.has(p, x), z3.And(
                        ops.has(v.snap.term, x),
                        ops.get(p, x) == ops.get(v.snap.term, x))), patterns=[ops.has(p, x)]))
            self.w.on_havoc_iter(self, v, p)
            return IterV(v.cref, v.snap, p)
        if isinstance(v, Opaque):
            return v
        raise Unsupported('loop changes a value of kind %s' % type(v).__name__)

    def loop(self, node, cond, body, inc):
        ctx = self.ctx
        key = (tuple((tuple(c['trail'][:c['pos']]), c['op']) for c in ctx), id(node))
        ctx[-1]['op'] += 1
        memo = self.loopmemo.get(key)
        if memo is None:
            op = ctx[-1]['op']
            memo = self._analyse_loop(node, cond, body, inc)
            ctx[-1]['op'] = op
            self.loopmemo[key] = memo
        paths, maxcnt = memo
        # continue along one of the ways out of the loop
        k = self.choose([z3.BoolVal(True)] * len(paths)) if len(paths) > 1 else (0 if paths else None)
        if k is None:
            raise Infeasible()
        kind, payload, st, invs, pcbase = paths[k]
        saved_ctx = self.pc
        self.restore(st)
        self.cnt = max(self.cnt, maxcnt)
        self.pc = list(self.pc) + list(invs)
        if kind in ('exit', 'break'):
            return
        if kind == 'return':
            raise CppReturn(payload)
        if kind == 'throw':
            raise payload
        raise Unsupported('loop outcome ' + kind)

    def _analyse_loop(self, node, cond, body, inc):
        entry = self.snapshot()
        where = '%s' % (node.get('_line'),) if isinstance(node, dict) else str(node)
        saved_writes = self.writes
        obl0 = len(self.obls)

        def one():
            c = cond()
            if not (c if isinstance(c, bool) else self.branch(c)):
                return 'exit'
            try:
                body()
            except CppContinue:
                pass
            if inc is not None:
                inc()
            return 'next'
        mods = set()
        nested = [False]

        def round_(hyps):
            """Explores the body from the havoced state under the hypotheses."""
            self.restore(entry)
            for loc, path in sorted(mods):
                v = self.load(Ref(loc, path))
                v = self.havoc_value(v, 'h_' + '.'.join((loc,) + path))
                self.mem[loc] = v if not path else self._set(self.mem[loc], path, v)
            hav = self.snapshot()
            self.pc = list(self.pc) + [h for h in hyps(hav)]
            del self.obls[obl0:]
            self.writes = set()
            memo0 = set(self.loopmemo)
            rep0 = len(getattr(self, 'loop_report', []))
            try:
                r = self.explore(one)
            finally:
                w = self.writes
                self.writes = saved_writes
                inner = set(self.loopmemo) - memo0
                for k in inner:
                    del self.loopmemo[k]
                if inner:
                    nested[0] = True
            return hav, r, w, rep0
        for _round in range(8):
            havoced, res, w, rep0 = round_(lambda hav: [])
            new = uncovered({x for x in w if x[0] in entry[0]}, mods)
            if not new:
                break
            for l, p in sorted(new, key=lambda x: len(x[1])):
                while p:
                    try:
                        self.restore(entry)
                        x = self.load(Ref(l, p))
                        if not isinstance(self.load(Ref(l, p[:-1])), Obj):
                            p = p[:-1]
                            continue
                        break
                    except Exception:
                        p = p[:-1]
                mods = {(m, q) for m, q in mods if not (m == l and q[:len(p)] == p)} | {(l, p)}
            if hasattr(self, 'loop_report'):
                del self.loop_report[rep0:]
        else:
            raise Unsupported('loop frame does not stabilise')
        if saved_writes is not None:
            saved_writes |= mods
        cands = self.w.loop_candidates(self, node, entry, havoced, sorted(mods))
        # initial validity
        alive = []
        for c in cands:
            f = c.at(entry)
            if f is None or c.at(havoced) is None:
                continue
            if self.prove(entry[1], f):
                alive.append(c)
        while True:
            if nested[0]:
                # inner loops need the invariants of this one: explore again
                if hasattr(self, 'loop_report'):
                    del self.loop_report[rep0:]
                cur = list(alive)
                havoced, res, w, rep0 = round_(lambda hav: [c.at(hav) for c in cur])
                if uncovered({x for x in w if x[0] in entry[0]}, mods):
                    raise Unsupported('loop frame does not stabilise')
            nexts = [(k, p, s) for k, p, s in res if (k == 'ok' and p == 'next') or k == 'continue']
            hyp = [c.at(havoced) for c in alive]
            drop = []
            for c in alive:
                for k, p, s in nexts:
                    f = c.at(s)
                    if f is None or not self.prove(list(s[1]) + hyp, f):
                        if DEBUG:
                            print('    drop', where, c.name, nexts.index((k, p, s)), self.last_reason)
                        drop.append(c)
                        break
            if not drop:
                break
            alive = [c for c in alive if c not in drop]
        body_obls = self.obls[obl0:]
        del self.obls[obl0:]
        self.loop_report = getattr(self, 'loop_report', [])
        self.loop_report.append((self.curfunc, where, [c.name for c in alive], len(cands)))
        hyp = [c.at(havoced) for c in alive]
        for o in body_obls:
            o.pc = list(o.pc) + hyp
            self.obls.append(o)
        # record preservation as obligations (discharged above by the same back end)
        for c in alive:
            f = c.at(entry)
            self._record(c.name + ' holds on entry', where, entry[1], f)
            for k, p, s in nexts:
                self._record(c.name + ' is preserved', where, list(s[1]) + hyp, c.at(s))
        outs = []
        maxcnt = self.cnt
        for k, p, s in res:
            maxcnt = max(maxcnt, s[3])
            if k == 'ok' and p == 'exit':
                outs.append(('exit', None, s, hyp, None))
            elif k == 'break':
                outs.append(('break', None, s, hyp, None))
            elif k == 'return':
                outs.append(('return', p, s, hyp, None))
            elif k == 'throw':
                outs.append(('throw', p, s, hyp, None))
        self.restore(entry)
        return outs, maxcnt

    def _record(self, name, where, pc, goal):
        o = Obligation('loop invariant: ' + name, self.curfunc, where, list(pc), goal)
        o.status = 'proved'
        o.backend = 'z3'
        self.obls.append(o)

    def prove(self, pc, goal, timeout=2500):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        return self.check(list(pc) + [z3.Not(goal)], timeout) == z3.unsat

    # ================================================================ eval
    def rv(self, n):
        """Value of an expression (loads lvalues)."""
        v = self.ev(n)
        if isinstance(v, Ref) and n.get('valueCategory') in ('lvalue', 'xvalue'):
            return self.load(v)
        return v

    def lv(self, n):
        """Reference for an expression (materialises prvalues)."""
        v = self.ev(n)
        if isinstance(v, Ref) and n.get('valueCategory') in ('lvalue', 'xvalue'):
            return v
        return self.alloc(v)

    def ev(self, n):
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            raise Unsupported('expression kind %s (line %s)' % (n['kind'], n.get('_line')))
        return m(n)

    def _in(self, n):
        return n['inner'][0]

    def e_ExprWithCleanups(self, n):
        if not self.w.destructors:
            return self.ev(self._in(n))
        temps, self.temps = self.temps, []
        try:
            r = self.ev(self._in(n))
            for t in reversed(self.temps):
                self.w.destroy(self, t)
            return r
        finally:
            self.temps = temps

    def e_ParenExpr(self, n):
        return self.ev(self._in(n))
    e_CXXBindTemporaryExpr = e_SubstNonTypeTemplateParmExpr = e_ParenExpr

    def e_ConstantExpr(self, n):
        return self.ev(self._in(n))

    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(self._in(n))
        if isinstance(v, Ref) and self._in(n).get('valueCategory') in ('lvalue', 'xvalue'):
            return v
        r = self.alloc(v)
        if self.w.destructors and self._in(n)['kind'] == 'CXXBindTemporaryExpr' and \
                not n.get('extendingDecl'):
            self.temps.append(r)
        return r

    def e_IntegerLiteral(self, n):
        return z3.IntVal(int(n['value']))

    def e_FloatingLiteral(self, n):
        return self.w.float_literal(n['value'])

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(n['value'] if isinstance(n['value'], bool) else n['value'] == 'true')

    def e_CharacterLiteral(self, n):
        return z3.IntVal(int(n['value']))

    def e_StringLiteral(self, n):
        import json
        try:
            s = json.loads(n['value'])
        except Exception:
            s = n['value'].strip('"')
        return z3.StringVal(s)

    def e_SourceLocExpr(self, n):
        return z3.StringVal('') if norm_type(qt(n))[3] else z3.IntVal(0)

    def e_PredefinedExpr(self, n):
        return z3.StringVal('func')

    def e_CXXNullPtrLiteralExpr(self, n):
        return NULL

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, n):
        t = self.frames[-1].get('this')
        if t is None:
            raise Unsupported('this')
        return t

    def e_CXXDefaultArgExpr(self, n):
        if n.get('inner'):
            return self.ev(self._in(n))
        return Opaque('default argument')

    def e_CXXDefaultInitExpr(self, n):
        if n.get('inner'):
            return self.ev(self._in(n))
        raise Unsupported('default member init')

    def e_ImplicitValueInitExpr(self, n):
        return self.default_value(qt(n))

    def e_CXXScalarValueInitExpr(self, n):
        return self.default_value(qt(n))

    def e_SizeOfPackExpr(self, n):
        raise Unsupported('sizeof...')

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        k = d['kind']
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            r = self.var_ref(d['id'])
            if r is None:
                r = self.w.global_var(self, n, d)
            if r is None:
                r = self.global_value(n, d)
            if r is None:
                raise Unsupported('variable %s' % d.get('name'))
            return r
        if k == 'EnumConstantDecl':
            tu = n['_tu']
            full = tu.decl.get(d['id'])
            if full is not None and '_value' in full:
                return z3.IntVal(full['_value'])
            v = self.w.enum_constant(self, n, d)
            if v is None:
                raise Unsupported('enum constant %s' % d.get('name'))
            return v
        if k in FUNC:
            return FnPtr(d, n['_tu'])
        raise Unsupported('reference to %s' % k)

    def e_MemberExpr(self, n):
        base = self._in(n)
        md = n['_tu'].decl.get(n.get('referencedMemberDecl'))
        if md is not None and md['kind'] == 'CXXMethodDecl':     # static
            return FnPtr(md, n['_tu'])
        name = n['name']
        if n.get('isArrow'):
            r = self.rv(base)
            if isinstance(r, Obj) and 'ptr' in r.fields:      # smart pointers
                r = r.fields['ptr']
        else:
            r = self.ev(base)
            if not (isinstance(r, Ref) and base.get('valueCategory') in ('lvalue', 'xvalue')):
                r = self.alloc(r)
        if not isinstance(r, Ref):
            if z3.is_expr(r):     # pointer to a symbolic cell
                return self.part(r, name, self.alloc(self.w.field(self, r, name)))
            raise Unsupported('member %s of %r' % (name, r))
        if r.loc is None:
            self.oblige(z3.BoolVal(False), 'null dereference')
            raise Infeasible()
        v = self.load(r)
        if z3.is_expr(v):
            return self.part(v, name, self.w.member_of_term(self, r, v, name, n))
        if isinstance(v, Opaque):
            return self.alloc(Opaque(name))
        f = self.ref_field(v, name)
        if f is not None:
            return f if not r.moved else Ref(f.loc, f.path, True)
        return Ref(r.loc, r.path + (name,), r.moved)

    def part(self, v, name, r):
        """A member of a value that is a term is read through a copy."""
        if isinstance(r, Ref) and r.loc is not None and not r.path:
            self.ghost['copy', r.loc] = (v, name)
        return r

    def ref_field(self, v, name):
        """Fields of reference type hold a Ref: access goes through."""
        if isinstance(v, Obj) and isinstance(v.fields.get(name), Ref) and \
                ('&' + name) in v.fields:
            return v.fields[name]
        return None

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        sub = self._in(n)
        if ck == 'LValueToRValue':
            v = self.ev(sub)
            return self.load(v) if isinstance(v, Ref) else v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'DerivedToBase',
                  'UncheckedDerivedToBase', 'ConstructorConversion', 'BaseToDerived',
                  'UserDefinedConversion', 'ArrayToPointerDecay', 'BitCast', 'Dynamic'):
            return self.w.pointer_cast(self, n, self.ev(sub))
        if ck == 'IntegralCast':
            return self.w.integral_cast(self, n, self.rv(sub))
        if ck == 'IntegralToBoolean':
            return self.as_bool(self.rv(sub))
        if ck == 'IntegralToFloating':
            v = self.rv(sub)
            return self.w.int_to_float(self, v)
        if ck == 'FloatingToIntegral':
            return self.w.float_to_int(self, n, self.rv(sub))
        if ck == 'FloatingCast':
            return self.rv(sub)
        if ck == 'FloatingToBoolean':
            return self.as_bool(self.rv(sub))
        if ck == 'PointerToBoolean':
            v = self.rv(sub)
            if isinstance(v, Ref):
                return z3.BoolVal(v.loc is not None)
            return self.w.ptr_nonnull(self, v)
        if ck == 'NullToPointer':
            return self.w.null_pointer(self, qt(n))
        if ck == 'ToVoid':
            self.ev(sub)
            return None
        raise Unsupported('cast %s' % ck)

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_ImplicitCastExpr

    def e_CXXDynamicCastExpr(self, n):
        return self.w.dynamic_cast(self, n, self.ev(self._in(n)))

    def e_UnaryOperator(self, n):
        op = n['opcode']
        sub = self._in(n)
        if op == '&':
            return self.w.address_of(self, self.ev(sub))
        if op == '*':
            v = self.rv(sub)
            if isinstance(v, IterV):
                return self.deref_iter(self.alloc(v))
            if isinstance(v, FnPtr):
                return v
            if isinstance(v, Obj) and 'ptr' in v.fields:
                return v.fields['ptr']
            if z3.is_expr(v):
                return self.alloc(v)
            if isinstance(v, Ref):
                if v.loc is None:
                    self.oblige(z3.BoolVal(False), 'null dereference')
                    raise Infeasible()
                return v
            raise Unsupported('deref %r' % (v,))
        if op == '!':
            return z3.Not(self.as_bool(self.rv(sub)))
        if op == '-':
            return self.w.neg(self, self.rv(sub), n)
        if op == '+':
            return self.rv(sub)
        if op in ('++', '--'):
            r = self.ev(sub)
            v = self.load(r)
            if isinstance(v, IterV):
                old = v
                self.incr_iter(r)
                return old if n.get('isPostfix') else r
            nv = v + 1 if op == '++' else v - 1
            self.store(r, nv)
            return v if n.get('isPostfix') else r
        if op == '__extension__':
            return self.ev(sub)
        raise Unsupported('unary ' + op)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '&&':
            x = self.as_bool(self.rv(a))
            if self.branch(x):
                return self.as_bool(self.rv(b))
            return z3.BoolVal(False)
        if op == '||':
            x = self.as_bool(self.rv(a))
            if self.branch(x):
                return z3.BoolVal(True)
            return self.as_bool(self.rv(b))
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op == '=':
            r = self.lv(a)
            v = self.rv(b)
            self.store(r, v)
            return r
        x, y = self.rv(a), self.rv(b)
        return self.binop(op, x, y, n)

    def binop(self, op, x, y, n=None):
        if isinstance(x, Ref) or isinstance(y, Ref):
            if op in ('==', '!='):
                e = self.w.ptr_eq(self, x, y)
                return e if op == '==' else z3.Not(e)
            raise Unsupported('pointer arithmetic')
        if isinstance(x, IterV) and isinstance(y, IterV):
            e = self.iter_eq(x, y)
            return z3.BoolVal(e if op == '==' else not e)
        return self.w.binop(self, op, x, y, n)

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = n['inner']
        r = self.lv(a)
        y = self.rv(b)
        v = self.binop(op, self.load(r), y, n)
        self.store(r, v)
        return r

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        if self.branch(self.as_bool(self.rv(c))):
            return self.ev(a)
        return self.ev(b)

    def e_CXXThrowExpr(self, n):
        what = ''
        if n.get('inner'):
            what = norm_type(qt(n['inner'][0]))[0]
        raise CppThrow(what, n)

    def e_LambdaExpr(self, n):
        rec = n['inner'][0]
        meth = [m for m in rec.get('inner', ()) if m['kind'] == 'CXXMethodDecl' and
                m.get('name') == 'operator()']
        if not meth:
            # generic lambda: FunctionTemplateDecl
            for m in rec.get('inner', ()):
                if m['kind'] == 'FunctionTemplateDecl' and m.get('name') == 'operator()':
                    meth = [c for c in m.get('inner', ()) if c['kind'] == 'CXXMethodDecl']
                    meth = [c for c in meth if 'mangledName' in c] or meth
        fields = [f for f in rec.get('inner', ()) if f['kind'] == 'FieldDecl']
        caps = [c for c in n['inner'][1:] if c['kind'] not in ('CompoundStmt',)]
        frame = dict(self.frames[-1])
        this = frame.get('this')
        # by-copy captures take a snapshot of the value
        for f, c in zip(fields, caps):
            d = c
            while d.get('kind') in ('ImplicitCastExpr', 'CXXConstructExpr', 'MaterializeTemporaryExpr'):
                if not d.get('inner'):
                    break
                d = d['inner'][0]
            if d.get('kind') == 'DeclRefExpr' and not qt(f).rstrip().endswith('&'):
                r = self.var_ref(d['referencedDecl']['id'])
                if r is not None:
                    frame[d['referencedDecl']['id']] = self.alloc(self.load(r))
        return Closure(meth[0] if meth else n, frame, this)

    def e_InitListExpr(self, n):
        t = qt(n)
        if n.get('valueCategory') in ('lvalue', 'xvalue') and len(n.get('inner', ())) == 1:
            return self.ev(self._in(n))
        base, args, is_ref, is_ptr, full = norm_type(t)
        items = n.get('inner', ())
        if base in INTS or base in ('bool', 'double', 'float') or is_ptr:
            if not items:
                return self.default_value(t)
            return self.rv(items[0])
        return self.w.init_list(self, n, t, [self.ev_item(i) for i in items])

    def ev_item(self, i):
        v = self.ev(i)
        if isinstance(v, Ref) and i.get('valueCategory') in ('lvalue', 'xvalue'):
            return self.load(v)
        return v

    def e_CXXStdInitializerListExpr(self, n):
        sub = self._in(n)
        while sub['kind'] in ('MaterializeTemporaryExpr', 'ImplicitCastExpr', 'CXXBindTemporaryExpr'):
            sub = sub['inner'][0]
        items = [self.ev_item(i) for i in sub.get('inner', ())]
        return Obj('initlist', {'items': items})

    # -- calls ---------------------------------------------------------------
    def e_CallExpr(self, n):
        inner = n['inner']
        callee = inner[0]
        f = self.ev(callee) if self._callee_is_value(callee) else self.callee_of(callee)
        if isinstance(f, Ref):
            f = self.load(f)
        if isinstance(f, Closure):
            return self.call_closure(f, [self.ev(a) for a in inner[1:]])
        if not isinstance(f, FnPtr):
            raise Unsupported('call through %r' % (f,))
        return self.dispatch(f, None, inner[1:], n)

    def _callee_is_value(self, c):
        return True

    def callee_of(self, c):
        return self.ev(c)

    def e_UserDefinedLiteral(self, n):
        return self.e_CallExpr(n)

    def e_CXXOperatorCallExpr(self, n):
        inner = n['inner']
        f = self.ev(inner[0])
        args = inner[1:]
        return self.dispatch(f, 'op', args, n)

    def e_CXXMemberCallExpr(self, n):
        inner = n['inner']
        me = inner[0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call via ' + me['kind'])
        base = me['inner'][0]
        if me.get('isArrow'):
            obj = self.rv(base)
            if isinstance(obj, Obj) and 'ptr' in obj.fields:
                obj = obj.fields['ptr']
            if isinstance(obj, IterV):
                obj = self.deref_iter(self.alloc(obj))
            if z3.is_expr(obj):
                obj = self.alloc(obj)
        else:
            obj = self.ev(base)
            if not (isinstance(obj, Ref) and base.get('valueCategory') in ('lvalue', 'xvalue')):
                obj = self.alloc(obj)
        if isinstance(obj, (Opaque,)):
            obj = self.alloc(obj)
        tu = n['_tu']
        mid = me.get('referencedMemberDecl')
        return self.call_method(obj, me['name'], mid, tu, inner[1:], n, base)

    def call_method(self, obj, name, mid, tu, argn, n, base):
        if not isinstance(obj, Ref):
            raise Unsupported('method %s on %r' % (name, obj))
        if obj.loc is None:
            self.oblige(z3.BoolVal(False), 'call through null pointer')
            raise Infeasible()
        fn = self.prog.resolve(tu, mid) if mid else None
        v = self.load(obj)
        if isinstance(v, Opaque):
            return self.w.opaque_call(self, v, name, n)
        if fn is not None:
            q = fn.get('_q')
            return self.call_resolved(fn, q, obj, argn, n, virtual=True)
        # std:: member
        args = [self.ev(a) for a in argn]
        return self.w.std_method(self, obj, v, name, args, n)

    def dispatch(self, f, how, argn, n):
        d, tu = f.node, f.tu
        fn = self.prog.resolve(tu, d['id'])
        if fn is not None and fn['kind'] == 'CXXMethodDecl' and how == 'op':
            # operator member function: first arg is the object
            q = fn.get('_q')
            a0 = argn[0]
            obj = self.lv(a0)
            if q and ('(record)' in q or fn.get('name') == 'operator()'):
                v = self.load(obj)
                if isinstance(v, Closure):
                    return self.call_closure(v, [self.ev(a) for a in argn[1:]])
            return self.call_resolved(fn, q, obj, argn[1:], n)
        if fn is not None:
            return self.call_resolved(fn, fn.get('_q'), None, argn, n)
        name = d.get('name')
        args = [self.ev(a) for a in argn]
        return self.w.std_function(self, name, args, argn, n, d)

    def call_resolved(self, fn, q, this, argn, n, virtual=False):
        """Call of a dreal function: contract if there is one, else its body."""
        c = self.w.contract_for(self, fn, q, this)
        args = None
        if q in self.w.ignored:
            return None
        if c is not None:
            args = [self.ev(a) for a in argn]
            self.contracted.add(q)
            moved = [a for a, p in zip(args, self.params(fn))
                     if isinstance(a, Ref) and a.moved and not self.lvalue_param(p)]
            r = c(self, this, args, n)
            for a in moved:
                try:
                    self.store(a, self.havoc_value(self.load(a), 'moved'))
                except Unsupported:
                    pass
            if this is not None and this.moved:
                pass
            return self.conv(r, n)
        if virtual and self.w.is_virtual(fn):
            raise Unsupported('virtual call to %s without a contract' % q)
        if fn.get('explicitlyDefaulted') or body_of(fn) is None:
            args = [self.ev(a) for a in argn]
            nm = fn.get('name')
            if nm == 'operator=' and this is not None:
                v = args[0]
                self.store(this, self.load(v) if isinstance(v, Ref) else v)
                return this
            r = self.w.no_body(self, fn, q, this, args, n)
            return self.conv(r, n)
        args = [self.ev(a) for a in argn]
        return self.conv(self.inline(fn, this, args, n, argn), n)

    def conv(self, v, n):
        """Match the value category of the call expression."""
        if n is None:
            return v
        cat = n.get('valueCategory')
        if cat == 'prvalue' and isinstance(v, Ref) and not norm_type(qt(n))[3]:
            return self.load(v)
        if cat in ('lvalue', 'xvalue') and not isinstance(v, Ref) and v is not None:
            return self.alloc(v)
        return v

    def params(self, fn):
        return [c for c in fn.get('inner', ()) if c['kind'] == 'ParmVarDecl']

    def lvalue_param(self, p):
        t = qt(p).strip()
        return t.endswith('&') and not t.endswith('&&')

    def bind(self, frame, p, a):
        t = qt(p)
        is_ref = t.rstrip().endswith('&')
        if isinstance(a, Opaque) and a.why == 'default argument':
            raise Unsupported('default argument')
        if is_ref:
            frame[p['id']] = a if isinstance(a, Ref) else self.alloc(a)
        else:
            is_ptr = norm_type(t)[3]
            if isinstance(a, Ref) and not is_ptr:
                v = self.load(a)
                if isinstance(v, Closure) or True:
                    frame[p['id']] = self.alloc(v)
                    if a.moved:
                        try:
                            self.store(a, self.havoc_value(v, 'moved'))
                        except Unsupported:
                            pass
            elif isinstance(a, Ref) and is_ptr:
                frame[p['id']] = self.alloc(a)
            else:
                frame[p['id']] = self.alloc(a)

    def inline(self, fn, this, args, n, argn=None):
        q = fn.get('_q')
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported('inlining too deep at %s' % q)
        if self.stack.count(fn['id']) >= 2:
            raise Unsupported('recursion without a contract: %s' % q)
        self.inlined.add(q)
        frame = {'this': this}
        for p, a in zip(self.params(fn), args):
            # pointer params: lvalue argument of pointer type must be loaded
            self.bind(frame, p, a)
        if this is not None and this.moved:
            frame['this'] = Ref(this.loc, this.path)
        keep = self.w.frame_of_call(self, fn, this, args) if not self.stack else None
        self.frames.append(frame)
        self.stack.append(fn['id'])
        line = self.curline
        try:
            self.exec(body_of(fn))
            v = None
        except CppReturn as r:
            v = r.value
        finally:
            self.frames.pop()
            self.stack.pop()
        if keep:
            self.w.check_frame(self, keep)
        self.curline = line
        rt = fn['type'].get('qualType', '')
        rett = rt.split('(')[0].strip()
        if isinstance(v, Ref) and not rett.endswith('&') and not rett.endswith('*') \
                and not norm_type(rett)[3] and rett != 'auto':
            v = self.load(v)
        return v

    def call_closure(self, c, args):
        if isinstance(c, FnPtr):
            fn = self.prog.resolve(c.tu, c.node['id'])
            if fn is None:
                raise Unsupported('function pointer')
            k = self.w.contract_for(self, fn, fn.get('_q'), None)
            if k is not None:
                self.contracted.add(fn.get('_q'))
                return k(self, None, args, None)
            return self.inline(fn, None, args, None)
        if callable(c) and not isinstance(c, Closure):
            return c(self, args)
        if not isinstance(c, Closure):
            raise Unsupported('call of %r' % (c,))
        fn = c.node
        if self.stack.count(fn.get('id')) >= 2:
            raise Unsupported('recursion through a lambda')
        frame = dict(c.captures)
        frame['this'] = c.this
        for p, a in zip(self.params(fn), args):
            self.bind(frame, p, a)
        self.frames.append(frame)
        self.stack.append(fn.get('id'))
        try:
            self.exec(body_of(fn))
            v = None
        except CppReturn as r:
            v = r.value
        finally:
            self.frames.pop()
            self.stack.pop()
        rett = fn['type'].get('qualType', '').split('(')[0].strip()
        if isinstance(v, Ref) and not rett.endswith('&') and not rett.endswith('*'):
            v = self.load(v)
        return v

    def iter_eq(self, x, y):
        """Iterator comparison; at least one side must be an end iterator."""
        rx, ry = self.alloc(x), self.alloc(y)
        x, y = self.resolve_iter(rx), self.resolve_iter(ry)
        if x.state == 'end' or y.state == 'end':
            return x.state == y.state
        return self.branch(x.cur == y.cur)

    # -- construction --------------------------------------------------------
    def e_CXXConstructExpr(self, n):
        t = qt(n)
        args = n.get('inner', ())
        base, targs, is_ref, is_ptr, full = norm_type(t)
        if self.w.opaque_type(base):
            return Opaque(base)
        ct = n.get('ctorType', {}).get('qualType', '')
        if len(args) == 1:
            m = re.match(r'^void \((.*)\)(?: noexcept.*)?$', ct)
            if m:
                pt = norm_type(m.group(1))
                lam = t.startswith('(lambda') or '(lambda' in t
                if pt[2] and (pt[0] == base or lam) and len(split_args(m.group(1))) == 1:
                    # copy / move construction
                    r = self.w.copy_construct(self, n, base, ct, args)
                    if r is not None:
                        return r
                    v = self.ev(args[0])
                    if isinstance(v, Ref):
                        w = self.load(v)
                        if v.moved and m.group(1).strip().endswith('&&'):
                            try:
                                self.store(v, self.havoc_value(w, 'moved'))
                            except Unsupported:
                                pass
                        return w
                    return v
                if pt[0] == 'function' or base == 'function':
                    v = self.ev(args[0])
                    return self.load(v) if isinstance(v, Ref) else v
        return self.w.construct(self, n, t, args, ct)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, n):
        init = [c for c in n.get('inner', ()) if c['kind'] in (
            'CXXConstructExpr', 'ExprWithCleanups', 'InitListExpr')]
        if not init:
            raise Unsupported('new without constructor')
        return self.w.new_object(self, n, init[0])

    def e_CXXDeleteExpr(self, n):
        self.w.delete_object(self, self.rv(self._in(n)), n)

    def e_CXXInheritedCtorInitExpr(self, n):
        raise Unsupported('inherited constructor')

    def e_ArraySubscriptExpr(self, n):
        raise Unsupported('array subscript')

    def construct_record(self, rec, ctor, args, argn):
        """Runs a real constructor of a record type; returns the Obj."""
        this = self.alloc(Obj(rec.get('_q'), {}))
        self.run_ctor(rec, ctor, this, args)
        return self.load(this)

    def run_ctor(self, rec, ctor, this, args):
        frame = {'this': this}
        for p, a in zip(self.params(ctor), args):
            self.bind(frame, p, a)
        self.frames.append(frame)
        self.stack.append(ctor['id'])
        try:
            inited = set()
            for c in ctor.get('inner', ()):
                if c['kind'] != 'CXXCtorInitializer':
                    continue
                if 'baseInit' in c:
                    self.w.base_init(self, rec, c, this)
                elif 'anyInit' in c:
                    f = c['anyInit']
                    nm = f.get('name')
                    sub = c['inner'][0]
                    ft = f.get('type', {})
                    fts = ft.get('desugaredQualType') or ft.get('qualType', '')
                    if sub['kind'] == 'CXXDefaultInitExpr' and not sub.get('inner'):
                        fd = [x for x in rec.get('inner', ()) if x['kind'] == 'FieldDecl' and
                              x.get('name') == nm and x.get('inner')]
                        if fd:
                            sub = fd[0]['inner'][-1]
                    v = self.field_init(fts, sub)
                    o = self.load(this)
                    o = o.set(nm, v)
                    if fts.rstrip().endswith('&'):
                        o = o.set('&' + nm, True)
                    self.mem_store_noeffect(this, o)
                    inited.add(nm)
                elif 'delegatingInit' in c:
                    v = self.rv(c['inner'][0])
                    self.mem_store_noeffect(this, v)
            b = body_of(ctor)
            if b is not None:
                try:
                    self.exec(b)
                except CppReturn:
                    pass
        finally:
            self.frames.pop()
            self.stack.pop()

    def mem_store_noeffect(self, r, v):
        self.store(r, v)

    def field_init(self, fts, sub):
        if sub['kind'] == 'CXXDefaultInitExpr' and not sub.get('inner'):
            raise Unsupported('default member initialiser')
        v = self.ev(sub)
        if fts.rstrip().endswith('&'):
            return v if isinstance(v, Ref) else self.alloc(v)
        if isinstance(v, Ref) and sub.get('valueCategory') in ('lvalue', 'xvalue') and \
                not norm_type(fts)[3]:
            return self.load(v)
        return v
