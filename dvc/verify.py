"""Verification of functions against contracts; discharge of obligations."""
import signal
import subprocess
import time
import traceback

import z3

from .interp import (Interp, Unsupported, Infeasible, CppThrow, Ref, Obj, Cont, norm_type, qt)
from .frontend import body_of


class FnResult:
    def __init__(self, name):
        self.name = name
        self.status = 'proved'        # proved | failed | unknown | unsupported
        self.obligations = []         # (name, where, status, backend, time)
        self.reason = ''
        self.solver_time = 0.0
        self.inlined = set()
        self.contracted = set()
        self.loops = []
        self.paths = 0
        self.file = ''

    def counts(self):
        n = len(self.obligations)
        d = sum(1 for o in self.obligations if o[2] == 'proved')
        return n, d

    def to_dict(self):
        return dict(self.__dict__, inlined=sorted(x for x in self.inlined if x),
                    contracted=sorted(x for x in self.contracted if x))


def find_fn(prog, q, sig=None):
    c = prog.find(q, sig)
    if not c:
        raise Unsupported('function %s %s not found' % (q, sig or ''))
    return c[0]


class Verifier:
    """Runs one function symbolically and discharges its obligations."""

    def __init__(self, prog, world, timeout=10000):
        self.prog, self.w, self.timeout = prog, world, timeout

    STRONG_LIMIT = 150      # seconds for the second attempt

    def run(self, name, body, **kw):
        """One attempt; a second one, with more instantiation, if it fails."""
        res = self.attempt(name, body, **kw)
        if res.status not in ('failed', 'unknown'):
            return res

        def late(*_a):
            raise TimeoutError()
        old = signal.signal(signal.SIGALRM, late)
        signal.alarm(self.STRONG_LIMIT)
        try:
            r2 = self.attempt(name, body, strong=True, **kw)
        except TimeoutError:
            return res
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        r2.wall += res.wall
        r2.solver_time += res.solver_time
        return r2 if r2.status == 'proved' else res

    def attempt(self, name, body, allow_throw=False, on_throw=None, strong=False):
        """body(I) executes the function under verification and obliges its post."""
        res = FnResult(name)
        t0 = time.time()
        I = Interp(self.prog, self.w)
        I.strong = strong
        I.curfunc = name
        vacuous = False
        try:
            def one():
                body(I)
                return None
            paths = I.explore(one)
            res.paths = len(paths)
            for out, payload, st in paths:
                if out == 'throw' and not allow_throw:
                    I.restore(st)
                    I.oblige(z3.BoolVal(False), 'no exception escapes: %s' % (payload.what,),
                             (payload.node or {}).get('_line'))
            live = False
            for out, payload, st in paths:
                if I.check(st[1], 400) != z3.unsat:
                    live = True
                    break
            vacuous = bool(paths) and not live and not self.w.allow_empty
            if not paths and not I.obls and not self.w.allow_empty:
                res.status, res.reason = 'unsupported', 'no feasible path (vacuous)'
        except Unsupported as e:
            res.status, res.reason = 'unsupported', '%s (at %s)' % (e, I.curline)
        except RecursionError as e:
            res.status, res.reason = 'unsupported', 'recursion limit'
        except z3.Z3Exception as e:
            res.status, res.reason = 'unsupported', 'solver interface: %s' % e
        res.inlined = I.inlined
        res.contracted = I.contracted
        res.loops = getattr(I, 'loop_report', [])
        self.I = I
        if res.status == 'proved':
            self.discharge(I, res)
        # an obligation that fails is assumed afterwards: that is not vacuity
        if res.status == 'proved' and vacuous:
            res.status, res.reason = 'unsupported', 'every path is contradictory (vacuous)'
        res.solver_time = I.solver_time
        res.wall = time.time() - t0
        return res

    def discharge(self, I, res):
        seen = {}
        bad = unk = None
        self.rescues = 4
        self.failed = []
        for o in I.obls:
            key = (o.name, o.goal.get_id(), tuple(sorted({p.get_id() for p in o.pc if z3.is_expr(p)})))
            if key in seen:
                continue
            seen[key] = o
            if o.status != 'proved':
                self.discharge_one(I, o)
            res.obligations.append((o.name, str(o.where), o.status, o.backend, round(o.time, 3)))
            if o.status == 'failed':
                self.failed.append(o)
                bad = bad or o
            elif o.status != 'proved':
                unk = unk or o
        if bad is not None:
            res.status = 'failed'
            res.reason = 'obligation not provable: %s (at %s) [%s]' % (bad.name, bad.where, bad.detail)
        elif unk is not None:
            res.status = 'unknown'
            res.reason = 'obligation undecided: %s (at %s) [%s]' % (unk.name, unk.where, unk.detail)
        if not res.obligations and res.status == 'proved' and not self.w.allow_empty:
            res.status, res.reason = 'unsupported', 'no obligation generated'

    def cvc5(self, o):
        """Second back end, for what z3 leaves undecided."""
        s = z3.Solver()
        for _, a in self.w.th.axioms:
            s.add(a)
        for p in o.pc:
            s.add(p)
        s.add(z3.Not(o.goal))
        try:
            r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % self.timeout, '-'],
                               input='(set-logic ALL)\n' + s.to_smt2(), text=True,
                               capture_output=True, timeout=self.timeout / 1000 + 20)
            return r.stdout.strip().startswith('unsat')
        except Exception:
            return False

    def discharge_one(self, I, o):
        t = time.time()
        g = z3.simplify(o.goal)
        if z3.is_true(g):
            o.status, o.backend = 'proved', 'simplifier'
            return
        r = I.check(list(o.pc) + [z3.Not(o.goal)], self.timeout)
        o.backend = 'z3'
        if r == z3.unknown and I.gave_up:
            # another strategy before giving up
            s = z3.Solver()
            s.set('smt.random_seed', 7)
            s.set('auto_config', False)
            s.set('smt.mbqi', False)
            s.set('smt.arith.solver', 2)
            s.set('timeout', self.timeout)
            for _, a in self.w.th.axioms:
                s.add(a)
            for p in o.pc:
                s.add(p)
            s.add(z3.Not(o.goal))
            t1 = time.time()
            r = s.check()
            why = s.reason_unknown() if r == z3.unknown else ''
            if 'incomplete' in why:
                I.last_reason, I.gave_up = why, False
            I.solver_time += time.time() - t1
        if r == z3.unknown and I.gave_up:
            if self.cvc5(o):
                r, o.backend = z3.unsat, 'cvc5'
        if r == z3.unknown and not I.gave_up and self.rescues > 0:
            # saturated: the instances that are found depend on the strategy
            for opts in (('smt.relevancy', 0), ('smt.random_seed', 3),
                         ('smt.random_seed', 11)):
                s = z3.Solver()
                s.set('auto_config', False)
                s.set('smt.mbqi', False)
                s.set('smt.arith.nl', bool(self.w.nonlinear))
                s.set('timeout', 4000)
                s.set(*opts)
                for _, a in self.w.th.axioms:
                    s.add(a)
                for p in o.pc:
                    s.add(p)
                s.add(z3.Not(o.goal))
                t1 = time.time()
                r1 = s.check()
                I.solver_time += time.time() - t1
                if r1 == z3.unsat:
                    r, o.backend = r1, 'z3 (%s=%s)' % opts
                    break
            else:
                self.rescues -= 1
        o.time = time.time() - t
        if r == z3.unsat:
            o.status = 'proved'
        elif r == z3.sat or 'incomplete' in I.last_reason:
            o.status, o.detail = 'failed', str(r) + ' ' + I.last_reason
        else:
            o.status, o.detail = 'unknown', I.last_reason
