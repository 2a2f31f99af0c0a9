#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]

Decides one property on the current tree of /repo:

  1. every function under contract for the property is translated from the
     current source (clang AST) and its obligations are discharged by the
     solver (dvc/, contracts in dvc/checks/<property>.py);
  2. the real code is compiled from the current source and executed against
     the same specification in search of a failing input (harness/); this is
     what replays a failed obligation, and what stands in (bounded) for
     functions that are not under contract.

Exit 0: held.  Exit 1: VIOLATION line.  Anything else: error of the check.
"""
import glob
import importlib
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('DVC_REPO', '/repo')
SYM = 'third_party/com_github_robotlocomotion_drake/dreal/symbolic/'
FLAGS = ['-std=c++14', '-O1', '-fPIC', '-fno-strict-aliasing', '-w',
         '-iquote', REPO, '-iquote', REPO + '/_build/gen',
         '-isystem', REPO + '/third_party/com_github_robotlocomotion_drake/.',
         '-DFMT_DEPRECATED_OSTREAM=1', '-DFMT_HEADER_ONLY=1',
         '-DFMT_NO_FMT_STRING_ALIAS=1', '-DSPDLOG_FMT_EXTERNAL']
BASE = [SYM + 'symbolic_%s.cc' % x for x in
        ('formula', 'formula_cell', 'expression', 'expression_cell', 'variable',
         'variables', 'environment')] + ['dreal/symbolic/symbolic.cc',
                                         'dreal/symbolic/prefix_printer.cc']
UTIL = ['dreal/util/%s.cc' % x for x in
        ('nnfizer', 'naive_cnfizer', 'tseitin_cnfizer', 'predicate_abstractor',
         'if_then_else_eliminator', 'logging', 'math', 'exception', 'timer',
         'stat', 'profiler')]
SMT2 = ['dreal/smt2/%s.cc' % x for x in ('sort', 'term', 'logic')]
SOLVER = ['dreal/util/box.cc', 'dreal/util/precision_guard.cc',
          'dreal/solver/filter_assertion.cc',
          'dreal/solver/brancher.cc', 'dreal/util/ibex_converter.cc']
CONTRACT = ['dreal/contractor/%s.cc' % x for x in
            ('contractor', 'contractor_cell', 'contractor_fixpoint', 'contractor_ibex_fwdbwd',
             'contractor_ibex_fwdbwd_mt', 'contractor_ibex_polytope',
             'contractor_ibex_polytope_mt', 'contractor_id', 'contractor_integer',
             'contractor_join', 'contractor_seq', 'contractor_status',
             'contractor_worklist_fixpoint', 'generic_contractor_generator')] + [
    'dreal/solver/config.cc', 'dreal/util/interrupt.cc',
    'third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.cc']
BINARIES = {
    'logic': (BASE + UTIL, ['P01', 'P02', 'P03', 'P04', 'P05', 'P16', 'P17', 'P23']),
    'symbolic': (BASE + UTIL, ['P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12',
                               'P13', 'P14', 'P15', 'P18']),
    'misc': (BASE + UTIL + SMT2, ['P19', 'P20', 'P21', 'P22']),
    'solver': (BASE + UTIL + SOLVER, ['P26', 'P27', 'P42', 'P43']),
    'contract': (BASE + UTIL + SOLVER + CONTRACT, ['P25', 'P41']),
}
NPROC = 8
# The solver sources need IBEX (declarations only) and two header libraries.
IBEX = ['-isystem', REPO + '/third_party/com_github_pinam45_dynamic_bitset',
        '-isystem', REPO + '/third_party/com_github_tartanllama_optional',
        '-isystem', REPO + '/third_party/com_github_progschj_threadpool',
        '-I', HERE + '/harness/ibex', '-DNDEBUG']


def extra_flags(mod):
    return IBEX if getattr(mod, 'EXTRA', None) == 'ibex' else []



def binary_of(prop):
    for b, (src, props) in BINARIES.items():
        if prop in props:
            return b, src
    return None, []


class Harness(threading.Thread):
    """Compiles the property's harness from the current sources."""

    def __init__(self, prop, scratch):
        super().__init__()
        self.prop, self.dir = prop, scratch
        self.error = None
        self.exe = os.path.join(scratch, 'harness')

    def run(self):
        try:
            b, src = binary_of(self.prop)
            more = IBEX if b in ('solver', 'contract') else []
            jobs = [(os.path.join(REPO, s), os.path.join(self.dir, '%d.o' % i), more)
                    for i, s in enumerate(src) if os.path.exists(os.path.join(REPO, s))]
            for h in (b, 'driver'):
                jobs.append((HERE + '/harness/%s.cc' % h,
                             os.path.join(self.dir, 'h_%s.o' % h), ['-I', HERE + '/harness'] + more))
            jobs.sort(key=lambda j: -os.path.getsize(j[0]))
            todo = list(jobs)
            lock = threading.Lock()
            errs = []

            def worker():
                while True:
                    with lock:
                        if not todo or errs:
                            return
                        s, o, x = todo.pop(0)
                    r = subprocess.run(['g++'] + FLAGS + x + ['-c', s, '-o', o],
                                       capture_output=True, text=True)
                    if r.returncode:
                        errs.append('%s: %s' % (s, r.stderr[-1500:]))
            ts = [threading.Thread(target=worker) for _ in range(NPROC)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errs:
                raise RuntimeError(errs[0])
            r = subprocess.run(['g++', '-o', self.exe] + [o for _, o, _ in jobs] +
                               ['-lfmt', '-lpthread'], capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError(r.stderr[-1500:])
        except Exception as e:  # reported by the caller
            self.error = str(e)

    def search(self, seeds, seconds, known=''):
        """Runs the harness once per seed; returns (failure text or None, stats)."""
        ps = []
        for s in seeds:
            cmd = [self.exe, self.prop, '--seed', str(s), '--seconds', str(seconds)]
            if known:
                cmd += ['--known', known]
            ps.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE,
                                           stderr=subprocess.DEVNULL, text=True,
                                           errors='replace', cwd=self.dir)))
        fail, stats = None, dict(iterations=0, checks=0, skipped=0, known=0, seeds=[])
        for s, p in ps:
            try:
                out, _ = p.communicate(timeout=seconds + 200)
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
            stats['seeds'].append(s)
            m = re.search(r'OK .*iterations=(\d+) skipped=(\d+) checks=(\d+)', out)
            if m:
                stats['iterations'] += int(m.group(1))
                stats['skipped'] += int(m.group(2))
                stats['checks'] += int(m.group(3))
            m = re.search(r'KNOWN .*hits=(\d+)', out)
            if m:
                stats['known'] += int(m.group(1))
            if 'FAIL property=' in out and fail is None:
                fail = out
        return fail, stats


def run_tasks(prop):
    """Proves the tasks of the property, in parallel. -> (results, meta)"""
    mod = importlib.import_module('dvc.checks.' + prop.lower())
    if hasattr(mod, 'run'):
        return mod.run(REPO)
    from dvc.frontend import Program
    from dvc.verify import Verifier
    groups = mod.GROUPS if hasattr(mod, 'GROUPS') else [mod]
    out = []
    meta = dict(sources=[], trusted=[], assumptions=[])
    programs = {}
    for g in groups:
        srcs = [os.path.join(REPO, s) for s in g.SOURCES]
        try:
            x = extra_flags(g) or extra_flags(mod)
            key = tuple(srcs + x)
            if key not in programs:
                programs[key] = Program(srcs, x)
            P = programs[key]
            w = g.world(P)
            ts = g.tasks(P, w)
        except Exception as e:
            out.append(dict(name=prop + ': translation of ' + ', '.join(g.SOURCES),
                            status='unsupported', reason='%s: %s' % (type(e).__name__, e),
                            obligations=[], solver_time=0, inlined=[], contracted=[], loops=[]))
            continue
        meta['sources'] += [s for s in g.SOURCES if s not in meta['sources']]
        meta['trusted'] += [t for t in getattr(g, 'TRUSTED', []) if t not in meta['trusted']]
        meta['assumptions'] += [t for t in getattr(g, 'ASSUMPTIONS', [])
                                if t not in meta['assumptions']]
        global _job

        def _job(i):
            nm, body = ts[i][0], ts[i][1]
            kw = ts[i][2] if len(ts[i]) > 2 else {}
            try:
                r = Verifier(P, w, timeout=10000).run(nm, body, **kw)
                return r.to_dict()
            except Exception as e:
                return dict(name=nm, status='unsupported', reason='%s: %s at %s' % (
                    type(e).__name__, e, traceback.format_exc().splitlines()[-3].strip()),
                    obligations=[], solver_time=0, inlined=[], contracted=[], loops=[])
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(NPROC, max(1, len(ts)))) as pool:
            rs = [(t, pool.apply_async(_job, (i,))) for i, t in enumerate(ts)]
            for t, r in rs:
                try:
                    out.append(r.get(timeout=TASK_LIMIT))
                except Exception as e:
                    out.append(dict(name=t[0], status='unknown', reason='time limit: %s' % type(e).__name__,
                                    obligations=[], solver_time=0, inlined=[], contracted=[], loops=[]))
            pool.terminate()
    return out, meta


TASK_LIMIT = 420


def known_names(prop):
    names, lines = [], []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) (\S+) (.*)', l)
            if m and m.group(1) == prop:
                names.append(m.group(2))
                lines.append('KNOWN-FINDING: property=%s %s' % (prop, m.group(3).strip()))
    except FileNotFoundError:
        pass
    return ','.join(names), lines


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='dreal_verif_')
    try:
        return check(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(prop, h, path):
    txt = open(path).read()
    m = re.search(r'--seed (\d+) --only (\d+)', txt)
    if not m:
        print('this replay file names a failed obligation; run the check itself')
        return 2
    r = subprocess.run([h.exe, prop, '--seed', m.group(1), '--only', m.group(2)])
    return 1 if r.returncode else 0


def check(prop, tier, seed, t0, scratch):
    h = Harness(prop, scratch)
    h.start()
    if '--replay' in sys.argv:
        h.join()
        return replay(prop, h, sys.argv[sys.argv.index('--replay') + 1])
    known, known_lines = known_names(prop)
    for l in known_lines:
        print(l)
    results, meta = [], dict(sources=[], trusted=[], assumptions=[])
    if os.path.exists(HERE + '/dvc/checks/%s.py' % prop.lower()):
        results, meta = run_tasks(prop)
    h.join()
    t_proof = time.time() - t0
    if h.error:
        print('harness does not build: ' + h.error, file=sys.stderr)
        return 2
    failed = [r for r in results if r['status'] == 'failed']
    seconds = 25 if tier == 'quick' else 300
    fail, stats = h.search([seed * 100 + k for k in range(4 if tier == 'quick' else 8)],
                           seconds, known)
    if fail is None and failed:
        # An obligation failed: look longer for an input that shows it.
        f2, s2 = h.search([seed * 100 + 50 + k for k in range(NPROC)],
                          90 if tier == 'quick' else 300, known)
        fail = f2
        for k in ('iterations', 'checks', 'skipped', 'known'):
            stats[k] += s2[k]
    violations = 0
    code = 0
    os.makedirs(HERE + '/replays', exist_ok=True)
    for f in glob.glob(HERE + '/replays/%s-*' % prop):
        os.unlink(f)
    obl_text = ''.join('failed obligation in %s: %s\n' % (r['name'], r['reason']) +
                       ''.join('    %s at %s: %s (%s)\n' % tuple(o[:4]) for o in r['obligations']
                               if o[2] == 'failed') for r in failed)
    if fail is not None:
        path = HERE + '/replays/%s-input.txt' % prop
        with open(path, 'w') as f:
            f.write(fail + '\n' + obl_text +
                    '\nre-run: python3-vt check.py %s --replay %s\n' % (prop, path))
        print(fail.strip())
        print(obl_text, end='')
        print('VIOLATION property=%s replay=%s' % (prop, path))
        violations, code = 1, 1
    elif failed:
        path = HERE + '/replays/%s-obligation.txt' % prop
        with open(path, 'w') as f:
            f.write(obl_text + '\n' + json.dumps(failed, indent=1, default=str))
        print(obl_text, end='')
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        violations, code = 1, 1
    write_evidence(prop, tier, seed, t0, t_proof, results, meta, stats, violations)
    n = sum(len(r['obligations']) for r in results)
    d = sum(1 for r in results for o in r['obligations'] if o[2] == 'proved')
    print('%s: %d/%d functions proved, %d/%d obligations discharged, %d executions of the '
          'real code, %.0f s' % (prop, sum(r['status'] == 'proved' for r in results),
                                 len(results), d, n, stats['iterations'], time.time() - t0))
    for r in results:
        if r['status'] not in ('proved', 'failed'):
            print('  not proved (%s): %s: %s' % (r['status'], r['name'], r['reason'][:300]))
    return code


def write_evidence(prop, tier, seed, t0, t_proof, results, meta, stats, violations):
    backends = {}
    for r in results:
        for o in r['obligations']:
            if o[2] == 'proved':
                backends[o[3]] = backends.get(o[3], 0) + 1
    obligations = sum(len(r['obligations']) for r in results)
    discharged = sum(backends.values())
    contracted = sorted({c for r in results for c in r['contracted']})
    assumptions = list(meta['assumptions'])
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd='python3-vt check.py %s' % prop,
        trusted_base=meta['trusted'] + COMMON_TRUSTED,
        functions_under_contract=[dict(
            name=r['name'], status=r['status'], obligations=len(r['obligations']),
            discharged=sum(1 for o in r['obligations'] if o[2] == 'proved'),
            paths=r.get('paths', 0), solver_s=round(r.get('solver_time', 0), 2),
            inlined=r['inlined'], callees_by_contract=r['contracted'], loops=[str(x) for x in r['loops']],
            reason=r.get('reason', '')) for r in results],
        not_proved=[dict(name=r['name'], status=r['status'], reason=r.get('reason', ''))
                    for r in results if r['status'] != 'proved'],
        back_ends=backends, solver_s=round(sum(r.get('solver_time', 0) for r in results), 2),
        callees_by_contract=contracted, sources=meta['sources'],
        bounded=dict(what='executions of the compiled code against the same specification, in '
                     'search of a failing input; not counted as proved',
                     executions=stats['iterations'], comparisons=stats['checks'],
                     seeds=stats['seeds'], known_finding_hits=stats['known']),
        proof_wall_s=round(t_proof, 1))
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed,
              level='proof', coverage=cov, assumptions=assumptions + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 1), violations=violations)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open(HERE + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1, default=str)


COMMON_TRUSTED = [
    'clang 18 (parser and AST dump)', 'dvc (symbolic execution of the AST, /verif/dvc)',
    'z3 (Python bindings of python3-vt)',
    'contracts of the C++ standard library used by the functions (dvc/world.py)']
COMMON_ASSUMPTIONS = [
    'machine arithmetic on double is treated as real arithmetic, and on size_t/int as '
    'mathematical integers, unless a function states otherwise',
    'memory allocation succeeds; no concurrent modification']

if __name__ == '__main__':
    sys.exit(main())
