#!/usr/bin/env python3
"""plant.py ID [check]: confirms a seeded bug (patch.diff, demo.cc, meta.json) in /repo.

Development tool: applies the patch to /repo, builds, tests, runs the demo,
optionally runs the property's check, and undoes the patch."""
import json, os, subprocess, sys, shutil
V = '/verif/seeded/'
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build_test():
    b = sh('bash /opt/vp/build.sh')
    t = sh('bash /opt/vp/test.sh /tmp/plant_out.json')
    o = json.load(open('/tmp/plant_out.json'))
    ok = set(o['passed']) >= set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if isinstance(json.load(open('/opt/vp/BASELINE.json')), dict) and 'stable' in json.load(open('/opt/vp/BASELINE.json')) else BL)
    return b.returncode, ok, t.stdout.splitlines()[-2:]
bl = json.load(open('/opt/vp/BASELINE.json'))
BL = bl if isinstance(bl, list) else next(v for v in bl.values() if isinstance(v, list))
def main(i, check):
    d = V + i
    if not os.path.exists(d + '/demo.sh'):
        shutil.copy('/verif/tools/demo_template.sh', d + '/demo.sh')
    prop = json.load(open(d + '/meta.json'))['property']
    assert not sh('git -C /repo status --short').stdout.strip(), 'repo dirty'
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode:
        print(i, 'PATCH DOES NOT APPLY', a.stderr); return
    try:
        bt = build_test()
        demo = sh('bash %s/demo.sh' % d, cwd='/repo')
        print(i, 'patched: build', bt[0], 'tests ok', bt[1], bt[2], 'demo', demo.returncode, demo.stdout[-200:], demo.stderr[-300:])
        if check:
            c = sh('cd /verif && python3-vt check.py %s' % prop)
            print(i, 'CHECK', c.returncode, '\n   '.join(c.stdout.splitlines()[-6:])[:1500], c.stderr[-300:])
    finally:
        sh('git -C /repo checkout -- .')
        bt = build_test()
    demo = sh('bash %s/demo.sh' % d, cwd='/repo')
    print(i, 'clean: tests ok', bt[1], 'demo', demo.returncode, demo.stdout[-200:])
for i in [x for x in sys.argv[1:] if x != 'check']:
    main(i, 'check' in sys.argv)
