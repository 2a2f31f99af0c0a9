#!/usr/bin/env python3
"""mkbug.py ID PROP FILE: reads old/new text blocks, needs, what, demo from a spec on stdin (python dict).
Development tool: writes /verif/seeded/ID."""
import sys, os, json, subprocess, ast
spec = eval(sys.stdin.read())
for s in spec if isinstance(spec, list) else [spec]:
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    for f, old, new in s['edits']:
        p = '/repo/' + f
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run('git -C /repo diff', shell=True, capture_output=True, text=True).stdout
    subprocess.run('git -C /repo checkout -- .', shell=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/meta.json', 'w').write(json.dumps(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['what']), indent=1) + '\n')
    open(d + '/demo.cc', 'w').write(s['demo'])
