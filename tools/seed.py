#!/usr/bin/env python3
"""Author and validate one planted bug (authoring aid; no check reads it).

seed.py add ID PROPERTY SPEC.py   SPEC defines FILE, PAIRS [(old,new)], DEMO, NEEDS, BREAKS
seed.py check ID...               apply to /repo, run the property's check, undo
"""
import json, os, shutil, subprocess, sys, runpy
V = '/verif'
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 iff the property held on the demonstration
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC PYTHONWARNINGS=ignore
export PYTHONPATH="$PWD:$here/stubs"
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def edit(p, pairs):
    s = open(p, newline='').read()
    crlf = '\r\n' in s
    if crlf:
        s = s.replace('\r\n', '\n')
    for a, b in pairs:
        assert s.count(a) == 1, (p, s.count(a), a)
        s = s.replace(a, b)
    if crlf:
        s = s.replace('\n', '\r\n')
    open(p, 'w', newline='').write(s)


def add(bid, prop, spec):
    ns = runpy.run_path(spec)
    d = os.path.join(V, 'seeded', bid)
    os.makedirs(d, exist_ok=True)
    W = '/tmp/seedwork'
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, symlinks=True)
    sh('git checkout -q -- . && git clean -fdq', cwd=W)
    files = ns.get('FILES') or {ns['FILE']: ns['PAIRS']}
    for f, pairs in files.items():
        edit(os.path.join(W, f), pairs)
    diff = sh('git diff --binary', cwd=W).stdout
    open(os.path.join(d, 'patch.diff'), 'w', newline='').write(
        subprocess.run(['git', 'diff'], cwd=W, stdout=subprocess.PIPE).stdout.decode())
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
    shutil.rmtree(os.path.join(d, 'stubs'), ignore_errors=True)
    shutil.copytree(os.path.join(V, 'stubs'), os.path.join(d, 'stubs'), ignore=shutil.ignore_patterns('__pycache__'))
    json.dump({'property': prop, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    # validate
    demo = os.path.join(d, 'demo.sh')
    a = sh('bash %s' % demo, cwd='/repo')
    b = sh('bash %s' % demo, cwd=W)
    t = sh('cd %s && PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=%s/stubs /opt/venv/bin/python -m pytest -q -p no:cacheprovider -o addopts= nilmtk/tests/test_timeframe.py 2>&1 | grep -E "passed|failed"' % (W, V))
    shutil.rmtree(W, ignore_errors=True)
    print(bid, 'clean rc', a.returncode, '| patched rc', b.returncode, '| tests:', t.stdout.strip())
    if a.returncode != 0:
        print('CLEAN OUTPUT', a.stdout[-1500:])
    if b.returncode == 0:
        print('DEMO DID NOT FAIL', b.stdout[-500:])
    else:
        print('   ', b.stdout.strip().splitlines()[-1][:200])


def check(ids, tier='quick'):
    for bid in ids:
        d = os.path.join(V, 'seeded', bid)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode:
            print(bid, 'PATCH FAILED', r.stdout)
            continue
        try:
            c = sh('./run.py check %s --tier %s' % (prop, tier), cwd=V)
        finally:
            sh('git -C /repo checkout -- .')
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        print(bid, prop, 'CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode,
              c.stdout.strip().splitlines()[-1][:160])


if sys.argv[1] == 'add':
    add(*sys.argv[2:5])
else:
    ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded')))
    check(ids)
