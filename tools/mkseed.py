"""Create and try planted bugs.  usage: mkseed.py SPEC.py [ID...]

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)...],
demo=python text, needs, breaks, tests=[...])].  Every change is made in a
scratch worktree of /repo's HEAD, never in /repo itself.
"""
import json
import os
import runpy
import subprocess
import sys

PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True,
                       text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def main():
    spec = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    for s in spec:
        if only and s['id'] not in only:
            continue
        w = f'/tmp/seed_{s["id"]}'
        sh(f'git -C /repo worktree remove --force {w}')
        rc, o = sh(f'git -C /repo worktree add --detach {w} HEAD')
        assert rc == 0, o
        try:
            one(s, w)
        finally:
            sh(f'git -C /repo worktree remove --force {w}')


def one(s, w):
    for f, old, new in s['edits']:
        p = f'{w}/{f}'
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    rc, diff = sh('git diff', cwd=w)
    d = f'/verif/seeded/{s["id"]}'
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(diff)
    demo = s['demo'].strip() + '\n'
    open(f'{d}/demo.py', 'w').write(demo)
    open(f'{d}/demo.sh', 'w').write(
        '#!/bin/bash\nPYTHONPATH="$PWD" exec /opt/venv/bin/python '
        '"$(dirname "$0")/demo.py"\n')
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'],
                   what_it_breaks=s['breaks']),
              open(f'{d}/meta.json', 'w'), indent=1)
    r0, o0 = sh(f'{d}/demo.sh', cwd='/repo')
    r1, o1 = sh(f'{d}/demo.sh', cwd=w)
    print(s['id'], 'demo clean', r0, 'patched', r1, flush=True)
    if r0 != 0:
        print(o0[-1500:])
    if r1 == 0 or 'AssertionError' not in o1:
        print(o1[-800:])
    rc, o = sh(f'{PY} run.py {s["property"]}', cwd='/verif',
               env=dict(SYMX_REPO=w))
    v = [x for x in o.splitlines() if x.startswith('VIOLATION')]
    print(s['id'], 'check rc', rc, v[:1], flush=True)
    if rc != 1:
        print(o[-600:])
    for t in s.get('tests', []):
        rc, o = sh(f'{PY} -m pytest -q -x --no-header -p no:cacheprovider {t}',
                   cwd=w, env=dict(PYTHONPATH=w))
        print(s['id'], 'tests', t, rc, o.strip().splitlines()[-1:],
              flush=True)


main()
