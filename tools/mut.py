"""Try many small changes against the checks.  usage: mut.py SPEC.py [SUBSTR]

SPEC.py defines MUTS = [(property, file, old, new)...]; each is made in a
scratch clone, never in /repo."""
import os
import runpy
import subprocess
import sys
import time

SRC = os.environ.get('MUT_SRC', '/repo')


def main():
    muts = runpy.run_path(sys.argv[1])['MUTS']
    sub = sys.argv[2] if len(sys.argv) > 2 else ''
    w = f'/tmp/mut_{os.getpid()}'
    subprocess.run(['git', 'clone', '-q', SRC, w], check=True)
    missed = []
    try:
        for i, (prop, f, old, new) in enumerate(muts):
            if sub not in f'{prop} {f}':
                continue
            p = f'{w}/mmrazor/{f}'
            t = open(p).read()
            if t.count(old) < 1:
                print('NOT FOUND', prop, f, repr(old), flush=True)
                continue
            open(p, 'w').write(t.replace(old, new, 1))
            s = time.time()
            r = subprocess.run(
                ['/opt/venv/bin/python', 'run.py', prop,
                 '--jobs', os.environ.get('MUT_JOBS', '4')], cwd='/verif',
                env=dict(os.environ, SYMX_REPO=w), capture_output=True,
                text=True)
            out = (r.stdout + r.stderr).splitlines()
            why = [x for x in out if x.startswith('violated')][:1]
            print(f'{prop} rc={r.returncode} {time.time() - s:.0f}s '
                  f'{os.path.basename(f)} {new.strip()[:60]!r} {why}',
                  flush=True)
            if r.returncode != 1:
                missed.append((prop, f, new))
                if r.returncode != 0:
                    print('\n'.join(out[-5:]))
            open(p, 'w').write(t)
    finally:
        subprocess.run(['rm', '-rf', w])
    print('MISSED', len(missed))
    for m in missed:
        print('  ', m[0], m[1], repr(m[2]))


main()
