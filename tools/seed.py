"""Create and confirm a planted bug.  Usage: seed.py SPEC.py ; SPEC defines BUGS = [ dict(id, property, file, edits=[(old,new)], needs, breaks, demo) ]."""
import sys, os, json, subprocess, shutil, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = json.load(open('/opt/vp/BASELINE.json'))
def orig(f):
    r = sh(f'git -C /repo show 37dcbe9:{f}')
    return set(l.strip() for l in r.stdout.splitlines())
bugs = runpy.run_path(sys.argv[1])['BUGS']; only = sys.argv[2:]
for b in bugs:
    if only and b['id'] not in only: continue
    shutil.rmtree(W, ignore_errors=True)
    sh(f'cp -a /repo {W}')
    bad = False
    for ed in b['edits']:
        f, old, new = ed if len(ed) == 3 else (b['file'], *ed)
        p = f'{W}/{f}'; t = open(p).read()
        if t.count(old) != 1: print(b['id'], 'ANCHOR', t.count(old), repr(old)[:60]); bad = True; break
        open(p, 'w').write(t.replace(old, new))
    if bad: continue
    d = sh(f'git -C {W} diff').stdout
    o = {}
    rem = []; cur = None
    for l in d.splitlines():
        if l.startswith('--- a/'): cur = l[6:]; o[cur] = orig(cur)
        elif l.startswith('-') and not l.startswith('---'): rem.append(l[1:].strip() in o[cur])
    S = f'{HERE}/seeded/{b["id"]}'
    os.makedirs(S, exist_ok=True)
    open(f'{S}/patch.diff', 'w').write(d)
    open(f'{S}/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(f'{S}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec "$PY" "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{S}/demo.sh', 0o755)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(f'{S}/meta.json', 'w'), indent=1)
    r0 = sh(f'bash {S}/demo.sh', cwd='/repo'); r1 = sh(f'bash {S}/demo.sh', cwd=W)
    t = sh(f'/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p vp_seed --timeout=300 --ignore=tests/unit/commons/test_rest_client.py tests 2>&1 | tail -3', cwd=W, env=dict(os.environ, PYTHONPATH=W + ':/opt/vp-support', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
    c = sh(f'VERIF_REPO={W} python3 {HERE}/check.py {b["property"]}')
    print(b['id'], 'orig-lines', f'{sum(rem)}/{len(rem)}', 'demo', r0.returncode, r1.returncode, 'tests', t.stdout.strip().splitlines()[-1][:60] if t.stdout else t.stderr[-80:], 'CAUGHT' if c.returncode == 1 else f'missed({c.returncode})')
    if r0.returncode: print(r0.stderr[-400:])
    if c.returncode == 1: print('   ', '\n    '.join([l[:200] for l in c.stdout.splitlines() if l.startswith('  ')][:3]))
shutil.rmtree(W, ignore_errors=True)
