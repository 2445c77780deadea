"""developer tool: build /verif/seeded/<id>/ from a definition file, keeping a change only when it survives the stable tests and its demo fails
usage: seed.py DEFS.py [ids]     DEFS: S = [(id, property, file, [(old, new)...], needs, breaks, demo source)]"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
SH = '''#!/bin/bash
# cwd: /repo
D=$(cd "$(dirname "$0")" && pwd)
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$D/demo.py"
'''


def tests(repo):
    base = json.load(open('/opt/vp/BASELINE.json'))
    p = subprocess.run([PY, '-m', 'pytest', 'test', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors'], cwd=repo, env=dict(ENV, PYTHONPATH=repo), capture_output=True, text=True)
    return p.stdout[-300:]


def one(d, stub):
    sid, pid, reps, needs, breaks, demo = d
    W = f'/tmp/seedwork/{sid}'
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    for f, old, new in reps:
        p = f'{W}/safe_autonomy_dynamics/{f}'
        s = open(p).read()
        if s.count(old) != 1:
            return sid, f'BAD {f}: {s.count(old)} matches of {old[:50]!r}'
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True).stdout
    out = f'{ROOT}/seeded/{sid}'
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.sh', 'w').write(SH)
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo.py', 'w').write(demo.lstrip())
    json.dump({'property': pid, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
    a = subprocess.run([out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run([out + '/demo.sh'], cwd=W, capture_output=True, text=True)
    t = tests(W)
    surv = '175 passed' in t.splitlines()[-1] and 'failed' not in t.splitlines()[-1]
    r = subprocess.run(['python3', ROOT + '/tools/rule.py', pid, W], capture_output=True, text=True, timeout=1200).stdout
    caught = 'violated' in r.splitlines()[-1] if r else None
    new = [l for l in r.splitlines() if l.startswith('violated')]
    ok = a.returncode == 0 and b.returncode != 0 and surv
    shutil.rmtree(W, ignore_errors=True)
    if not ok:
        shutil.rmtree(out, ignore_errors=True)
    return sid, pid, 'OK' if ok else f'REJECT clean={a.returncode} {a.stderr[-200:]} patched={b.returncode} tests={t.splitlines()[-1]}', 'CAUGHT' if caught else 'MISSED', new[0][:160] if new else r[-200:], b.stderr.strip().splitlines()[-1:] 


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    g = {}
    exec(open(sys.argv[1]).read(), g)
    defs = [d for d in g['S'] if len(sys.argv) < 3 or d[0] in sys.argv[2:]]
    with ThreadPoolExecutor(5) as ex:
        for x in ex.map(lambda d: one(d, None), defs):
            print(*x, sep=' | ', flush=True)
