"""Refactoring bench (development aid, not a check).

  python3 tools/refac.py DEFS.py [name ...]

DEFS.py defines R = {name: (file, [(old, new), ...]) or [(file, [...]), ...]}: edits that keep the behaviour.  Each is made
in a scratch copy, the stable tests are run there, then every rule; anything that is not discharged is printed."""
import os, shutil, subprocess, sys, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, JAX_PLATFORMS='cpu', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
ns = {}
exec(open(sys.argv[1]).read(), ns)
sys.path.insert(0, HERE)
from sa.spec.registry import RULES
for name, e in ns['R'].items():
    if sys.argv[2:] and name not in sys.argv[2:]:
        continue
    d = '/tmp/refac/' + name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'docs'))
    if isinstance(e, tuple):
        e = [e]
    bad = False
    for f, subs in e:
        p = f'{d}/safe_autonomy_dynamics/{f}'
        s = open(p).read()
        for o, n in subs:
            if o not in s:
                print(name, 'PATTERN NOT FOUND', f, repr(o[:80]))
                bad = True
            s = s.replace(o, n)
        open(p, 'w').write(s)
    if bad:
        continue
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'test', '-q', '--continue-on-collection-errors', '-p', 'no:cacheprovider'], cwd=d,
                       env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True)
    print('==', name, 'tests:', r.stdout.strip().splitlines()[-1:], [l for l in r.stdout.splitlines() if l.startswith('FAILED')][:5], flush=True)
    ps = []
    ids = ns.get('IDS') or list(RULES)
    import concurrent.futures as cf
    def go(i):
        return i, subprocess.run(['python3', HERE + '/tools/rule.py', i, d], capture_output=True, text=True, env=ENV).stdout
    with cf.ThreadPoolExecutor(7) as ex:
        for i, out in ex.map(go, ids):
            seen = {}
            for l in out.splitlines():
                if re.match(r'(violated|undecided|BROKEN|Traceback)', l) and 'sixdof/ang_acc_limit/array' not in l:
                    key = re.sub(r'^(\w+) \S+ [\d.]+', r'\1', l)[:160]
                    seen.setdefault(key, []).append(l)
            for key, ls in list(seen.items())[:4]:
                print('  ', i, len(ls), ls[0][:420])
            if not re.search(r"'discharged': \d+", out):
                print('  ', i, 'NO RESULT', out[-300:])
    shutil.rmtree(d, ignore_errors=True)
