"""Mutation bench (development aid, not a check).

  python3 tools/mut.py BATCH.py [name ...]

BATCH.py defines M = [(name, pid, file, old, new), ...]; `file`, `old`, `new` may be lists for
changes at several sites.  Each mutant is made in a scratch copy under /tmp/mut, the project's tests
are run there, and then the check of `pid` (which prints what it found)."""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, JAX_PLATFORMS='cpu', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
SKIP = os.environ.get('NOTEST')


def one(m):
    name, pid, fs, olds, news = m
    d = '/tmp/mut/m_' + name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'docs'))
    try:
        if isinstance(fs, str):
            fs = [fs]
        if isinstance(olds, str):
            olds, news = [olds], [news]
        if len(fs) == 1:
            fs = fs * len(olds)
        for f, o, n in zip(fs, olds, news):
            p = f'{d}/safe_autonomy_dynamics/{f}'
            s = open(p).read()
            if s.count(o) < 1:
                return name, pid, 'BADMUT', f'{s.count(o)} matches of {o!r}'
            open(p, 'w').write(s.replace(o, n, 1))
        if not SKIP:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'test', '-q', '--continue-on-collection-errors', '-p', 'no:cacheprovider'], cwd=d,
                               env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True)
            if ' 175 passed' not in ' ' + r.stdout.strip().splitlines()[-1]:
                return name, pid, 'killed-by-tests', r.stdout.strip().splitlines()[-1]
        out = []
        for q in pid.split():
            r = subprocess.run([sys.executable, HERE + '/tools/rule.py', q, d], capture_output=True, text=True)
            ls = r.stdout.strip().splitlines() or r.stderr.strip().splitlines()[-3:]
            v = [x for x in ls if x.startswith('violated')]
            out.append((q, 'CAUGHT' if v else 'MISSED', len(v), (v or ls)[0][:230], ls[-1]))
        st = 'CAUGHT' if all(o[1] == 'CAUGHT' for o in out) else 'MISSED'
        return name, pid, st, out
    finally:
        if not os.environ.get('KEEP'):
            shutil.rmtree(d, ignore_errors=True)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    ms = [m for m in g['M'] if len(sys.argv) < 3 or m[0] in sys.argv[2:]]
    with ThreadPoolExecutor(7) as ex:
        for name, pid, st, out in ex.map(one, ms):
            print(f'{name:28} {pid:8} {st}', flush=True)
            print('      ', out if isinstance(out, str) else '\n       '.join(map(str, out)), flush=True)


main()
