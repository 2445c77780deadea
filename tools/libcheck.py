"""Cross-check of the analyser's language and library models (development aid, not a check).

  /opt/venv/bin/python tools/libcheck.py SNIPPETS.py

SNIPPETS.py: one function per snippet (t_*), no arguments.  Each is run for real here and evaluated by the analyser; results
(values, shapes, dtypes, types of exceptions) are compared.  No check uses this."""
import ast, importlib.util, math, os, random, shutil, subprocess, sys, warnings
from fractions import Fraction
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)
warnings.simplefilter('ignore')
import numpy as np
from sa.world import World
from sa.values import *
from sa import witness as wit, terms as tm, npmodel as nm
src = sys.argv[1]
d = '/tmp/libcheck'
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d + '/safe_autonomy_dynamics')
open(d + '/safe_autonomy_dynamics/__init__.py', 'w').close()
shutil.copy(src, d + '/safe_autonomy_dynamics/snip.py')
spec = importlib.util.spec_from_file_location('snip', src)
real = importlib.util.module_from_spec(spec)
sys.modules["snip"] = real
spec.loader.exec_module(real)
w = World(d)
print('problems', w.problems)
names = [n for n in vars(real) if n.startswith('t_')]
val = wit.Val(random.Random(1))


def conv(v):
    it = w.it
    v = it.res(v)
    if v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, VBool):
        return bool(val.cond(v.c))
    if isinstance(v, VNum):
        x = val.term(v.t) if not tm.has_nan(v.t) else math.nan
        return x
    if isinstance(v, VArr):
        cells = it.cells(v)
        out = []
        for c in cells:
            t = nm.as_term(c)
            out.append(math.nan if tm.has_nan(t) else float(val.term(t)))
        return ('arr', tuple(v.shape), str(v.dt), out)
    if isinstance(v, VTuple):
        return ('tuple', [conv(x) for x in v.items])
    if isinstance(v, VRef):
        o = it.deref(v)
        if isinstance(o, HList):
            return ('list', [conv(x) for x in it.iterate(v)])
        if isinstance(o, HDict):
            return ('dict', [(conv(k), conv(x)) for k, x in o.d.values()])
    return ('?', type(v).__name__)


def rconv(v):
    if type(v).__name__ == 'matrix':
        v = np.asarray(v)
    if type(v).__name__ == 'ArrayImpl':
        v = np.asarray(v)
        v = v.astype('float64') if v.dtype == np.float32 else v
        if v.ndim == 0:
            v = v[()]
    if v is None or isinstance(v, (str, bytes, bool)):
        return v
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, (int, float, np.number)):
        return float(v)
    if isinstance(v, np.ndarray):
        return ('arr', v.shape, str(v.dtype), [float(x) for x in v.reshape(-1)])
    if isinstance(v, tuple):
        return ('tuple', [rconv(x) for x in v])
    if isinstance(v, (list, set, range)):
        return ('list', [rconv(x) for x in v])
    if isinstance(v, dict):
        return ('dict', [(rconv(k), rconv(x)) for k, x in v.items()])
    return ('?', type(v).__name__)


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or isinstance(a, str):
        return a == b
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        a, b = float(a), float(b)
        return a == b or abs(a - b) <= 1e-6 * max(1, abs(a), abs(b)) or (math.isnan(a) and math.isnan(b))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


bad = unk = ok = 0
for n in names:
    try:
        r = rconv(getattr(real, n)())
    except Exception as e:
        r = ('raises', type(e).__name__)
    w.fresh()
    try:
        out = w.call(w.get('snip.' + n))
        if out.state is None:
            g = ('raises', out.raises[0][2].name)
        else:
            w.it.st = out.state
            g = conv(out.value)
    except Exception as e:
        g = None
        unk += 1
        print('UNKNOWN', n, type(e).__name__, str(getattr(e, 'msg', e))[:110])
        if os.environ.get('SA_DEBUG'):
            import traceback; traceback.print_exc()
        continue
    if same(r, g):
        ok += 1
    else:
        bad += 1
        print('DIFF', n, '\n   real', str(r)[:300], '\n   anal', str(g)[:300])
print(ok, 'agree', bad, 'differ', unk, 'not modelled')
