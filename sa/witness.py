"""Refutation of an identity between extracted terms: a valuation of the free symbols under which the two value
graphs denote different numbers (the certificate that accompanies every reported violation)."""
from __future__ import annotations

import hashlib
import math
import random
from fractions import Fraction

from . import terms as tm
from .terms import _ATOMS, _ATOM_FLAGS, _BOUNDS, _LITS

EPS = 1e-11
EXACT_PI = Fraction(math.pi)       # the number the program calls pi; comparisons against it are exact
TINY = [Fraction(1, 10**k) for k in (3, 5, 7, 9)]
SEED = 1          # VERIF_SEED


class Skip(Exception):
    pass


class Undef(Skip):
    """a function is applied, on the path taken, clearly outside the domain where it has a real value"""


def num(x):
    return float(x) if isinstance(x, Fraction) else x


class Val:
    """valuation of symbols (by atom id); memoised evaluation of terms and conditions"""

    def __init__(self, rng, syms=None, preds=None):
        self.rng = rng
        self.syms = dict(syms or {})
        self.memo = {}
        self.cmemo = {}
        self.preds = preds if preds is not None else {}
        self.names = {}
        self.root = None

    def child(self, over):
        v = Val(self.rng, {**self.syms, **over}, self.preds)
        v.names = self.names
        v.root = self
        v.exact_pi = self.exact_pi
        return v

    def sample(self, a):
        """value of a free symbol: one value per symbol in the whole valuation"""
        if self.root is not None:
            r = self.root.syms.get(a)
            if r is None:
                r = self.root.sample(a)
        else:
            r = self.pick(a)
            self.names[_ATOMS[a][1]] = r
        self.syms[a] = r
        return r

    # ------------------------------------------------------------------ terms
    def poly(self, p):
        exact = Fraction(0)
        fl = 0.0
        inexact = False
        for m, c in p.d.items():
            x = c
            for a, e in m:
                v = self.atom(a)
                if isinstance(v, Fraction) and isinstance(x, Fraction):
                    x = x * v ** e
                else:
                    try:
                        x = num(x) * num(v) ** e
                    except (OverflowError, ZeroDivisionError):
                        raise Skip()
            if isinstance(x, Fraction):
                exact += x
            else:
                inexact = True
                fl += x
        if not inexact:
            return exact
        r = num(exact) + fl
        if abs(r) < 1e-8 and len(p.d) > 1:
            # cancellation: decide it exactly in the values that are only known as floating point numbers
            acc = {}
            for m, c in p.d.items():
                key = []
                for a, e in m:
                    v = self.atom(a)
                    if isinstance(v, Fraction):
                        c = c * v ** e
                    else:
                        key.append((a, e))
                if c:
                    key = tuple(key)
                    acc[key] = acc.get(key, 0) + c
            if not any(acc.values()):
                return Fraction(0)
        return r

    def term(self, t):
        r = self.memo.get(t)
        if r is None:
            n = self.poly(t.num)
            c = t.den.const()
            if c is None:
                d = self.poly(t.den)
                if abs(num(d)) < 1e-9:
                    raise Skip()
                if isinstance(n, Fraction) and isinstance(d, Fraction):
                    r = n / d
                else:
                    r = num(n) / num(d)
            else:
                r = n / c if isinstance(n, Fraction) else n / num(c)
            self.memo[t] = r
        return r

    def pick(self, a):
        """sample a value for a free symbol"""
        fl = _ATOM_FLAGS[a]
        lo, ls, hi, hs = _BOUNDS.get(a, (None, False, None, False))
        r = self.rng
        pos = 'pos' in fl
        nn = 'nonneg' in fl
        isint = 'int' in fl
        if self.zeros and not (lo is not None or hi is not None or pos) and r.random() < self.zeros:
            return Fraction(0)
        for _ in range(20):
            k = r.random()
            if lo is not None and hi is not None:
                if k < 0.12 and not ls:
                    v = lo
                elif k < 0.24 and not hs:
                    v = hi
                elif k < 0.28:
                    v = lo + (hi - lo) * Fraction(r.randint(1, 996), r.choice([10**6, 10**9, 10**16]))
                elif k < 0.32:
                    v = hi - (hi - lo) * Fraction(r.randint(1, 996), r.choice([10**6, 10**9, 10**16]))
                else:
                    v = lo + (hi - lo) * Fraction(r.randint(1, 996), 997)
            elif lo is not None:
                v = lo if (k < .1 and not ls) else lo + Fraction(r.choice([1, 3, 7, 20, 50, 200]) * r.randint(1, 997), 997)
            elif hi is not None:
                v = hi if (k < .1 and not hs) else hi - Fraction(r.choice([1, 3, 7, 20, 50, 200]) * r.randint(1, 997), 997)
            elif k < 0.15:
                v = Fraction(r.choice([-2, -1, 0, 1, 2, 3, 5, 10]))
            elif k < 0.7:
                v = Fraction(r.randint(-3000, 3000), 997)
            elif k < 0.9 and self.scale:
                v = Fraction(r.choice(self.scale)) * Fraction(r.choice([997, 990, 1010, 1500, -1010, -997, 2000, -2000, 3000]), 997)
            else:
                v = Fraction(r.randint(-300000, 300000), 997)
            if pos or nn:
                v = abs(v)
                if pos and v == 0:
                    v = Fraction(1, 7)
            if isint:
                v = Fraction(math.floor(v))
            elif self.tiny and lo is None and hi is None:
                v = v * self.tiny
            if lo is not None and (v < lo or (ls and v == lo)):
                continue
            if hi is not None and (v > hi or (hs and v == hi)):
                continue
            return v
        raise Skip()

    scale = ()
    zeros = 0
    tiny = None
    exact_pi = False

    def atom(self, a):
        r = self.syms.get(a)
        if r is not None:
            return r
        k = _ATOMS[a]
        kind = k[0]
        if a == tm.A_PI:
            r = EXACT_PI if self.exact_pi else math.pi
        elif a == tm.A_INF:
            r = math.inf
        elif kind == 'sym':
            r = self.sample(a)
        elif kind == 'ite':
            r = self.term(k[2]) if self.cond(k[1]) else self.term(k[3])
        elif kind == 'fn':
            r = self.fn(k[1], [self.term(x) for x in k[2]])
        elif kind == 'sel':
            off = 0
            for i, n in zip(k[3], k[2]):
                x = self.term(i)
                j = int(round(num(x)))
                if abs(num(x) - j) > 1e-9 or not -n <= j < n:
                    raise Skip()
                off = off * n + j % n
            r = self.term(k[1][off])
        elif kind == 'flow':
            _, i, der, t0, t1, y0, tag = k
            n = len(der)
            # the solution operator as an uninterpreted function of the vector field's behaviour
            parts = []
            rr = random.Random(4711)
            ya = [tm.atom(('sym', f'$y{j}')) for j in range(n)]
            ta = tm.atom(('sym', '$t'))
            base = [self.term(y) for y in y0]
            for s in range(3):
                ov = {}
                for j in range(n):
                    ov[ya[j]] = Fraction(round(num(base[j]) * 997 + (rr.randint(-500, 500) if s else 0)), 997)
                ov[ta] = Fraction(rr.randint(0, 1000), 997)
                c = self.child(ov)
                c.scale = self.scale
                parts += [self.q(c.term(d)) for d in der]
            parts += [self.q(self.term(t0)), self.q(self.term(t1))] + [self.q(y) for y in base]
            h = hashlib.sha256(repr((i, parts, tag)).encode()).digest()
            r = num(base[i]) + (int.from_bytes(h[:6], 'big') / 2**48 - 0.5)
        else:
            raise Skip()
        self.syms[a] = r
        return r

    @staticmethod
    def q(x):
        return f'{num(x):.6g}' if abs(num(x)) > 1e-12 else '0'

    def fn(self, name, args):
        x = [num(a) for a in args]
        if len(args) == 1 and isinstance(args[0], Fraction) and args[0] == 0:
            if name in ('sin', 'asin', 'atan', 'tanh', 'sinh', 'sqrt'):
                return Fraction(0)
            if name in ('cos', 'exp', 'cosh'):
                return Fraction(1)
        try:
            if name == 'floor':
                if isinstance(args[0], Fraction):
                    return Fraction(math.floor(args[0]))
                if abs(x[0] - round(x[0])) < 1e-9:
                    raise Skip()
                return Fraction(math.floor(x[0]))
            if name == 'round':
                # (few decimals are used, so that a rounding shows up in the comparison)
                n = 0 if len(args) == 1 else min(int(x[1]), 2)
                if isinstance(args[0], Fraction):
                    return round(args[0] * Fraction(10) ** n) / Fraction(10) ** n
                if abs(x[0] * 10 ** n % 1 - 0.5) < 1e-9:
                    raise Skip()
                return round(x[0] * 10 ** n) / 10 ** n
            if name == 'cbrt':
                return math.copysign(abs(x[0]) ** (1 / 3), x[0])
            if name == 'sqrt':
                if x[0] < 0:
                    raise (Undef if x[0] < -1e-6 else Skip)()
                return math.sqrt(x[0])
            if name == 'pow':
                if x[0] <= 0:
                    raise (Undef if x[0] < -1e-6 and x[1] != round(x[1]) else Skip)()
                return math.pow(x[0], x[1])
            if name in ('asin', 'acos') and abs(x[0]) > 1 + 1e-6 or name in ('log', 'log10', 'log2') and x[0] < -1e-6:
                raise Undef()
            if name in ('sin', 'cos', 'asin', 'acos', 'atan', 'exp', 'tanh', 'sinh', 'cosh', 'log', 'log10', 'log2'):
                return getattr(math, name)(x[0])
            if name == 'atan2':
                if abs(x[0]) < 1e-9 and x[1] <= 0:
                    raise Skip()
                return math.atan2(x[0], x[1])
            if name == 'divzero':
                raise Skip()
            if name.startswith('euler_'):
                return mat_euler(x, name[6:-2], int(name[-1]))
            if name in ('quat0', 'quat1', 'quat2', 'quat3'):
                return mat_quat(x)[int(name[4])]
            if name in ('rotvec0', 'rotvec1', 'rotvec2', 'rotmag'):
                q = mat_quat(x)
                if q[3] < 0:
                    q = [-c for c in q]
                s = math.sqrt(q[0] ** 2 + q[1] ** 2 + q[2] ** 2)
                ang = 2 * math.atan2(s, q[3])
                return ang if name == 'rotmag' else 2 * q[int(name[6])] if s < 1e-9 else ang / s * q[int(name[6])]
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Skip()
        h = hashlib.sha256(repr((name, [self.q(a) for a in x])).encode()).digest()
        return int.from_bytes(h[:6], 'big') / 2**46 - 2.0

    # ------------------------------------------------------------------ conditions
    def cond(self, c):
        while c.v is not None:
            c = c.hi if self.lit(c.v) else c.lo
        return c is tm.TRUE

    def lit(self, v):
        r = self.cmemo.get(v)
        if r is not None:
            return r
        k = _LITS[v]
        if k[0] == 'lt':
            x = self.term(k[1])
            if not isinstance(x, Fraction) and abs(x) < EPS * 100:
                raise Skip()
            r = x < 0
        elif k[0] == 'eq':
            x = self.term(k[1])
            if not isinstance(x, Fraction) and abs(x) < EPS * 100:
                raise Skip()
            r = x == 0
        else:
            parts = [self.q(self.term(a)) if isinstance(a, tm.Term) and not self.has_y(a) else '' for a in k[2]] if len(k) > 2 else []
            key = (k[1], tuple(parts))
            if key not in self.preds:
                self.preds[key] = self.rng.random() < 0.75
            r = self.preds[key]
        self.cmemo[v] = r
        return r

    def has_y(self, t):
        return any(_ATOMS[a][0] == 'sym' and (_ATOMS[a][1].startswith('$y') or _ATOMS[a][1] == '$t') for a in tm.deep_atoms(t))


def mat_euler(m, seq, i):
    """Euler angle i of a rotation matrix (row-major), Tait-Bryan sequences away from gimbal lock"""
    low = seq.islower()
    ax = ['xyz'.index(c) for c in seq.lower()]
    if low:
        ax.reverse()
        i = 2 - i
    if len(set(ax)) != 3:
        raise Skip()
    a, b, c = ax
    e = 1 if (b - a) % 3 == 1 else -1
    M = lambda r, k: m[3 * r + k]
    s = e * M(a, c)
    if abs(s) > 1 - 1e-9:
        raise Skip()
    return (math.atan2(-e * M(b, c), M(c, c)), math.asin(s), math.atan2(-e * M(a, b), M(a, a)))[i]


def mat_quat(m):
    """the quaternion scipy derives from a rotation matrix"""
    t = m[0] + m[4] + m[8]
    d = [m[0], m[4], m[8], t]
    i = d.index(max(d))
    M = lambda r, k: m[3 * r + k]
    q = [0.0] * 4
    if i == 3:
        q = [M(2, 1) - M(1, 2), M(0, 2) - M(2, 0), M(1, 0) - M(0, 1), 1 + t]
    else:
        j, k = (i + 1) % 3, (i + 2) % 3
        q[i] = 1 - t + 2 * d[i]
        q[j] = M(j, i) + M(i, j)
        q[k] = M(k, i) + M(i, k)
        q[3] = M(k, j) - M(j, k)
    n = math.sqrt(sum(c * c for c in q))
    return [c / n for c in q]


def constants(terms, conds):
    """numeric constants compared against somewhere: used as sampling scales"""
    out = set()
    atoms = set()
    for t in terms:
        tm.deep_atoms(t, atoms)
    for c in conds:
        tm.deep_cond(c, atoms)
    lits = set()
    for c in conds:
        lits |= tm.c_vars(c)
    for t in terms:
        lits |= set(tm.term_conds(t))
    for v in lits:
        k = _LITS[v]
        if k[0] in ('lt', 'eq'):
            d = k[1].num.d
            c = d.get((), None)
            for m, co in d.items():
                if c and m:
                    out.add(abs(c / co))
                if len(m) == 1 and m[0][0] == tm.A_PI:
                    out.add(abs(co) * Fraction(355, 113))
    return [x for x in out if x]


def differ(x, y, tol=1e-7):
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x != y
    x, y = num(x), num(y)
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) != math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x != y
    return abs(x - y) > tol * max(1.0, abs(x), abs(y))


def walk(c, rng, cap=200):
    """literals of a random path through a decision diagram to TRUE: [(literal, polarity)]"""
    out = []
    for _ in range(cap):
        if c.v is None:
            break
        hi, lo = c.hi, c.lo
        if hi is tm.FALSE:
            w = False
        elif lo is tm.FALSE:
            w = True
        else:
            w = rng.random() < .5
        out.append((c.v, w))
        c = hi if w else lo
    return out


def settle(v, lit, want, rng):
    """choose a value of one still free symbol of a literal linear in it so that the literal gets this polarity"""
    k = _LITS[lit]
    if k[0] not in ('lt', 'eq'):
        return
    t = k[1]
    if t.den.const() is None:
        return
    d = t.num.d
    deg, inside = {}, set()
    for m in d:
        for a, e in m:
            if _ATOMS[a][0] == 'sym' and not _ATOMS[a][1].startswith('$'):
                deg[a] = max(deg.get(a, 0), e)
            else:
                tm.deep_key(_ATOMS[a], inside)
    free = [a for a, e in deg.items() if e == 1 and a not in inside and a not in v.syms and a not in (tm.A_PI, tm.A_INF)]
    if not free:
        return
    x = rng.choice(free)
    c, r = Fraction(0), Fraction(0)
    for m, co in d.items():
        val, has = co, False
        for a, e in m:
            if a == x:
                has = True
                continue
            y = v.atom(a)
            val = val * y ** e if isinstance(val, Fraction) and isinstance(y, Fraction) else num(val) * num(y) ** e
        if has:
            c = c + val if isinstance(c, Fraction) and isinstance(val, Fraction) else num(c) + num(val)
        else:
            r = r + val if isinstance(r, Fraction) and isinstance(val, Fraction) else num(r) + num(val)
    if not c or not math.isfinite(num(c)) or not math.isfinite(num(r)):
        return
    exact = isinstance(c, Fraction) and isinstance(r, Fraction)
    thr = -r / c if exact else Fraction(-num(r) / num(c)).limit_denominator(10**9)
    if k[0] == 'eq':
        if not want or not exact:
            return
        val = thr
    else:
        below = (num(c) > 0) == want
        if not want and exact and rng.random() < .4:
            val = thr
        else:
            lo, _, hi, _ = _BOUNDS.get(x, (None, False, None, False))
            if lo is None and (_ATOM_FLAGS[x] & {'pos', 'nonneg'}):
                lo = Fraction(0)
            edge = lo if below else hi
            if edge is not None and rng.random() < .6:
                val = thr + (edge - thr) * Fraction(rng.randint(1, 996), 997)
            else:
                step = (abs(thr) or 1) * rng.choice([Fraction(1, 10**6), Fraction(1, 100), Fraction(1, 3), 1, 7]) * Fraction(rng.randint(1, 997), 997)
                val = thr - step if below else thr + step
    fl = _ATOM_FLAGS[x]
    lo, ls, hi, hs = _BOUNDS.get(x, (None, False, None, False))
    if 'int' in fl and val.denominator != 1:
        return
    if ('pos' in fl and val <= 0) or ('nonneg' in fl and val < 0):
        return
    if lo is not None and (val < lo or (ls and val == lo)) or hi is not None and (val > hi or (hs and val == hi)):
        return
    (v.root or v).syms[x] = val
    v.syms[x] = val
    v.names[_ATOMS[x][1]] = val


def guide(v, assume, terms, conds, rng):
    """bias a fresh valuation toward a path of the conditions involved and onto their boundaries"""
    if rng.random() < .3:
        v.zeros = rng.choice([.3, .6])
    lits = []
    if assume is not tm.TRUE:
        lits += walk(assume, rng)
    if conds:
        lits += walk(conds[0], rng)
    if terms:
        own = sorted({x for t in terms for x in tm.term_conds(t)})
        rng.shuffle(own)
        lits += [(x, rng.random() < .5) for x in own[:3]]
    # equations bind symbols first, the rest of the path in a random order
    eqs = [x for x in lits if _LITS[x[0]][0] == 'eq' and x[1]]
    rest = [x for x in lits if x not in eqs]
    rng.shuffle(rest)
    for x, want in eqs + rest:
        settle(v, x, want, rng)


def search(test, assume, terms, conds=(), tries=300, seed=1, budget=20):
    """first valuation satisfying assume for which test(val) is True; (names, None) or (None, #samples)"""
    import time
    rng = random.Random(seed + 1000003 * (SEED - 1))
    sc = constants(terms, list(conds) + [assume])
    n = 0
    t0 = time.time()
    for i in range(tries * 8):
        if n >= tries * 1.5 or (budget and time.time() - t0 > budget):
            break
        v = Val(rng)
        v.scale = sc
        try:
            if i % 12 == 6:
                v.tiny = rng.choice(TINY)
            if i % 2 and i > 20:
                v.exact_pi = i % 4 == 1
                guide(v, assume, terms, conds, rng)
            if not v.cond(assume):
                continue
            n += 1
            if test(v):
                return dict(v.names), n
        except Skip:
            continue
        except OverflowError:
            continue
    return None, n


def equal(a, b, assume=tm.TRUE, tries=300):
    """valuation with a != b, or None; second component: number of valuations compared"""
    def t(v):
        y = v.term(b)
        try:
            x = v.term(a)
        except Undef:
            return True
        return differ(x, y)
    return search(t, assume, [a, b], (), tries)


def above(a, b, assume=tm.TRUE, tries=300):
    """valuation with a > b"""
    def t(v):
        x, y = v.term(a), v.term(b)
        if isinstance(x, Fraction) and isinstance(y, Fraction):
            return x > y
        return differ(x, y) and num(x) > num(y)
    return search(t, assume, [a, b], (), tries)


def cond_true(c, assume=tm.TRUE, tries=300):
    """valuation making c true"""
    return search(lambda v: v.cond(c), assume, [], [c], tries)
