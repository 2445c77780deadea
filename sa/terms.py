"""Algebraic value-numbering domain: canonical rational terms over interned atoms,
gating conditions as BDDs, and an entailment test (Fourier-Motzkin over linear facts)
for the polyhedral part of the domain.

Nothing in this file executes any analysed code: terms are the abstract values that the
dataflow analysis (interp.py) attaches to program expressions.
"""
from __future__ import annotations

from fractions import Fraction
from functools import lru_cache

F0, F1 = Fraction(0), Fraction(1)
PI_LO, PI_HI = Fraction(314159265, 100000000), Fraction(314159266, 100000000)

# --------------------------------------------------------------------------- atoms
_ATOMS: list = []          # id -> key
_ATOM_IDS: dict = {}
_ATOM_FLAGS: dict = {}     # id -> set of flags ('int','pos','nonneg')


def atom(key, flags=()):
    i = _ATOM_IDS.get(key)
    if i is None:
        i = len(_ATOMS)
        _ATOM_IDS[key] = i
        _ATOMS.append(key)
        _ATOM_FLAGS[i] = set(flags)
    elif flags:
        _ATOM_FLAGS[i] |= set(flags)
    return i


def atom_key(i):
    return _ATOMS[i]


def aflags(i):
    return _ATOM_FLAGS[i]


# --------------------------------------------------------------------------- monomials / polys
def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


class Poly:
    __slots__ = ('d', '_k', '_h')

    def __init__(self, d):
        self.d = d
        self._k = None
        self._h = None

    @property
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key)
        return self._h

    def is_zero(self):
        return not self.d

    def const(self):
        """constant value or None"""
        if not self.d:
            return F0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def add(self, o, c=F1):
        d = dict(self.d)
        for m, v in o.d.items():
            n = d.get(m, F0) + v * c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return Poly(d)

    def scale(self, c):
        if not c:
            return P0
        if c == 1:
            return self
        return Poly({m: v * c for m, v in self.d.items()})

    def mul(self, o):
        if not self.d or not o.d:
            return P0
        c = self.const()
        if c is not None:
            return o.scale(c)
        c = o.const()
        if c is not None:
            return self.scale(c)
        d = {}
        todo = False
        for m1, v1 in self.d.items():
            for m2, v2 in o.d.items():
                m = mono_mul(m1, m2)
                if not todo and _reducible(m):
                    todo = True
                n = d.get(m, F0) + v1 * v2
                if n:
                    d[m] = n
                else:
                    d.pop(m, None)
        p = Poly(d)
        return _reduce(p) if todo else p

    def lead(self):
        """leading (monomial, coeff) in a fixed order"""
        m = max(self.d, key=_mono_order)
        return m, self.d[m]

    def atoms(self):
        return {a for m in self.d for a, _ in m}


def _mono_order(m):
    return (sum(e for _, e in m), m)


P0 = Poly({})
P1 = Poly({(): F1})


def _reducible(m):
    for a, e in m:
        if e >= 2:
            k = _ATOMS[a]
            if k[0] == 'fn' and (k[1] == 'sin' or k[1] == 'sqrt'):
                return True
    return False


def _reduce(p):
    """sin(x)^2 -> 1 - cos(x)^2 ; sqrt(t)^2 -> t (t polynomial)"""
    out = P0
    work = [(m, v) for m, v in p.d.items()]
    acc = {}
    while work:
        m, v = work.pop()
        for idx, (a, e) in enumerate(m):
            if e >= 2:
                k = _ATOMS[a]
                if k[0] == 'fn' and k[1] in ('sin', 'sqrt'):
                    rest = m[:idx] + (((a, e - 2),) if e > 2 else ()) + m[idx + 1:]
                    if k[1] == 'sin':
                        ca = atom(('fn', 'cos', k[2]))
                        repl = Poly({(): F1, ((ca, 2),): -F1})
                    else:
                        t = k[2][0]
                        if t.den.const() is None:
                            continue
                        repl = t.num.scale(F1 / t.den.const())
                    for m2, v2 in repl.d.items():
                        work.append((mono_mul(rest, m2), v * v2))
                    break
        else:
            n = acc.get(m, F0) + v
            if n:
                acc[m] = n
            else:
                acc.pop(m, None)
    return Poly(acc)


def _mono_divides(a, b):
    """b / a or None"""
    d = dict(b)
    for k, e in a:
        if d.get(k, 0) < e:
            return None
        d[k] -= e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def poly_divide(n, d, limit=400):
    """exact quotient n/d or None"""
    if d.is_zero():
        return None
    q = {}
    lm, lc = d.lead()
    rem = n
    steps = 0
    while not rem.is_zero():
        rm, rc = rem.lead()
        m = _mono_divides(lm, rm)
        if m is None:
            return None
        c = rc / lc
        q[m] = q.get(m, F0) + c
        prod = d.mul(Poly({m: c}))
        nrem = rem.add(prod, -F1)
        if nrem.d.get(rm):
            return None      # reduction rules interfered; give up
        rem = nrem
        steps += 1
        if steps > limit:
            return None
    return Poly(q)


# --------------------------------------------------------------------------- terms
class Term:
    __slots__ = ('num', 'den', '_h')

    def __init__(self, num, den=P1):
        self.num = num
        self.den = den
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Term) and self.num.d == o.num.d and self.den.d == o.den.d

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.num, self.den))
        return self._h

    def __lt__(self, o):
        return (self.num.key, self.den.key) < (o.num.key, o.den.key)

    def __repr__(self):
        return show(self)

    # arithmetic
    def __add__(self, o):
        o = T(o)
        if self.den == o.den:
            return mk(self.num.add(o.num), self.den)
        if self.den.const() == 1:
            return mk(self.num.mul(o.den).add(o.num), o.den)
        if o.den.const() == 1:
            return mk(self.num.add(o.num.mul(self.den)), self.den)
        q = poly_divide(self.den, o.den)
        if q is not None:
            return mk(self.num.add(o.num.mul(q)), self.den)
        q = poly_divide(o.den, self.den)
        if q is not None:
            return mk(self.num.mul(q).add(o.num), o.den)
        return mk(self.num.mul(o.den).add(o.num.mul(self.den)), self.den.mul(o.den))

    __radd__ = __add__

    def __neg__(self):
        return Term(self.num.scale(-F1), self.den)

    def __sub__(self, o):
        return self + (-T(o))

    def __rsub__(self, o):
        return T(o) - self

    def __mul__(self, o):
        o = T(o)
        return mk(self.num.mul(o.num), self.den.mul(o.den))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = T(o)
        if o.num.is_zero():
            return fn('divzero', self)
        return mk(self.num.mul(o.den), self.den.mul(o.num))

    def __rtruediv__(self, o):
        return T(o) / self

    def __pow__(self, n):
        if isinstance(n, int):
            if n < 0:
                return ONE / (self ** (-n))
            r = ONE
            b = self
            while n:
                if n & 1:
                    r = r * b
                b = b * b
                n >>= 1
            return r
        raise TypeError

    def const(self):
        c = self.num.const()
        if c is not None and self.den.const() == 1:
            return c
        return None

    def is_zero(self):
        return self.num.is_zero()

    def atoms(self):
        return self.num.atoms() | self.den.atoms()


def _mono_gcd(monos):
    it = iter(monos)
    g = dict(next(it))
    for m in it:
        if not g:
            break
        dm = dict(m)
        g = {k: min(e, dm[k]) for k, e in g.items() if k in dm}
    return tuple(sorted(g.items()))


def mk(num, den=P1):
    if num.is_zero():
        return ZERO
    c = den.const()
    if c is not None:
        if c == 0:
            return fn('divzero', Term(num))
        return Term(num.scale(F1 / c) if c != 1 else num)
    g = _mono_gcd(list(num.d) + list(den.d))
    if g:
        num = Poly({_mono_divides(g, m): v for m, v in num.d.items()})
        den = Poly({_mono_divides(g, m): v for m, v in den.d.items()})
        c = den.const()
        if c is not None:
            return Term(num.scale(F1 / c))
    if len(den.d) > 1:
        q = poly_divide(num, den)
        if q is not None:
            return Term(q)
        if len(num.d) > 1:
            q = poly_divide(den, num)
            if q is not None:
                return mk(P1, q)
    _, lc = den.lead()
    if lc != 1:
        num = num.scale(F1 / lc)
        den = den.scale(F1 / lc)
    return Term(num, den)


ZERO = Term(P0)
ONE = Term(P1)


def T(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float('inf'), float('-inf')):
            return INF if x > 0 else -INF
        x = Fraction(repr(x))
    return Term(Poly({(): Fraction(x)})) if x else ZERO


def from_atom(a):
    return Term(Poly({((a, 1),): F1}))


def sym(name, *flags):
    return from_atom(atom(('sym', name), flags))


_BOUNDS: dict = {}        # atom -> (lo, lo_strict, hi, hi_strict)


def bounded(name, lo, hi, los=False, his=False, *flags):
    """symbol with a declared interval (abstract precondition of an entry point)"""
    lo = None if lo is None else Fraction(lo)
    hi = None if hi is None else Fraction(hi)
    fl = list(flags)
    if lo is not None and (lo > 0 or (lo == 0 and los)):
        fl.append('pos')
    elif lo == 0:
        fl.append('nonneg')
    t = sym(name, *fl)
    (m, _), = t.num.d.items()
    new = (lo, los, hi, his)
    old = _BOUNDS.get(m[0][0])
    assert old is None or old == new, f'symbol {name} redeclared with other bounds'
    _BOUNDS[m[0][0]] = new
    return t


def _imul(a, b):
    """product of closed-ish intervals; strictness only kept for non-zero endpoints"""
    inf = float('inf')
    a = (-inf if a[0] is None else a[0], a[1], inf if a[2] is None else a[2], a[3])
    b = (-inf if b[0] is None else b[0], b[1], inf if b[2] is None else b[2], b[3])
    cands = []
    for x, xs in ((a[0], a[1]), (a[2], a[3])):
        for y, ys in ((b[0], b[1]), (b[2], b[3])):
            v = F0 if x == 0 or y == 0 else (inf if (x > 0) == (y > 0) else -inf) if x in (inf, -inf) or y in (inf, -inf) else x * y
            st = (xs and y != 0) or (ys and x != 0) or (xs and ys)
            if v == 0:
                # 0 attained unless every zero factor is excluded
                st = not ((x == 0 and not xs) or (y == 0 and not ys))
            cands.append((v, st))
    lo = min(v for v, _ in cands)
    hi = max(v for v, _ in cands)
    ls = all(st for v, st in cands if v == lo)
    hs = all(st for v, st in cands if v == hi)
    # an interior zero may attain 0
    for i in (a, b):
        if i[0] < 0 < i[2]:
            if lo == 0:
                ls = False
            if hi == 0:
                hs = False
    return (None if lo == -inf else lo, ls and lo != -inf, None if hi == inf else hi, hs and hi != inf)


def _iadd(a, b):
    lo = None if a[0] is None or b[0] is None else a[0] + b[0]
    hi = None if a[2] is None or b[2] is None else a[2] + b[2]
    return (lo, a[1] or b[1], hi, a[3] or b[3])


_ALLI = (None, False, None, False)


def _iatom(a):
    b = _BOUNDS.get(a)
    if b is not None:
        return b
    k = _ATOMS[a]
    if k[0] == 'pi':
        return (PI_LO, True, PI_HI, True)
    if k[0] == 'fn':
        if k[1] in ('sin', 'cos'):
            return _itrig(k[1], interval(k[2][0]))
        if k[1] == 'floor':
            i = interval(k[2][0])
            import math
            lo = None if i[0] is None else Fraction(math.floor(i[0]))
            hi = None
            if i[2] is not None:
                hi = Fraction(math.ceil(i[2]) - 1 if i[3] else math.floor(i[2]))
            return (lo, False, hi, False)
        if k[1] == 'round' and len(k[2]) == 1:
            i = interval(k[2][0])
            return (None if i[0] is None else Fraction(round(i[0])), False, None if i[2] is None else Fraction(round(i[2])), False)
        if k[1] in ('atan',):
            return (-PI_HI / 2, True, PI_HI / 2, True)
    if k[0] == 'ite':
        x, y = interval(k[2]), interval(k[3])
        lo = hi = None
        ls = hs = False
        if x[0] is not None and y[0] is not None:
            lo = min(x[0], y[0])
            ls = all(s for v, s in ((x[0], x[1]), (y[0], y[1])) if v == lo)
        if x[2] is not None and y[2] is not None:
            hi = max(x[2], y[2])
            hs = all(s for v, s in ((x[2], x[3]), (y[2], y[3])) if v == hi)
        return (lo, ls, hi, hs)
    if k[0] == 'sel':
        ivs = [interval(e) for e in k[1]]
        if all(i[0] is not None and i[2] is not None for i in ivs):
            return (min(i[0] for i in ivs), False, max(i[2] for i in ivs), False)
    fl = _ATOM_FLAGS[a]
    if 'pos' in fl:
        return (F0, True, None, False)
    if 'nonneg' in fl:
        return (F0, False, None, False)
    return _ALLI


def _itrig(name, i):
    """enclosure of sin/cos over a narrow argument interval (Taylor at the midpoint, rigorous remainder)"""
    full = (-F1, False, F1, False)
    if i[0] is None or i[2] is None:
        return full
    w = (i[2] - i[0]) / 2
    c = (i[2] + i[0]) / 2
    if w > Fraction(1, 1000) or abs(c) > 30:
        return full
    c = c.limit_denominator(10 ** 18)
    w += Fraction(1, 10 ** 17)
    s, term, n = F0, F1, 0
    x2 = c * c
    if name == 'sin':
        term, n = c, 1
    while True:
        s += term
        n += 2
        term = -term * x2 / (n * (n - 1))
        term = term.limit_denominator(10 ** 40) if term.denominator > 10 ** 60 else term
        if abs(term) < Fraction(1, 10 ** 20) and n > 2 * abs(c):
            break
    e = w + Fraction(1, 10 ** 15)
    return (max(-F1, s - e), False, min(F1, s + e), False)


def _drop_unit(p, signed):
    """divide a polynomial by the common monomial factors that cannot be zero (known sign when signed)"""
    if len(p.d) == 0:
        return p
    common = None
    for m in p.d:
        dm = dict(m)
        common = dm if common is None else {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        if not common:
            return p
    sgn = 1
    drop = {}
    for a, e in common.items():
        i = _iatom(a)
        if i[0] is not None and (i[0] > 0 or (i[0] == 0 and i[1])):
            drop[a] = e
        elif i[2] is not None and (i[2] < 0 or (i[2] == 0 and i[3])):
            drop[a] = e
            if e % 2:
                sgn = -sgn
    if not drop:
        return p
    d = {}
    for m, c in p.d.items():
        mm = tuple((a, e - drop.get(a, 0)) for a, e in m if e - drop.get(a, 0))
        d[mm] = c * sgn
    return Poly(d)


def _ipoly(p):
    r = (F0, False, F0, False)
    for m, c in p.d.items():
        i = (F1, False, F1, False)
        for a, e in m:
            b = _iatom(a)
            if e % 2 == 0:
                # even power: square
                if b[0] is None or b[2] is None:
                    sq = (F0, False, None, False) if not (b[0] is not None and b[0] >= 0) else _imul(b, b)
                elif b[0] >= 0:
                    sq = _imul(b, b)
                elif b[2] <= 0:
                    nb = (-b[2], b[3], -b[0], b[1])
                    sq = _imul(nb, nb)
                else:
                    h = max(-b[0], b[2])
                    hs = all(s for v, s in ((-b[0], b[1]), (b[2], b[3])) if v == h)
                    sq = (F0, False, h * h, hs)
                for _ in range(e // 2):
                    i = _imul(i, sq)
            else:
                for _ in range(e):
                    i = _imul(i, b)
        if c > 0:
            i = (None if i[0] is None else i[0] * c, i[1], None if i[2] is None else i[2] * c, i[3])
        else:
            i = (None if i[2] is None else i[2] * c, i[3], None if i[0] is None else i[0] * c, i[1])
        r = _iadd(r, i)
        if r[0] is None and r[2] is None:
            return _ALLI
    return r


_INT_MEMO = {}


def interval(t):
    r = _INT_MEMO.get(t)
    if r is None:
        r = _interval(t)
        _INT_MEMO[t] = r
    return r


def _interval(t):
    n = _ipoly(t.num)
    if t.den.const() == 1:
        return n
    d = _ipoly(t.den)
    if d[0] is not None and d[2] is not None and (d[0] > 0 or d[2] < 0):
        inv = (1 / d[2], d[3], 1 / d[0], d[1])
        return _imul(n, inv)
    if d[0] is not None and d[0] == 0 and d[1] and d[2] is None:
        return _imul(n, (F0, True, None, False))
    if d[0] is not None and d[0] > 0 and d[2] is None:
        return _imul(n, (F0, True, 1 / d[0], d[1]))
    return _ALLI


INF = from_atom(atom(('inf',)))
NAN = from_atom(atom(('nan',)))
PI = from_atom(atom(('pi',), ('pos',)))
A_INF = atom(('inf',))
A_NAN = atom(('nan',))
A_PI = atom(('pi',))


def has_nan(t):
    return A_NAN in t.atoms()


def _single_coeff(t):
    """t = c * mono with den 1 -> (c, mono) else None"""
    if len(t.num.d) == 1 and t.den.const() == 1:
        (m, c), = t.num.d.items()
        return c, m
    return None


def fn(name, *args):
    """uninterpreted / lightly interpreted function application"""
    args = tuple(T(a) for a in args)
    if name in ('sin', 'cos'):
        return _trig(name, args[0])
    if name == 'tan':
        return _trig('sin', args[0]) / _trig('cos', args[0])
    if name == 'sqrt':
        a, = args
        c = a.const()
        if c is not None and c >= 0:
            r = _isqrt_frac(c)
            if r is not None:
                return T(r)
        q = _perfect_sqrt(a)
        if q is not None:
            return absv(q)
        return from_atom(atom(('fn', 'sqrt', args), ('nonneg',)))
    if name == 'floor':
        return _floor(args[0])
    if name == 'ceil':
        return -_floor(-args[0])
    if name == 'round':
        # round half to even; one argument: to an integer, two: to the given number of decimals
        v = args[0]
        n = T(0) if len(args) == 1 else args[1]
        c, k = v.const(), n.const()
        if c is not None and k is not None and k.denominator == 1:
            return T(round(c * Fraction(10) ** int(k)) / Fraction(10) ** int(k))
        if k is not None and k == 0:
            return v if is_int_term(v) else from_atom(atom(('fn', 'round', (v,)), ('int',)))
        return from_atom(atom(('fn', 'round', (v, n))))
    if name == 'cbrt':
        c = args[0].const()
        if c is not None:
            r = Fraction(round(abs(c.numerator) ** (1 / 3)), round(c.denominator ** (1 / 3)) or 1)
            if r ** 3 == abs(c):
                return T(r if c >= 0 else -r)
    if name == 'pow':
        b, e = args
        ec = e.const()
        if ec is not None:
            if ec.denominator == 1 and abs(ec) <= 12:
                return b ** int(ec)
            if ec == Fraction(1, 2):
                return fn('sqrt', b)
        return from_atom(atom(('fn', 'pow', args)))
    if name == 'atan2':
        y, x = args
        w = _atan2_wrap(y, x)
        if w is not None:
            return w
    if name in ('exp',):
        if args[0].is_zero():
            return ONE
        return from_atom(atom(('fn', name, args), ('pos',)))
    return from_atom(atom(('fn', name, args)))


def _isqrt_frac(c):
    import math
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def _perfect_sqrt(t):
    """sqrt of a single monomial square"""
    def half(p):
        if len(p.d) != 1:
            return None
        (m, c), = p.d.items()
        if c < 0:
            return None
        r = _isqrt_frac(c)
        if r is None or any(e % 2 for _, e in m):
            return None
        return Poly({tuple((a, e // 2) for a, e in m): r})
    n, d = half(t.num), half(t.den)
    if n is None or d is None:
        return None
    return mk(n, d)


def _whole_turns(m, c):
    """the monomial c*m is an integer multiple of 2*pi"""
    if (c / 2).denominator != 1 or dict(m).get(A_PI) != 1:
        return False
    rest = tuple((a, e) for a, e in m if a != A_PI)
    return bool(rest) and is_int_term(Term(Poly({rest: F1})))


def _trig(name, t):
    if t.is_zero():
        return ZERO if name == 'sin' else ONE
    if t.den.const() == 1:
        # whole turns drop out
        turns = {m: c for m, c in t.num.d.items() if _whole_turns(m, c)}
        if turns:
            return _trig(name, Term(t.num.add(Poly(turns), -F1)))
    elif len(t.den.d) == 1 and len(t.num.d) > 1:
        # a sum of fractions over one monomial: the same, summand by summand
        parts = [mk(Poly({m: c}), t.den) for m, c in t.num.d.items()]
        keep = [p for p in parts if not (p.den.const() == 1 and all(_whole_turns(m, c) for m, c in p.num.d.items()))]
        if len(keep) < len(parts):
            r = ZERO
            for p in keep:
                r = r + p
            return _trig(name, r)
        a, b = parts[0], ZERO
        for p in parts[1:]:
            b = b + p
        sa, ca, sb, cb = _trig('sin', a), _trig('cos', a), _trig('sin', b), _trig('cos', b)
        return sa * cb + ca * sb if name == 'sin' else ca * cb - sa * sb
    if t.den.const() == 1 and len(t.num.d) > 1:
        # angle addition on the polynomial's monomials
        m, c = t.num.lead()
        a = Term(Poly({m: c}))
        b = Term(t.num.add(Poly({m: c}), -F1))
        sa, ca, sb, cb = _trig('sin', a), _trig('cos', a), _trig('sin', b), _trig('cos', b)
        return sa * cb + ca * sb if name == 'sin' else ca * cb - sa * sb
    sc = _single_coeff(t)
    if sc is not None:
        c, m = sc
        if m == ((A_PI, 1),):
            k = c % 2
            if (k * 2).denominator == 1:
                i = int(k * 2)
                return T((0, 1, 0, -1)[i] if name == 'sin' else (1, 0, -1, 0)[i])
            if k != c:
                t = Term(Poly({m: k}))
    _, lc = t.num.lead()
    if lc < 0:
        r = _trig(name, -t)
        return -r if name == 'sin' else r
    if sc is not None and sc[0] == 1 and len(sc[1]) == 1 and sc[1][0][1] == 1:
        k = _ATOMS[sc[1][0][0]]
        if k[0] == 'fn' and k[1] in ('asin', 'acos'):
            # the inverse is only defined on [-1, 1], where these identities hold
            x = k[2][0]
            return x if (name == 'sin') == (k[1] == 'asin') else fn('sqrt', 1 - x * x)
    # an ITE argument is distributed so that gating stays on the outside
    return from_atom(atom(('fn', name, (t,))))


def _atan2_wrap(y, x):
    """atan2(sin a, cos a) == a wrapped to one turn around 0"""
    def trig_arg(t, f):
        sc = _single_coeff(t)
        if sc and len(sc[1]) == 1 and sc[1][0][1] == 1:
            k = _ATOMS[sc[1][0][0]]
            if k[0] == 'fn' and k[1] == f:
                return sc[0], k[2][0]
        return None
    s, c = trig_arg(y, 'sin'), trig_arg(x, 'cos')
    if s and c and s[1] == c[1] and c[0] > 0 and abs(s[0]) == c[0]:
        a = s[1] if s[0] > 0 else -s[1]
        return mod(a + PI, PI * 2) - PI
    return None


def _const_leaves(t):
    """every gate leaf of t is a constant (so floor can be pushed into the gates)"""
    for a in t.atoms():
        k = _ATOMS[a]
        if k[0] != 'ite' or not (_const_leaves(k[2]) and _const_leaves(k[3])):
            return False
    return True


def _floor(t):
    c = t.const()
    if c is not None:
        import math
        return T(math.floor(c))
    if is_int_term(t):
        return t
    a = _ite_in(t)
    if a is not None and _const_leaves(t):
        k = _ATOMS[a]
        return ite(k[1], _floor(subst_atom(t, a, k[2])), _floor(subst_atom(t, a, k[3])))
    i = interval(t)
    if i[0] is not None and i[2] is not None:
        import math
        lo = math.floor(i[0])
        hi = math.ceil(i[2]) - 1 if i[3] else math.floor(i[2])
        if lo == hi:
            return T(lo)
    # pull out integer part of the constant (or den-multiple) component
    k = F0
    if t.den.const() == 1:
        k = t.num.d.get((), F0)
    elif len(t.den.d) == 1:
        (dm, dc), = t.den.d.items()
        k = t.num.d.get(dm, F0) / dc
    import math
    ip = math.floor(k)
    r = t - T(ip) if ip else t
    # also pull integer-valued monomials with integer coefficients
    extra = ZERO
    if r.den.const() == 1:
        for m, v in list(r.num.d.items()):
            if m and v.denominator == 1 and all('int' in _ATOM_FLAGS[a] for a, _ in m):
                extra = extra + Term(Poly({m: v}))
        if not extra.is_zero():
            r = r - extra
    if r.is_zero():
        return T(ip) + extra
    return from_atom(atom(('fn', 'floor', (r,)), ('int',))) + T(ip) + extra


def is_int_term(t):
    if t.den.const() != 1:
        return False
    return all(v.denominator == 1 and all('int' in _ATOM_FLAGS[a] for a, _ in m) for m, v in t.num.d.items())


def mod(x, m):
    x, m = T(x), T(m)
    if m.is_zero():
        return fn('divzero', x)
    return x - m * _floor(x / m)


# --------------------------------------------------------------------------- conditions (BDD)
_LITS: list = []
_LIT_IDS: dict = {}


def lit(key):
    i = _LIT_IDS.get(key)
    if i is None:
        i = len(_LITS)
        _LIT_IDS[key] = i
        _LITS.append(key)
    return i


def fresh_order():
    """forget the literal order: each scenario orders its gates by discovery (older conditions stay valid)"""
    _LIT_IDS.clear()
    _LT_MEMO.clear()


class Cond:
    """interned BDD node"""
    __slots__ = ('v', 'lo', 'hi', 'id')

    def __repr__(self):
        return show_cond(self)

    def __invert__(self):
        return c_not(self)

    def __and__(self, o):
        return c_ite(self, o, FALSE)

    def __or__(self, o):
        return c_ite(self, TRUE, o)

    def __lt__(self, o):
        return self.id < o.id


_NODES: dict = {}


def _leaf(i):
    c = Cond()
    c.v = None
    c.lo = c.hi = None
    c.id = i
    return c


FALSE, TRUE = _leaf(0), _leaf(1)


def _node(v, lo, hi):
    if lo is hi:
        return lo
    k = (v, lo.id, hi.id)
    n = _NODES.get(k)
    if n is None:
        n = Cond()
        n.v, n.lo, n.hi = v, lo, hi
        n.id = len(_NODES) + 2
        _NODES[k] = n
    return n


_ITE_MEMO: dict = {}


DEADLINE = [None, 0]


def tick():
    DEADLINE[1] += 1
    if DEADLINE[0] is not None and not DEADLINE[1] & 1023:
        import time
        if time.time() > DEADLINE[0]:
            DEADLINE[0] = None
            raise Undecided('time budget of the obligation exceeded')


def c_ite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f.id, g.id, h.id)
    r = _ITE_MEMO.get(k)
    if r is not None:
        return r
    tick()
    v = min(x.v for x in (f, g, h) if x.v is not None)

    def cof(x, b):
        if x.v == v:
            return x.hi if b else x.lo
        return x
    r = _node(v, c_ite(cof(f, 0), cof(g, 0), cof(h, 0)), c_ite(cof(f, 1), cof(g, 1), cof(h, 1)))
    _ITE_MEMO[k] = r
    return r


def c_not(f):
    return c_ite(f, FALSE, TRUE)


def c_and(*fs):
    r = TRUE
    for f in fs:
        r = c_ite(r, f, FALSE)
    return r


def c_or(*fs):
    r = FALSE
    for f in fs:
        r = c_ite(r, TRUE, f)
    return r


def c_bool(b):
    return TRUE if b else FALSE


def c_lit(key):
    return _node(lit(key), FALSE, TRUE)


def c_cofactor(f, v, b, memo=None):
    if memo is None:
        memo = {}
    if f.v is None or f.v > v:
        return f
    if f.v == v:
        return f.hi if b else f.lo
    r = memo.get(f.id)
    if r is None:
        r = _node(f.v, c_cofactor(f.lo, v, b, memo), c_cofactor(f.hi, v, b, memo))
        memo[f.id] = r
    return r


def c_restrict(f, care, memo=None):
    """Coudert-Madre restrict: simplify f inside the care set"""
    if memo is None:
        memo = {}
    if care is TRUE or f.v is None:
        return f
    if care is FALSE:
        return f
    k = (f.id, care.id)
    r = memo.get(k)
    if r is not None:
        return r
    if care.v == f.v:
        if care.lo is FALSE:
            r = c_restrict(f.hi, care.hi, memo)
        elif care.hi is FALSE:
            r = c_restrict(f.lo, care.lo, memo)
        else:
            r = _node(f.v, c_restrict(f.lo, care.lo, memo), c_restrict(f.hi, care.hi, memo))
    elif care.v < f.v:
        r = c_restrict(f, c_or(care.lo, care.hi), memo)
    else:
        r = _node(f.v, c_restrict(f.lo, care, memo), c_restrict(f.hi, care, memo))
    memo[k] = r
    return r


def c_vars(f, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if f.v is None or f.id in seen:
        return acc
    seen.add(f.id)
    acc.add(f.v)
    c_vars(f.lo, acc, seen)
    c_vars(f.hi, acc, seen)
    return acc


def _inf_sign(t):
    """sign of the INF part if t is finite + c*INF, else None"""
    if t.den.const() != 1:
        part = {}
        for m, v in t.num.d.items():
            if (A_INF, 1) in m:
                part[tuple(x for x in m if x[0] != A_INF)] = v
            elif any(a == A_INF for a, e in m):
                return None
        if not part:
            return None
        q = mk(Poly(part), t.den)
        c = q.const()
        if c is not None:
            return 1 if c > 0 else -1
        g = sign_of(q)
        return 1 if g == 'pos' else -1 if g == 'neg' else None
    s = None
    for m, v in t.num.d.items():
        for a, e in m:
            if a == A_INF:
                if m != ((A_INF, 1),):
                    # sign of a product with known-positive atoms
                    if not all(x == A_INF or ('pos' in _ATOM_FLAGS[x]) for x, _ in m):
                        return None
                s = 1 if v > 0 else -1
    return s


def _ite_in(t):
    """an ITE atom appearing linearly at the top of a (polynomial) term"""
    for m in t.num.d:
        for a, e in m:
            if _ATOMS[a][0] == 'ite':
                return a
    return None


def subst_atom(t, a, v):
    """replace atom a (top level only) by term v"""
    def ev(p):
        r = ZERO
        for m, c in p.d.items():
            e0 = 0
            rest = []
            for x, e in m:
                if x == a:
                    e0 = e
                else:
                    rest.append((x, e))
            x = Term(Poly({tuple(rest): c}))
            if e0:
                x = x * (v ** e0)
            r = r + x
        return r
    n = ev(t.num)
    if a in t.den.atoms():
        return n / ev(t.den)
    return n / Term(t.den) if t.den.const() != 1 else n


_LT_MEMO = {}


def lt0(t, depth=0):
    """t < 0"""
    c = t.const()
    if c is not None:
        return c_bool(c < 0)
    if has_nan(t):
        return FALSE
    s = _inf_sign(t)
    if s is not None:
        return c_bool(s < 0)
    r = _LT_MEMO.get(t)
    if r is not None:
        return r
    tick()
    r = _lt0(t)
    _LT_MEMO[t] = r
    return r


def _lt0(t):
    a = _ite_in(t)
    if a is not None:
        k = _ATOMS[a]
        return c_ite(k[1], lt0(subst_atom(t, a, k[2])), lt0(subst_atom(t, a, k[3])))
    s = sign_of(t)
    if s is not None:
        if s in ('pos', 'nonneg', 'zero'):
            return FALSE
        if s == 'neg':
            return TRUE
    i = interval(t)
    if i[0] is not None and i[0] >= 0:
        return FALSE
    if i[2] is not None and (i[2] < 0 or (i[2] == 0 and i[3])):
        return TRUE
    t = _posden(t)
    q = _drop_unit(t.num, True)
    if q is not t.num:
        return lt0(mk(q, t.den))
    _, lc = t.num.lead()
    t = Term(t.num.scale(F1 / abs(lc)), t.den)
    return c_lit(('lt', t))


def _posden(t):
    """drop a denominator whose sign is known positive / negative"""
    if t.den.const() == 1:
        return t
    s = sign_of(Term(t.den))
    if s == 'pos':
        return Term(t.num)
    if s == 'neg':
        return Term(t.num.scale(-F1))
    return t


def _integral(t):
    return is_int_term(t)


def le0(t):
    c = t.const()
    if c is not None:
        return c_bool(c <= 0)
    if has_nan(t):
        return FALSE
    s = _inf_sign(t)
    if s is not None:
        return c_bool(s < 0)
    return c_not(lt0(-t))


def eq0(t):
    c = t.const()
    if c is not None:
        return c_bool(c == 0)
    if has_nan(t):
        return FALSE
    s = _inf_sign(t)
    if s is not None:
        return FALSE
    a = _ite_in(t)
    if a is not None:
        k = _ATOMS[a]
        return c_ite(k[1], eq0(subst_atom(t, a, k[2])), eq0(subst_atom(t, a, k[3])))
    s = sign_of(t)
    if s in ('pos', 'neg'):
        return FALSE
    i = interval(t)
    if (i[0] is not None and (i[0] > 0 or (i[0] == 0 and i[1]))) or (i[2] is not None and (i[2] < 0 or (i[2] == 0 and i[3]))):
        return FALSE
    n = Term(_drop_unit(t.num, False))
    if n.const() is not None:
        return c_bool(n.const() == 0)
    _, lc = n.num.lead()
    n = Term(n.num.scale(F1 / lc))
    return c_lit(('eq', n))


def sign_of(t):
    """syntactic sign: 'pos','neg','nonneg','nonpos','zero' or None"""
    def psign(p):
        pos = neg = False
        strict = False
        for m, c in p.d.items():
            s = 1
            st = True
            for a, e in m:
                fl = _ATOM_FLAGS[a]
                if 'pos' in fl:
                    continue
                if 'nonneg' in fl or e % 2 == 0:
                    st = False
                    continue
                return None
            if c > 0:
                pos = True
            else:
                neg = True
            strict = strict or st
        if pos and neg:
            return None
        if not pos and not neg:
            return 'zero'
        if pos:
            return 'pos' if strict else 'nonneg'
        return 'neg' if strict else 'nonpos'
    n = psign(t.num)
    if n is None:
        return None
    d = psign(t.den)
    if d == 'pos':
        return n
    if d == 'neg':
        return {'pos': 'neg', 'neg': 'pos', 'nonneg': 'nonpos', 'nonpos': 'nonneg', 'zero': 'zero'}[n]
    return None


# --------------------------------------------------------------------------- gated values
def ite(c, a, b):
    a, b = T(a), T(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    # canonical polarity
    a = _under(a, c, True)
    b = _under(b, c, False)
    if a == b:
        return a
    fl = []
    sa, sb = sign_of(a), sign_of(b)
    if is_int_term(a) and is_int_term(b):
        fl.append('int')
    if sa == 'pos' and sb == 'pos':
        fl.append('pos')
    elif sa in ('pos', 'nonneg', 'zero') and sb in ('pos', 'nonneg', 'zero'):
        fl.append('nonneg')
    n = c_not(c)
    if (n.id < c.id):
        return from_atom(atom(('ite', n, b, a), fl))
    return from_atom(atom(('ite', c, a, b), fl))


def _under(t, c, pol):
    """simplify top-level ITEs of t knowing c == pol"""
    sc = _single_coeff(t)
    if sc and sc[0] == 1 and len(sc[1]) == 1 and sc[1][0][1] == 1:
        k = _ATOMS[sc[1][0][0]]
        if k[0] == 'ite':
            care = c if pol else c_not(c)
            cc = c_restrict(k[1], care)
            if cc is TRUE:
                return k[2]
            if cc is FALSE:
                return k[3]
    return t


def absv(t):
    t = T(t)
    c = t.const()
    if c is not None:
        return T(abs(c))
    s = sign_of(t)
    if s in ('pos', 'nonneg', 'zero'):
        return t
    if s in ('neg', 'nonpos'):
        return -t
    return ite(lt0(t), -t, t)       # lt0 consults declared intervals


def tmax(a, b):
    """max(a, b)"""
    a, b = T(a), T(b)
    return ite(lt0(a - b), b, a)


def tmin(a, b):
    a, b = T(a), T(b)
    return ite(lt0(b - a), b, a)


def tclip(x, lo, hi):
    """numpy.clip semantics: minimum(maximum(x, lo), hi)"""
    x, lo, hi = T(x), T(lo), T(hi)
    return ite(lt0(x - lo), tmin(lo, hi), ite(lt0(hi - x), hi, x))


def tsign(t):
    t = T(t)
    return ite(lt0(t), T(-1), ite(eq0(t), ZERO, ONE))


def select(elems, shape, idx):
    """table lookup elems[shape] at index terms; canonical under axis permutation"""
    idx = tuple(T(i) for i in idx)
    elems = tuple(elems)
    if all(i.const() is not None for i in idx):
        off = 0
        for i, n in zip(idx, shape):
            k = int(i.const())
            if k < 0:
                k += n
            off = off * n + k
        return elems[off]
    # constant axes are sliced away
    for ax, i in enumerate(idx):
        if i.const() is not None:
            k = int(i.const())
            if k < 0:
                k += shape[ax]
            ne = _slice_axis(elems, shape, ax, k)
            return select(ne, shape[:ax] + shape[ax + 1:], idx[:ax] + idx[ax + 1:])
    if len(set(elems)) == 1:
        return elems[0]
    if len(shape) == 2:
        r, c = shape
        tel = tuple(elems[i * c + j] for j in range(c) for i in range(r))
        k1 = (shape, tuple(_tk(e) for e in elems))
        k2 = ((c, r), tuple(_tk(e) for e in tel))
        if k2 < k1:
            elems, shape, idx = tel, (c, r), (idx[1], idx[0])
    return from_atom(atom(('sel', elems, tuple(shape), idx)))


def _tk(e):
    c = e.const()
    return (0, c) if c is not None else (1, e.num.key)


def _slice_axis(elems, shape, ax, k):
    import itertools
    out = []
    strides = [0] * len(shape)
    s = 1
    for i in range(len(shape) - 1, -1, -1):
        strides[i] = s
        s *= shape[i]
    rngs = [range(n) if i != ax else (k,) for i, n in enumerate(shape)]
    for t in itertools.product(*rngs):
        out.append(elems[sum(a * b for a, b in zip(t, strides))])
    return tuple(out)


# --------------------------------------------------------------------------- rebuilding
class Rebuild:
    """rebuild terms bottom-up under a literal valuation and/or a symbol substitution"""

    def __init__(self, lits=None, syms=None):
        self.lits = lits or {}
        self.syms = syms or {}
        self.atoms = {}
        self.tm = {}
        self.cm = {}
        self.am = {}

    def term(self, t):
        r = self.tm.get(t)
        if r is None:
            if t.const() is not None:
                r = t
            else:
                subs = {}
                for a in t.atoms():
                    n = self.atom(a)
                    if n is not None:
                        subs[a] = n
                r = subst_many(t, subs) if subs else t
            self.tm[t] = r
        return r

    def atom(self, a):
        """replacement term or None when unchanged"""
        if a in self.am:
            return self.am[a]
        k = _ATOMS[a]
        r = None
        if a in self.atoms:
            r = self.term(self.atoms[a])
        elif k[0] == 'sym':
            r = self.syms.get(a)
        elif k[0] == 'fn':
            args = tuple(self.term(x) for x in k[2])
            if args != k[2]:
                r = fn(k[1], *args)
        elif k[0] == 'ite':
            c = self.cond(k[1])
            if c is TRUE:
                r = self.term(k[2])
            elif c is FALSE:
                r = self.term(k[3])
            else:
                x, y = self.term(k[2]), self.term(k[3])
                if c is not k[1] or x != k[2] or y != k[3]:
                    r = ite(c, x, y)
        elif k[0] == 'sel':
            idx = tuple(self.term(x) for x in k[3])
            els = tuple(self.term(x) for x in k[1])
            if idx != k[3] or els != k[1]:
                r = select(els, k[2], idx)
        elif k[0] == 'flow':
            _, i, der, t0, t1, y0, tag = k
            # a case split on gates never reaches below the solution operator's binder
            nd = tuple(self.term(x) for x in der) if self.syms else der
            sub = (nd, self.term(t0), self.term(t1), tuple(self.term(x) for x in y0))
            if sub != (der, t0, t1, y0):
                r = flow(i, sub[0], sub[1], sub[2], sub[3], tag)
        self.am[a] = r
        return r

    def cond(self, c):
        if c.v is None:
            return c
        r = self.cm.get(c.id)
        if r is None:
            if c.v in self.lits:
                r = self.cond(c.hi if self.lits[c.v] else c.lo)
            else:
                r = c_ite(self.literal(c.v), self.cond(c.hi), self.cond(c.lo))
            self.cm[c.id] = r
        return r

    def literal(self, v):
        k = _LITS[v]
        if k[0] in ('lt', 'eq'):
            t = self.term(k[1])
            if t != k[1]:
                return lt0(t) if k[0] == 'lt' else eq0(t)
        elif k[0] == 'pred' and self.syms:
            args = tuple(self.term(x) if isinstance(x, Term) else x for x in k[2])
            if args != k[2]:
                return c_lit(('pred', k[1], args))
        return _node(v, FALSE, TRUE)


def subst_many(t, subs):
    def ev(p):
        if not any(a in subs for a in p.atoms()):
            return Term(p)
        r = ZERO
        for m, c in p.d.items():
            rest = []
            x = None
            for a, e in m:
                if a in subs:
                    f = subs[a] ** e
                    x = f if x is None else x * f
                else:
                    rest.append((a, e))
            y = Term(Poly({tuple(rest): c}))
            r = r + (y if x is None else y * x)
        return r
    n = ev(t.num)
    if t.den.const() == 1:
        return n
    d = ev(t.den)
    return n / d


def flow(i, der, t0, t1, y0, tag='ivp'):
    """i-th component at t1 of the solution of dy/dt = der($y,$t), y(t0) = y0"""
    if t1 == t0:
        return y0[i]
    free = set()
    for d in der:
        deep_atoms(d, free)
    at = _ATOM_IDS.get(('sym', '$t'))
    if at is None or at not in free:
        t0, t1 = ZERO, t1 - t0          # autonomous: only the elapsed time matters
    own = deep_atoms(der[i])
    if not any(_ATOMS[a][0] == 'sym' and (_ATOMS[a][1] == '$t' or _ATOMS[a][1].startswith('$y')) for a in own):
        return y0[i] + der[i] * (t1 - t0)
    return from_atom(atom(('flow', i, tuple(der), t0, t1, tuple(y0), tag)))


def substitute(t, mapping):
    """mapping: Term symbol -> Term"""
    syms = {}
    for k, v in mapping.items():
        (m, c), = k.num.d.items()
        syms[m[0][0]] = T(v)
    return Rebuild(syms=syms).term(t)


def substitute_cond(c, mapping):
    syms = {}
    for k, v in mapping.items():
        (m, _), = k.num.d.items()
        syms[m[0][0]] = T(v)
    return Rebuild(syms=syms).cond(c)


# --------------------------------------------------------------------------- structure queries
def deep_atoms(t, acc=None):
    """all atoms reachable in a term (through functions, gates and conditions)"""
    if acc is None:
        acc = set()
    for a in t.atoms():
        if a in acc:
            continue
        acc.add(a)
        deep_key(_ATOMS[a], acc)
    return acc


def deep_key(k, acc):
    """atoms reachable from the parts of one atom"""
    if k[0] == 'fn':
        for x in k[2]:
            deep_atoms(x, acc)
    elif k[0] == 'ite':
        deep_cond(k[1], acc)
        deep_atoms(k[2], acc)
        deep_atoms(k[3], acc)
    elif k[0] == 'sel':
        for x in k[3] + k[1]:
            deep_atoms(x, acc)
    elif k[0] == 'flow':
        for x in k[2] + (k[3], k[4]) + k[5]:
            deep_atoms(x, acc)


def deep_cond(c, acc):
    for v in c_vars(c):
        k = _LITS[v]
        if k[0] in ('lt', 'eq'):
            deep_atoms(k[1], acc)
        elif k[0] == 'pred':
            for x in k[2]:
                if isinstance(x, Term):
                    deep_atoms(x, acc)
    return acc


def depends(t, s):
    """does term t mention symbol-term s anywhere?"""
    (m, _), = s.num.d.items()
    return m[0][0] in deep_atoms(t)


def cond_depends(c, s):
    (m, _), = s.num.d.items()
    return m[0][0] in deep_cond(c, set())


def term_conds(t, seen=None, acc=None):
    """literals in gates of a term (deep), in discovery order"""
    if acc is None:
        acc, seen = [], set()
    for a in sorted(t.atoms()):
        if a in seen:
            continue
        seen.add(a)
        k = _ATOMS[a]
        subs = ()
        if k[0] == 'ite':
            for v in sorted(c_vars(k[1])):
                if v not in acc:
                    acc.append(v)
                lk = _LITS[v]
                if lk[0] in ('lt', 'eq'):
                    term_conds(lk[1], seen, acc)
            subs = (k[2], k[3])
        elif k[0] == 'fn':
            subs = k[2]
        elif k[0] == 'sel':
            subs = k[3] + k[1]
        elif k[0] == 'flow':
            subs = (k[3], k[4]) + k[5]
        for x in subs:
            term_conds(x, seen, acc)
    return acc


# --------------------------------------------------------------------------- entailment
def _mono_cat(a, b, inv=()):
    """a*b/inv as a generalised monomial (exponents may be negative): only ever a linear unknown"""
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    for x, e in inv:
        d[x] = d.get(x, 0) - e
    return tuple(sorted((x, e) for x, e in d.items() if e))


def _mono_sign(m):
    if not m:
        return 'pos'
    if any(e < 0 for _, e in m):
        n = sign_of(Term(Poly({tuple((x, e) for x, e in m if e > 0): F1}))) if any(e > 0 for _, e in m) else 'pos'
        d = sign_of(Term(Poly({tuple((x, -e) for x, e in m if e < 0): F1})))
        return n if d == 'pos' and n in ('pos', 'nonneg') else None
    return sign_of(Term(Poly({m: F1})))


class Facts:
    """conjunction of linear constraints over monomials:  sum c_m * m + c0 <= 0 (or < 0)"""

    def __init__(self):
        self.cons = []      # (dict mono->Fraction, const, strict)

    def copy(self):
        f = Facts()
        f.cons = list(self.cons)
        return f

    def add_le(self, t, strict=False):
        t = _posden(t)
        if len(t.den.d) != 1:
            return
        if t.den.const() != 1:
            (dm, dc), = t.den.d.items()
            dm = tuple((x, e) for x, e in dm if x != A_PI)        # a positive constant factor
            d = {_mono_cat(m, (), dm): v / dc for m, v in t.num.d.items()}
            c = d.pop((), F0)
            self.cons.append((d, c, strict))
            return
        d = {m: v for m, v in t.num.d.items() if m}
        c = t.num.d.get((), F0)
        if strict and is_int_term(t):
            c, strict = c + 1, False
        self.cons.append((d, c, strict))

    def add_lit(self, v, val):
        k = _LITS[v]
        if k[0] == 'lt':
            if val:
                self.add_le(k[1], True)
            else:
                self.add_le(-k[1], False)
        elif k[0] == 'eq' and val:
            self.add_le(k[1], False)
            self.add_le(-k[1], False)

    def close(self, extra_terms=()):
        """add intrinsic facts of atoms occurring in the constraints"""
        monos = set()
        for d, _, _ in self.cons:
            monos |= set(d)
        for t in extra_terms:
            monos |= set(m for m in t.num.d if m)
        out = []
        seen = set()
        work = list(monos)
        while work:
            m = work.pop()
            if m in seen:
                continue
            seen.add(m)
            # sign facts for the monomial
            s = _mono_sign(m)
            if s in ('pos', 'nonneg'):
                out.append(({m: -F1}, F0, s == 'pos'))
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in _BOUNDS:
                lo, ls, hi, hs = _BOUNDS[m[0][0]]
                if lo is not None:
                    out.append(({m: -F1}, lo, ls))
                if hi is not None:
                    out.append(({m: F1}, -hi, hs))
            if m == ((A_PI, 1),):
                out.append(({m: F1}, -PI_HI, True))
                out.append(({m: -F1}, PI_LO, True))
            for idx, (a, e) in enumerate(m):
                k = _ATOMS[a]
                rest = m[:idx] + m[idx + 1:]
                if e == 1 and k[0] == 'fn' and k[1] == 'floor' and len(k[2][0].den.d) == 1 and _mono_sign(rest) == 'pos':
                    # rest*F <= rest*arg < rest*F + rest
                    arg = k[2][0]
                    (dm, dc), = arg.den.d.items()
                    d = {_mono_cat(nm, rest, dm): nc / dc for nm, nc in arg.num.d.items()}
                    lo = dict(d)
                    lo[m] = lo.get(m, F0) - 1
                    hi = {x: -v for x, v in lo.items()}
                    up = {x: v for x, v in lo.items()}
                    up[rest] = up.get(rest, F0) - 1
                    for dd, st in ((hi, False), (up, True)):
                        c0 = dd.pop((), F0)
                        out.append((dd, c0, st))
                        work.extend(dd)
                if e == 1 and rest and a in _BOUNDS and _mono_sign(rest) in ('pos', 'nonneg'):
                    ps = _mono_sign(rest) == 'pos'
                    lo, ls, hi, hs = _BOUNDS[a]
                    if lo is not None:
                        out.append(({m: -F1, rest: lo}, F0, ls and ps))
                        work.append(rest)
                    if hi is not None:
                        out.append(({m: F1, rest: -hi}, F0, hs and ps))
                        work.append(rest)
                if e == 1 and len(m) == 1 and k[0] == 'fn' and k[1] in ('sin', 'cos'):
                    out.append(({m: F1}, -F1, False))
                    out.append(({m: -F1}, -F1, False))
        self.cons.extend(out)
        return self

    def infeasible(self, limit=4000):
        return _fm([(dict(d), c, s) for d, c, s in self.cons], limit)


def _fm(cons, limit):
    """True when the conjunction is certainly infeasible (rational Fourier-Motzkin)"""
    def trivial(cs):
        keep = []
        for d, c, s in cs:
            d = {m: v for m, v in d.items() if v}
            if not d:
                if c > 0 or (s and c >= 0):
                    return None
            else:
                keep.append((d, c, s))
        return keep

    def dedup(cs):
        best = {}
        for d, c, s in cs:
            k0 = sorted(d.items())
            sc = abs(k0[0][1])
            key = tuple((m, v / sc) for m, v in k0)
            c = c / sc
            o = best.get(key)
            if o is None or (c, s) > o:
                best[key] = (c, s)
        return [(dict(k), c, s) for k, (c, s) in best.items()]
    cs = trivial(cons)
    if cs is None:
        return True
    cs = dedup(cs)
    while cs:
        for _ in range(64):
            tick()
        counts = {}
        for d, _, _ in cs:
            for m, v in d.items():
                p, n = counts.get(m, (0, 0))
                counts[m] = (p + 1, n) if v > 0 else (p, n + 1)
        if not counts:
            return False
        x = min(counts, key=lambda m: (counts[m][0] * counts[m][1], counts[m][0] + counts[m][1]))
        pos = [c for c in cs if c[0].get(x, 0) > 0]
        neg = [c for c in cs if c[0].get(x, 0) < 0]
        rest = [c for c in cs if not c[0].get(x, 0)]
        if len(pos) * len(neg) + len(rest) > limit:
            return False
        for dp, cp, sp in pos:
            for dn, cn, sn in neg:
                a, b = dp[x], -dn[x]
                d = {}
                for m in set(dp) | set(dn):
                    if m == x:
                        continue
                    v = dp.get(m, F0) * b + dn.get(m, F0) * a
                    if v:
                        d[m] = v
                rest.append((d, cp * b + cn * a, sp or sn))
        cs = trivial(rest)
        if cs is None:
            return True
        cs = dedup(cs)
    return False


class Undecided(Exception):
    pass


def _floors(ts):
    out = set()
    for t in ts:
        for a in deep_atoms(t):
            k = _ATOMS[a]
            if k[0] == 'fn' and k[1] == 'floor':
                out.add(a)
    return sorted(out)


def _entails_le0(t, facts, strict=False):
    """facts entail t <= 0 (or < 0)"""
    s = sign_of(t)
    if s in ('neg', 'zero') and not (strict and s == 'zero'):
        return True
    if s == 'nonpos' and not strict:
        return True
    if len(_posden(t).den.d) != 1:
        return False
    f = facts.copy()
    f.add_le(-t, not strict)
    f.close()
    return f.infeasible()


def settle_floors(ts, facts):
    """replace whole parts whose value the facts pin down"""
    subs = {}
    for a in _floors(ts):
        arg = _ATOMS[a][2][0]
        for k in (0, -1, 1):
            if _entails_le0(T(k) - arg, facts) and _entails_le0(arg - T(k + 1), facts, True):
                subs[a] = T(k)
                break
    if not subs:
        return None
    return [subst_many(t, subs) for t in ts]


_FRAC = {}


def fractional(t):
    """rewrite every top-level floor(A) as A - f with f in [0,1)"""
    subs = {}
    for a in t.atoms():
        k = _ATOMS[a]
        if k[0] == 'fn' and k[1] == 'floor':
            if a not in _FRAC:
                _FRAC[a] = bounded(f'$frac{a}', 0, 1, False, True)
            subs[a] = k[2][0] - _FRAC[a]
    return subst_many(t, subs) if subs else None


MAXSPLIT = 4000


class Prover:
    """decides t1 == t2 (or t <= 0) for all valuations, by case split on gate literals"""

    def __init__(self, assume=TRUE, facts=None):
        self.assume = assume
        self.base = facts or Facts()
        self.n = 0
        self.counter = None

    def _cases(self, terms, leaf):
        """run leaf(terms, facts, lits) over every feasible gate valuation; False on first failure"""
        return self._rec(terms, self.assume, {}, self.base, leaf)

    def _rec(self, terms, assume, lits, facts, leaf):
        self.n += 1
        if self.n > MAXSPLIT:
            raise Undecided('case-split budget exceeded')
        if assume is FALSE:
            return True
        # literals forced by the assumption are taken first
        v = None
        if assume.v is not None:
            v = assume.v
        else:
            for t in terms:
                cs = term_conds(t)
                if cs:
                    v = cs[0]
                    break
        if v is None:
            if leaf(terms, facts, lits):
                return True
            keep = self.counter
            if self._settled(lits, None, terms, leaf):
                return True
            self.counter = keep
            red = self._boundary(terms, lits, leaf)
            if red is True:
                return True
            if red is not None:
                keep = self.counter
                if self._rec(red, assume, lits, facts, leaf):
                    return True
                self.counter = keep
            return False
        if assume.v is None:
            # often decided with the inner gates left opaque
            keep = self.counter
            if leaf(terms, facts, lits):
                return True
            self.counter = keep
        for val in (True, False):
            f = facts.copy()
            f.add_lit(v, val)
            a = c_cofactor(assume, v, val)
            if a is FALSE:
                continue
            g = f.copy().close()
            if g.infeasible():
                continue
            rb = Rebuild(lits={v: val})
            ts = [rb.term(t) for t in terms]
            a2 = rb.cond(a)
            if not val and _LITS[v][0] == 'lt' and lits.get(_LIT_IDS.get(('lt', -_LITS[v][1]))) is False:
                red = self._boundary(ts, {**lits, v: val}, leaf)
                if red is True:
                    continue
                if red is not None:
                    keep = self.counter
                    if self._rec(red, a2, {**lits, v: val}, f, leaf):
                        continue
                    self.counter = keep
            if not self._rec(ts, a2, {**lits, v: val}, f, leaf):
                return False
        return True

    def _settled(self, lits, rb, terms, leaf):
        """the facts of a case once more, with the gates inside them settled (and the terms, unless unchanged)"""
        facts = self.base.copy()
        one = rb is None
        if one:
            rb = Rebuild(lits=lits)
        ch = False
        for v, val in lits.items():
            k = _LITS[v]
            if k[0] not in ('lt', 'eq'):
                continue
            t = rb.term(k[1])
            ch = ch or t != k[1]
            if _ite_in(t) is not None or has_nan(t) or _inf_sign(t) is not None:
                continue
            if k[0] == 'lt':
                facts.add_le(t if val else -t, val)
            elif val:
                facts.add_le(t, False)
                facts.add_le(-t, False)
        if not ch and one:
            return False
        return facts.copy().close().infeasible() or (one and leaf(terms, facts, lits))

    def _boundary(self, terms, lits, leaf):
        """terms rewritten by the equations that hold in this case: neither t < 0 nor -t < 0"""
        for v, val in lits.items():
            k = _LITS[v]
            if val == (k[0] == 'lt'):
                continue
            t = k[1]
            if k[0] == 'lt':
                o = _LIT_IDS.get(('lt', -t))
                if o is None or lits.get(o) is not False:
                    continue
            elif k[0] != 'eq':
                continue
            at = t.num.atoms()
            for m, c in t.num.d.items():
                if len(m) != 1 or m[0][1] != 1:
                    continue
                a = m[0][0]
                if a == A_PI or any(a == x for n in t.num.d if n != m for x, _ in n):
                    continue
                rest = Term(Poly({n: -q / c for n, q in t.num.d.items() if n != m}))
                if a in deep_atoms(rest) or any(a in deep_atoms(from_atom(x)) for x in at if x != a):
                    continue
                rb = Rebuild()
                rb.atoms[a] = rest
                if self._settled(lits, rb, terms, leaf):
                    return True
                new = [rb.term(x) for x in terms]
                if new != list(terms):
                    return new
        return None

    def equal(self, a, b):
        a, b = T(a), T(b)
        if a == b:
            return True
        if has_nan(a) or has_nan(b):
            self.counter = ({}, a, b)
            return False

        def leaf(ts, facts, lits):
            x, y = ts
            d = x - y
            if d.is_zero():
                return True
            if self._eq_under(d, facts):
                return True
            r = settle_floors([d], facts)
            if r is not None and (r[0].is_zero() or self._eq_under(r[0], facts)):
                return True
            self.counter = (lits, x, y)
            return False
        return self._cases([a, b], leaf)

    def _eq_under(self, d, facts):
        """d == 0 entailed by the collected facts"""
        if not facts.cons:
            return False
        for s in (d, -d):
            f = facts.copy()
            f.add_le(-s, True)      # s > 0
            f.close()
            if not f.infeasible():
                return False
        return True

    def le(self, a, b, strict=False):
        """a <= b everywhere"""
        a, b = T(a), T(b)

        def leaf(ts, facts, lits):
            d = ts[0]
            if has_nan(d):
                self.counter = (lits, ts[0], ZERO)
                return False
            s = _inf_sign(d)
            if s is not None:
                if s < 0:
                    return True
                self.counter = (lits, d, ZERO)
                return False
            c = d.const()
            if c is not None:
                ok = c < 0 if strict else c <= 0
                if not ok:
                    self.counter = (lits, d, ZERO)
                return ok
            sg = sign_of(d)
            if sg in ('neg', 'zero') and not (strict and sg == 'zero'):
                return True
            if sg == 'nonpos' and not strict:
                return True
            f = facts.copy()
            f.add_le(-d, not strict)
            f.close()
            if f.infeasible():
                return True
            r = settle_floors([d], facts)
            for e in ((r[0],) if r is not None else ()) + (fractional(d),):
                if e is not None and _entails_le0(e, facts, strict):
                    return True
            self.counter = (lits, d, ZERO)
            return False
        return self._cases([a - b], leaf)

    def cond_equal(self, c1, c2):
        """c1 <-> c2 for every feasible valuation"""
        if c1 is c2:
            return True
        x = c_ite(c1, c_not(c2), c2)

        def rec(x, facts, lits):
            self.n += 1
            if self.n > MAXSPLIT:
                raise Undecided('case-split budget exceeded')
            if x is FALSE:
                return True
            if x is TRUE:
                self.counter = (lits, ONE, ZERO)
                return False
            v = x.v
            for val in (True, False):
                y = x.hi if val else x.lo
                if y is FALSE:
                    continue
                f = facts.copy()
                f.add_lit(v, val)
                if f.copy().close().infeasible():
                    continue
                rb = Rebuild(lits={v: val})
                if not rec(rb.cond(y), f, {**lits, v: val}):
                    return False
            return True
        return rec(c_and(self.assume, x), self.base, {})

    def cond_implied(self, c):
        return self.cond_equal(c_and(self.assume, c), self.assume)


# --------------------------------------------------------------------------- printing
_PRINT = [0, 0]      # nesting of the printing functions; pieces the outermost one may still print


def _limited(f):
    def g(*a, **k):
        if _PRINT[0] == 0:
            _PRINT[1] = 2000
        elif _PRINT[1] <= 0:
            return '...'
        _PRINT[0] += 1
        _PRINT[1] -= 1
        try:
            return f(*a, **k)
        finally:
            _PRINT[0] -= 1
    return g


@_limited
def show(t, depth=4):
    def sm(m):
        return '*'.join((sa(a) + (f'**{e}' if e != 1 else '')) for a, e in m)

    def sa(a):
        k = _ATOMS[a]
        if k[0] == 'sym':
            return k[1]
        if k[0] == 'inf':
            return 'inf'
        if k[0] == 'nan':
            return 'nan'
        if k[0] == 'pi':
            return 'pi'
        if depth <= 0:
            return '...'
        if k[0] == 'fn':
            return f"{k[1]}({', '.join(show(x, depth - 1) for x in k[2])})"
        if k[0] == 'ite':
            return f"[{show_cond(k[1], depth - 1)} ? {show(k[2], depth - 1)} : {show(k[3], depth - 1)}]"
        if k[0] == 'sel':
            return f"table{k[2]}[{', '.join(show(x, depth - 1) for x in k[3])}]"
        if k[0] == 'flow':
            return f"{k[6]}<{k[1]}>({show(k[3], depth - 1)}->{show(k[4], depth - 1)})"
        return str(k[0])

    def sp(p):
        if not p.d:
            return '0'
        out = []
        items = sorted(p.d.items(), key=lambda x: _mono_order(x[0]), reverse=True)
        for i, (m, c) in enumerate(items[:14]):
            s = sm(m)
            cs = _fs(c)
            if s and c == 1:
                x = s
            elif s and c == -1:
                x = '-' + s
            else:
                x = cs + ('*' + s if s else '')
            out.append(x)
        r = ' + '.join(out).replace('+ -', '- ')
        if len(items) > 14:
            r += f' + <{len(items) - 14} more terms>'
        return r
    n = sp(t.num)
    if t.den.const() == 1:
        return n
    return f'({n})/({sp(t.den)})'


def _fs(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    if Fraction(repr(f)) == c:
        return repr(f)
    return f'{c.numerator}/{c.denominator}'


@_limited
def show_lit(v, val=True, depth=3):
    k = _LITS[v]
    if k[0] == 'lt':
        return f"{show(k[1], depth)} {'<' if val else '>='} 0"
    if k[0] == 'eq':
        return f"{show(k[1], depth)} {'==' if val else '!='} 0"
    s = f"{k[1]}({', '.join(show(x, depth) if isinstance(x, Term) else str(x) for x in k[2])})" if k[0] == 'pred' else str(k)
    return s if val else f'not {s}'


@_limited
def show_cond(c, depth=3):
    if c is TRUE:
        return 'True'
    if c is FALSE:
        return 'False'
    if c.hi is TRUE and c.lo is FALSE:
        return show_lit(c.v, True, depth)
    if c.hi is FALSE and c.lo is TRUE:
        return show_lit(c.v, False, depth)
    if c.lo is FALSE:
        return f'{show_lit(c.v, True, depth)} and {show_cond(c.hi, depth)}'
    if c.hi is FALSE:
        return f'{show_lit(c.v, False, depth)} and {show_cond(c.lo, depth)}'
    if c.hi is TRUE:
        return f'({show_lit(c.v, True, depth)} or {show_cond(c.lo, depth)})'
    if c.lo is TRUE:
        return f'({show_lit(c.v, False, depth)} or {show_cond(c.hi, depth)})'
    return f'({show_lit(c.v, True, depth)} ? {show_cond(c.hi, depth)} : {show_cond(c.lo, depth)})'


@_limited
def show_lits(lits):
    return ' and '.join(show_lit(v, val) for v, val in lits.items()) or 'always'
