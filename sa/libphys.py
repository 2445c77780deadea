"""Models of pint (dimensions and scale factors), scipy Rotation and the ODE solvers."""
from __future__ import annotations

import ast
import re
from fractions import Fraction

from . import terms as tm
from . import npmodel as nm
from .npmodel import as_term
from .terms import T, TRUE, FALSE, c_and, c_or, c_not
from .values import *

PI = tm.PI


# ====================================================================== pint
def _u(dims, scale):
    return (tuple(sorted((k, v) for k, v in dims.items() if v)), T(scale))


BASE = {
    'meter': _u({'L': 1}, 1), 'second': _u({'T': 1}, 1), 'gram': _u({'M': 1}, Fraction(1, 1000)), 'radian': _u({}, 1), 'dimensionless': _u({}, 1),
    'degree': _u({}, PI / T(180)), 'turn': _u({}, PI * T(2)), 'arcminute': _u({}, PI / T(10800)), 'arcsecond': _u({}, PI / T(648000)),
    'minute': _u({'T': 1}, 60), 'hour': _u({'T': 1}, 3600), 'day': _u({'T': 1}, 86400), 'week': _u({'T': 1}, 604800),
    'foot': _u({'L': 1}, Fraction(3048, 10000)), 'inch': _u({'L': 1}, Fraction(254, 10000)), 'yard': _u({'L': 1}, Fraction(9144, 10000)),
    'mile': _u({'L': 1}, Fraction(1609344, 1000)), 'nautical_mile': _u({'L': 1}, 1852),
    'knot': _u({'L': 1, 'T': -1}, Fraction(1852, 3600)),
    'newton': _u({'M': 1, 'L': 1, 'T': -2}, 1), 'joule': _u({'M': 1, 'L': 2, 'T': -2}, 1), 'watt': _u({'M': 1, 'L': 2, 'T': -3}, 1),
    'hertz': _u({'T': -1}, 1), 'kelvin': _u({'K': 1}, 1), 'ampere': _u({'I': 1}, 1), 'mole': _u({'N': 1}, 1), 'candela': _u({'J': 1}, 1),
    'revolutions_per_minute': _u({'T': -1}, PI / T(30)), 'mile_per_hour': _u({'L': 1, 'T': -1}, Fraction(1609344, 3600000)),
    'pound': _u({'M': 1}, Fraction(45359237, 100000000)), 'astronomical_unit': _u({'L': 1}, 149597870700), 'light_year': _u({'L': 1}, 9460730472580800),
    'slug': _u({'M': 1}, Fraction('14.59390293720636')), 'pound_force': _u({'M': 1, 'L': 1, 'T': -2}, Fraction('4.4482216152605')),
    'pascal': _u({'M': 1, 'L': -1, 'T': -2}, 1), 'standard_gravity': _u({'L': 1, 'T': -2}, Fraction('9.80665')),
}
ALIAS = {
    'm': 'meter', 'metre': 'meter', 's': 'second', 'sec': 'second', 'g': 'gram', 'rad': 'radian', 'deg': 'degree', 'min': 'minute', 'h': 'hour',
    'hr': 'hour', 'd': 'day', 'ft': 'foot', 'feet': 'foot', 'in': 'inch', 'inches': 'inch', 'yd': 'yard', 'mi': 'mile', 'nmi': 'nautical_mile',
    'kt': 'knot', 'N': 'newton', 'J': 'joule', 'W': 'watt', 'Hz': 'hertz', 'K': 'kelvin', 'A': 'ampere', 'rpm': 'revolutions_per_minute',
    'revolution': 'turn', 'cycle': 'turn', 'arcmin': 'arcminute', 'arcsec': 'arcsecond', 'mph': 'mile_per_hour', 'lb': 'pound', 'au': 'astronomical_unit',
    'ly': 'light_year', 'lbf': 'pound_force', 'force_pound': 'pound_force', 'g_0': 'standard_gravity', '': 'dimensionless', 'Pa': 'pascal', 'hertz': 'hertz', 'rev': 'turn',
}
PREFIX = {
    'kilo': 3, 'k': 3, 'centi': -2, 'c': -2, 'milli': -3, 'm': -3, 'micro': -6, 'u': -6, 'nano': -9, 'n': -9, 'mega': 6, 'M': 6, 'giga': 9, 'G': 9,
    'deci': -1, 'hecto': 2, 'pico': -12, 'tera': 12, 'T': 12,
}


def base_unit(name):
    if name in BASE:
        return BASE[name]
    if name in ALIAS:
        return BASE[ALIAS[name]]
    if name.endswith('s') and len(name) > 2:
        r = base_unit(name[:-1])
        if r is not None:
            return r
    for p, e in PREFIX.items():
        if name.startswith(p) and len(name) > len(p):
            rest = name[len(p):]
            if len(p) <= 1:
                if rest in ALIAS and rest not in ('min', 'hr', 'deg', 'in'):
                    r = BASE[ALIAS[rest]]
                else:
                    continue
            else:
                r = base_unit(rest)
            if r is not None:
                return (r[0], r[1] * T(Fraction(10) ** e))
    return None


def u_mul(a, b, sgn=1):
    d = dict(a[0])
    for k, v in b[0]:
        d[k] = d.get(k, 0) + sgn * v
    return (tuple(sorted((k, v) for k, v in d.items() if v)), a[1] * b[1] if sgn > 0 else a[1] / b[1])


def u_pow(a, n):
    f = Fraction(n)
    return (tuple(sorted((k, v * f) for k, v in a[0] if v * f)), tm.fn('pow', a[1], T(f)))


def known_unit(name):
    """pint's default registry defines a unit of this name"""
    from .pintnames import UNITS, PREFIXES
    for n in {name, name[:-1] if name.endswith('s') else name}:
        if n in UNITS or any(n.startswith(p) and n[len(p):] in UNITS for p in PREFIXES):
            return True
    return False


def parse_unit(s):
    """unit expression -> (dims, scale) or None"""
    s = s.strip().replace('^', '**').replace(' per ', '/')
    if not s:
        return BASE['dimensionless']
    try:
        e = ast.parse(s.replace(' ** ', '**'), mode='eval').body
    except SyntaxError:
        try:
            e = ast.parse('*'.join(s.split()), mode='eval').body
        except SyntaxError:
            return None

    def ev(n):
        if isinstance(n, ast.Name):
            r = base_unit(n.id)
            if r is None and known_unit(n.id):
                raise Unsupported(f"pint unit '{n.id}'")
            return r
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            return ((), T(n.value))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            r = ev(n.operand)
            return None if r is None else (r[0], -r[1])
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            if a is None or b is None:
                return None
            if isinstance(n.op, ast.Mult):
                return u_mul(a, b)
            if isinstance(n.op, ast.Div):
                return u_mul(a, b, -1)
            if isinstance(n.op, ast.Pow):
                c = b[1].const()
                return None if c is None or b[0] else u_pow(a, c)
        return None
    return ev(e)


class Pint:
    def __init__(self, it, ext):
        self.it, self.ext = it, ext
        b = it.builtins
        mk = lambda n, bases, **kw: VClass(n, bases, native=n, **kw)
        exc = b['Exception'].meta['construct_sub'] if 'construct_sub' in b['Exception'].meta else b['BaseException'].meta['construct_sub']

        def ex(n, *bases):
            c = mk(n, list(bases))
            c.meta['construct_sub'] = exc
            return c
        self.PintError = ex('PintError', b['Exception'])
        self.PintTypeError = ex('PintTypeError', self.PintError, b['TypeError'])
        self.DimensionalityError = ex('DimensionalityError', self.PintTypeError)
        self.OffsetError = ex('OffsetUnitCalculusError', self.PintTypeError)
        self.UndefinedUnitError = ex('UndefinedUnitError', b['AttributeError'], self.PintError)
        self.Unit = mk('Unit', [b['object']], construct=lambda i, c, a, k: self.unit(a[0]))
        self.Quantity = mk('Quantity', [b['object']], construct=lambda i, c, a, k: self.quantity(*a, **k))
        self.Registry = mk('UnitRegistry', [b['object']], construct=self.new_registry)
        self.nreg, self.rcls = 0, {}
        self.ureg = VNative('ureg')
        self.errors = VExtModule('pint.errors', lambda n: {
            'DimensionalityError': self.DimensionalityError, 'UndefinedUnitError': self.UndefinedUnitError, 'PintError': self.PintError,
            'PintTypeError': self.PintTypeError, 'OffsetUnitCalculusError': self.OffsetError}.get(n))
        self.typing = VExtModule('pint._typing', lambda n: VNative('typing', name=n))
        ns = {
            'Unit': self.Unit, 'Quantity': self.Quantity, 'UnitRegistry': self.Registry, 'errors': self.errors, '_typing': self.typing,
            'DimensionalityError': self.DimensionalityError, 'UndefinedUnitError': self.UndefinedUnitError, 'PintError': self.PintError,
            'get_application_registry': VBuiltin('pint.get_application_registry', lambda i, a, k: self.ureg),
            'set_application_registry': VBuiltin('pint.set_application_registry', self.set_registry),
            'application_registry': self.ureg,
        }
        self.module = VExtModule('pint', lambda n: ns.get(n))

    def new_registry(self, i, c, a, k):
        if a or k:
            raise Unsupported('UnitRegistry with arguments', self.it.where())
        self.nreg += 1
        return VNative('ureg', reg=self.nreg)

    def set_registry(self, i, a, k):
        raise Unsupported('pint.set_application_registry', self.it.where())

    def regcls(self, reg, kind):
        """the Quantity or Unit class of a registry"""
        if reg is None:
            return self.Quantity if kind == 'quantity' else self.Unit
        c = self.rcls.get((reg, kind))
        if c is None:
            if kind == 'quantity':
                c = VClass('Quantity', [self.Quantity], native='Quantity', construct=lambda i, c, a, k: self.quantity(*a, **{**k, 'reg': reg}))
            else:
                c = VClass('Unit', [self.Unit], native='Unit', construct=lambda i, c, a, k: self.unit(a[0], reg))
            self.rcls[(reg, kind)] = c
        return c

    def mku(self, u, reg=None):
        return VNative('unit', u=u, reg=reg) if reg is not None else VNative('unit', u=u)

    @staticmethod
    def reg(v):
        """the registry of a unit or quantity (None: the application registry)"""
        if v.kind == 'quantity':
            v = v.d['u']
        return v.d.get('reg')

    def same_reg(self, *vs):
        rs = {self.reg(v) for v in vs if isinstance(v, VNative) and v.kind in ('unit', 'quantity')}
        if len(rs) > 1:
            self.it.raise_('ValueError', 'Cannot operate with quantities or units of different registries')
        return rs.pop() if rs else None

    def unit(self, v, reg=None):
        it = self.it
        v = it.res(v)
        if isinstance(v, VNative) and v.kind in ('unit', 'quantity'):
            u = v if v.kind == 'unit' else v.d['u']
            # a unit of another registry is taken over by its dimensions
            return u if self.reg(v) == reg else self.mku(u.d['u'], reg)
        if isinstance(v, str):
            u = parse_unit(v)
            if u is None:
                it.raise_(self.UndefinedUnitError, f"'{v}' is not defined in the unit registry")
            return self.mku(u, reg)
        if isinstance(v, VOpaque):
            raise Unsupported('unit from an unknown string', it.where())
        it.raise_('TypeError', 'Unit needs a string or Unit')

    def expr(self, s, reg=None):
        """a quantity from a string: an optional number and a unit expression"""
        it = self.it
        s = it.res(s)
        if not isinstance(s, str):
            raise Unsupported('quantity from a string', it.where())
        m = re.fullmatch(r'\s*([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)?\s*\*?\s*([A-Za-z_].*)?', s)
        if m is None:
            raise Unsupported('quantity from a string', it.where())
        x = m.group(1)
        v = VNum(T(Fraction(x)), 'int' if re.fullmatch(r'[-+]?\d+', x) else 'float') if x else I(1)
        return VNative('quantity', m=v, u=self.unit(m.group(2) or '', reg))

    def quantity(self, value, units=None, reg=None, **k):
        it = self.it
        value = it.res(value)
        if isinstance(value, VNative) and value.kind == 'quantity':
            if self.reg(value) != reg:
                raise Unsupported('quantity of another registry', it.where())
            if units is None:
                return value
            return self.to(value, self.unit(units, reg))
        if isinstance(value, str):
            q = self.expr(value, reg)
            return q if units is None else self.to(q, self.unit(units, reg))
        if isinstance(value, VNative) and value.kind == 'unit':
            return VNative('quantity', m=I(1), u=value)
        if isinstance(value, (VRef, VTuple)):
            value = nm.array_of(it, value)
        u = self.unit(units, reg) if units is not None else self.mku(BASE['dimensionless'], reg)
        return VNative('quantity', m=value, u=u)

    def scale(self, m, f):
        """magnitude times a conversion factor"""
        it = self.it
        if f == tm.ONE:
            return m
        return it.binop('Mult', m, VNum(f, 'float'))

    def to(self, q, u):
        it = self.it
        self.same_reg(q, u)
        if q.d['u'].d['u'][0] != u.d['u'][0]:
            it.raise_(self.DimensionalityError, 'Cannot convert units')
        f = q.d['u'].d['u'][1] / u.d['u'][1]
        return VNative('quantity', m=self.scale(it.res(q.d['m']), f), u=u)

    def to_dimensionless(self, it, q):
        if q.d['u'].d['u'][0]:
            it.raise_(self.DimensionalityError, 'Cannot convert to dimensionless')
        return self.to(q, self.mku(BASE['dimensionless'], self.reg(q))).d['m']

    def attr(self, o, name):
        it = self.it
        if o.kind == 'ureg':
            reg = o.d.get('reg')
            if name == 'Quantity':
                if reg is None:
                    return self.Quantity
                return self.regcls(reg, 'quantity')
            if name == 'Unit':
                if reg is None:
                    return self.Unit
                return self.regcls(reg, 'unit')
            if name == 'parse_units':
                return VBuiltin(name, lambda i, a, k: self.unit(a[0], reg))
            if name == 'parse_expression':
                return VBuiltin(name, lambda i, a, k: self.expr(a[0], reg))
            if name == '__call__':
                return VBuiltin(name, lambda i, a, k: self.expr(a[0], reg))
            if name in ('setup_matplotlib',):
                return VBuiltin(name, lambda i, a, k: None)
            if name.startswith('__') or name in UREG:
                raise Unsupported(f'UnitRegistry.{name}', it.where())
            u = parse_unit(name) if name.isidentifier() else None
            if u is None:
                it.raise_(self.UndefinedUnitError, f"'{name}' is not defined in the unit registry")
            return self.mku(u, reg)
        if o.kind == 'unit':
            if name == 'dimensionless':
                return B(not o.d['u'][0])
            if name == 'dimensionality':
                return VTuple([VTuple((k, I(int(v)))) for k, v in o.d['u'][0]])
            if name == 'is_compatible_with':
                return VBuiltin(name, lambda i, a, k: B(self.unit(a[0], self.reg(o)).d['u'][0] == o.d['u'][0]))
            return NotImplemented
        q = o
        ru = lambda v: self.unit(v, self.reg(q))
        if name in ('magnitude', 'm'):
            return q.d['m']
        if name in ('units', 'u'):
            return q.d['u']
        if name == 'to':
            return VBuiltin('Quantity.to', lambda i, a, k: self.to(q, ru(a[0])))
        if name in ('m_as',):
            return VBuiltin('Quantity.m_as', lambda i, a, k: self.to(q, ru(a[0])).d['m'])
        if name in ('to_base_units', 'to_root_units'):
            return VBuiltin(name, lambda i, a, k: self.to(q, self.mku((q.d['u'].d['u'][0], tm.ONE), self.reg(q))))
        if name == 'dimensionality':
            return self.attr(q.d['u'], 'dimensionality')
        if name == 'dimensionless':
            return B(not q.d['u'].d['u'][0])
        if name == 'is_compatible_with':
            return VBuiltin(name, lambda i, a, k: B(ru(a[0]).d['u'][0] == q.d['u'].d['u'][0]))
        if name in ('_REGISTRY',):
            return self.ureg if self.reg(q) is None else VNative('ureg', reg=self.reg(q))
        return NotImplemented

    def binop(self, op, a, b):
        it = self.it
        isq = lambda v: isinstance(v, VNative) and v.kind == 'quantity'
        isu = lambda v: isinstance(v, VNative) and v.kind == 'unit'
        reg = self.same_reg(a, b)
        if op in ('Mult', 'Div'):
            s = 1 if op == 'Mult' else -1
            if isu(a) and isu(b):
                return self.mku(u_mul(a.d['u'], b.d['u'], s), reg)
            one = BASE['dimensionless']
            ma, ua = (a.d['m'], a.d['u'].d['u']) if isq(a) else ((None, a.d['u']) if isu(a) else (a, one))
            mb, ub = (b.d['m'], b.d['u'].d['u']) if isq(b) else ((None, b.d['u']) if isu(b) else (b, one))
            if isinstance(ma, (VRef, VTuple)):
                ma = nm.array_of(it, ma)
            if isinstance(mb, (VRef, VTuple)):
                mb = nm.array_of(it, mb)
            if mb is None:
                m = ma
            elif ma is None:
                m = mb if op == 'Mult' else it.binop('Div', I(1), mb)
            else:
                m = it.binop(op, ma, mb)
            return VNative('quantity', m=m, u=self.mku(u_mul(ua, ub, s), reg))
        if op == 'Pow':
            if isq(b) or isu(b):
                raise Unsupported('power of a quantity', it.where())
            n = as_term(nm.opnd_t(it, b).c[0]).const()
            if n is None:
                raise Unsupported('quantity to a symbolic power')
            if isu(a):
                return self.mku(u_pow(a.d['u'], n), reg)
            return VNative('quantity', m=it.binop('Pow', a.d['m'], b), u=self.mku(u_pow(a.d['u'].d['u'], n), reg))
        if op in ('Add', 'Sub', 'Mod', 'FloorDiv'):
            one = self.mku(BASE['dimensionless'], reg)
            qa = a if isq(a) else VNative('quantity', m=a, u=one)
            qb = b if isq(b) else VNative('quantity', m=b, u=one)
            if isu(a) or isu(b):
                it.raise_('TypeError', 'unsupported operand for Unit')
            qb = self.to(qb, qa.d['u'])
            return VNative('quantity', m=it.binop(op, qa.d['m'], qb.d['m']), u=one if op == 'FloorDiv' else qa.d['u'])
        raise Unsupported(f'quantity operator {op}')

    def compare(self, op, a, b):
        it = self.it
        isq = lambda v: isinstance(v, VNative) and v.kind == 'quantity'
        if isinstance(a, VNative) and a.kind == 'unit':
            same = isinstance(b, VNative) and b.kind == 'unit' and a.d['u'] == b.d['u']
            if op in ('Eq', 'NotEq'):
                if isinstance(b, (str, VNative)) and not (isinstance(b, VNative) and b.kind == 'unit') or self.reg(a) is not None:
                    raise Unsupported('comparison of a unit', it.where())
                return B(same == (op == 'Eq'))
        reg = self.same_reg(a, b)
        one = self.mku(BASE['dimensionless'], reg)
        qa = a if isq(a) else VNative('quantity', m=a, u=one)
        qb = b if isq(b) else VNative('quantity', m=b, u=one)
        if qa.d['u'].d['u'][0] != qb.d['u'].d['u'][0]:
            if op in ('Eq', 'NotEq'):
                return B(op == 'NotEq')
        qb = self.to(qb, qa.d['u'])
        return it.compare(op, qa.d['m'], qb.d['m'])


UREG = set('''Context Group Measurement System UnitsContainer add_context autoconvert_offset_to_baseunit auto_reduce_dimensions cache_folder case_sensitive
check convert default_as_delta default_format default_preferred_units default_system define disable_contexts enable_contexts fmt_locale formatter
force_ndarray force_ndarray_like get_base_units get_compatible_units get_dimensionality get_group get_name get_root_units get_symbol get_system
is_compatible_with load_definitions mpl_formatter non_int_type parse_pattern parse_single_unit parse_unit_name parse_units_as_container pi_theorem
preprocessors remove_context separate_format_defaults set_fmt_locale sys with_context wraps default_locale'''.split())


# ====================================================================== Rotation
def q_mul(p, q):
    """Hamilton product, scalar last"""
    x1, y1, z1, w1 = p
    x2, y2, z2, w2 = q
    return (w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
            w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2,
            w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2,
            w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2)


def m_mul(a, b):
    return tuple(sum((a[3 * i + k] * b[3 * k + j] for k in range(1, 3)), a[3 * i] * b[j]) for i in range(3) for j in range(3))


def m_T(a):
    return tuple(a[3 * j + i] for i in range(3) for j in range(3))


def axis_mat(ax, t):
    s, c = tm.fn('sin', t), tm.fn('cos', t)
    o, z = tm.ONE, tm.ZERO
    return {'x': (o, z, z, z, c, -s, z, s, c), 'y': (c, z, s, z, o, z, -s, z, c), 'z': (c, -s, z, s, c, z, z, z, o)}[ax]


def axis_quat(ax, t):
    s, c = tm.fn('sin', t / T(2)), tm.fn('cos', t / T(2))
    z = tm.ZERO
    return {'x': (s, z, z, c), 'y': (z, s, z, c), 'z': (z, z, s, c)}[ax]


def quat_mat(q):
    x, y, z, w = q
    n = x * x + y * y + z * z + w * w
    two = T(2)
    return tuple(e / n for e in (
        x * x - y * y - z * z + w * w, two * (x * y - z * w), two * (x * z + y * w),
        two * (x * y + z * w), -(x * x) + y * y - z * z + w * w, two * (y * z - x * w),
        two * (x * z - y * w), two * (y * z + x * w), -(x * x) - y * y + z * z + w * w))


class Rot:
    def __init__(self, it, ext):
        self.it, self.ext = it, ext
        c = VClass('Rotation', [it.builtins['object']], native='Rotation', construct=self.ctor)
        self.cls = c
        sm = lambda n, f: c.nmethods.__setitem__(n, VStatic(VBuiltin('Rotation.' + n, lambda i, a, k: f(a, k))))
        sm('from_quat', self.from_quat)
        sm('from_euler', self.from_euler)
        sm('from_matrix', self.from_matrix)
        sm('from_rotvec', self.from_rotvec)
        sm('identity', lambda a, k: self.mk((tm.ZERO, tm.ZERO, tm.ZERO, tm.ONE)))
        sm('random', lambda a, k: self.unsup('random'))

    def unsup(self, n):
        raise Unsupported(f'Rotation.{n}', self.it.where())

    def ctor(self, i, c, a, k):
        return self.from_quat(a, k)

    def mk(self, quat=None, mat=None):
        if mat is None:
            mat = quat_mat(quat)
        return VNative('rotation', mat=mat, quat=quat)

    def from_quat(self, a, k):
        it = self.it
        o = nm.opnd_t(it, a[0] if a else k['quat'])
        if o.jx == 'traced':
            it.event('concretize', what='Rotation built from a traced value')
            it.raise_('TypeError', 'TracerArrayConversionError')
        if o.shape != (4,):
            if o.shape == (1, 4):
                self.unsup('stack of rotations')
            it.raise_('ValueError', 'Expected `quat` to have shape (4,) or (N, 4)')
        q = tuple(as_term(c) for c in o.c)
        if 'scalar_first' in k:
            it.raise_('TypeError', "unexpected keyword argument 'scalar_first'")
        n = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]

        def bad():
            it.raise_('ValueError', 'Found zero norm quaternions in `quat`.')
        it.branch(tm.eq0(n), bad, lambda: None)
        s = tm.fn('sqrt', n)
        return VNative('rotation', mat=quat_mat(q), quat=tuple(x / s for x in q))

    def from_euler(self, a, k):
        it = self.it
        seq = it.res(a[0] if a else k['seq'])
        ang = a[1] if len(a) > 1 else k['angles']
        dv = a[2] if len(a) > 2 else k.get('degrees')
        deg = dv is not None and it.decide(it.truth(dv)) is TRUE
        if not isinstance(seq, str):
            self.unsup('sequence')
        o = nm.opnd_t(it, ang)
        if o.jx == 'traced':
            it.event('concretize', what='Rotation built from a traced value')
            it.raise_('TypeError', 'TracerArrayConversionError')
        ts = [as_term(c) for c in o.c]
        if len(o.shape) > 1:
            self.unsup('stack of rotations')
        if len(ts) != len(seq):
            if len(seq) == 1:
                self.unsup('stack of rotations')
            it.raise_('ValueError', 'Expected `angles` to match the axis sequence')
        if not (seq.islower() or seq.isupper()) or any(c not in 'xyz' for c in seq.lower()):
            it.raise_('ValueError', 'Expected axes to be from the set')
        if deg:
            ts = [t * PI / T(180) for t in ts]
        mat = quat = None
        for ax, t in zip(seq.lower(), ts):
            m, q = axis_mat(ax, t), axis_quat(ax, t)
            if mat is None:
                mat, quat = m, q
            elif seq.isupper():
                mat, quat = m_mul(mat, m), q_mul(quat, q)
            else:
                mat, quat = m_mul(m, mat), q_mul(q, quat)
        return self.mk(quat, mat)

    def from_matrix(self, a, k):
        it = self.it
        o = nm.opnd_t(it, a[0])
        if o.shape != (3, 3):
            it.raise_('ValueError', 'Expected `matrix` to have shape (3, 3)')
        return self.mk(None, tuple(as_term(c) for c in o.c))

    def from_rotvec(self, a, k):
        it = self.it
        o = nm.opnd_t(it, a[0])
        v = [as_term(c) for c in o.c]
        nz = [i for i in range(3) if not v[i].is_zero()]
        if not nz:
            return self.mk((tm.ZERO, tm.ZERO, tm.ZERO, tm.ONE))
        if len(nz) == 1:
            ax = 'xyz'[nz[0]]
            return self.mk(axis_quat(ax, v[nz[0]]), axis_mat(ax, v[nz[0]]))
        self.unsup('from_rotvec about a general axis')

    def quat(self, r):
        if r.d['quat'] is not None:
            return r.d['quat']
        m = r.d['mat']
        return tuple(tm.fn(f'quat{i}', *m) for i in range(4))

    def apply(self, r, v, inverse=False):
        it = self.it
        o = nm.opnd_t(it, v)
        m = r.d['mat']
        if inverse:
            m = m_T(m)
        if o.shape == (3,):
            x = [as_term(c) for c in o.c]
            return it.mkarr([m[3 * i] * x[0] + m[3 * i + 1] * x[1] + m[3 * i + 2] * x[2] for i in range(3)], (3,), 'float64')
        if len(o.shape) == 2 and o.shape[1] == 3:
            out = []
            for r_ in range(o.shape[0]):
                x = [as_term(c) for c in o.c[3 * r_:3 * r_ + 3]]
                out += [m[3 * i] * x[0] + m[3 * i + 1] * x[1] + m[3 * i + 2] * x[2] for i in range(3)]
            return it.mkarr(out, o.shape, 'float64')
        it.raise_('ValueError', 'Expected input of shape (3,) or (P, 3)')

    def attr(self, r, name):
        it = self.it
        bi = lambda f: VBuiltin('Rotation.' + name, lambda i, a, k: f(a, k))
        if name == 'as_quat':
            def f(a, k):
                q = self.quat(r)
                c = a[0] if a else k.get('canonical')
                if c is not None and it.decide(it.truth(c)) is not FALSE:
                    neg = tm.lt0(q[3])
                    q = tuple(tm.ite(neg, -x, x) for x in q)
                return it.mkarr(q, (4,), 'float64')
            return bi(f)
        if name in ('as_matrix', 'as_dcm'):
            return bi(lambda a, k: it.mkarr(r.d['mat'], (3, 3), 'float64'))
        if name == 'as_euler':
            def f(a, k):
                seq = it.res(a[0])
                dv = a[1] if len(a) > 1 else k.get('degrees')
                deg = dv is not None and it.decide(it.truth(dv)) is TRUE
                out = [tm.fn(f'euler_{seq}_{i}', *r.d['mat']) for i in range(3)]
                if deg:
                    out = [x * T(180) / PI for x in out]
                return it.mkarr(out, (3,), 'float64')
            return bi(f)
        if name == 'as_rotvec':
            return bi(lambda a, k: it.mkarr([tm.fn(f'rotvec{i}', *r.d['mat']) for i in range(3)], (3,), 'float64'))
        if name == 'magnitude':
            return bi(lambda a, k: VNum(tm.fn('rotmag', *r.d['mat']), 'float', 'float64'))
        if name == 'inv':
            def f(a, k):
                q = self.quat(r)
                return VNative('rotation', mat=m_T(r.d['mat']), quat=(-q[0], -q[1], -q[2], q[3]) if r.d['quat'] is not None else None)
            return bi(f)
        if name == 'apply':
            def f(a, k):
                inv = a[1] if len(a) > 1 else k.get('inverse')
                return self.apply(r, a[0], inv is not None and it.decide(it.truth(inv)) is TRUE)
            return bi(f)
        if name == 'single':
            return B(True)
        return NotImplemented

    def mul(self, a, b):
        qa, qb = a.d['quat'], b.d['quat']
        return VNative('rotation', mat=m_mul(a.d['mat'], b.d['mat']), quat=q_mul(qa, qb) if qa is not None and qb is not None else None)


# ====================================================================== ODE solvers
def ysyms(n):
    return [tm.sym(f'$y{i}') for i in range(n)], tm.sym('$t')


def derivative(it, fun, args, n, t_first, traced, dt='float64'):
    ys, t = ysyms(n)
    y = it.mkarr(ys, (n,), dt, 'traced' if traced else None)
    tv = VNum(t, 'float', None if not traced else 'float64', 'traced' if traced else None)
    it.event('integrand_begin')
    r = it.call(fun, ([tv, y] if t_first else [y, tv]) + list(args), {})
    o = nm.opnd_t(it, r)
    it.event('integrand_end')
    if len(o.c) != n:
        it.raise_('ValueError', f'derivative of size {len(o.c)} for a state of size {n}')
    if o.dt == 'int64':
        pass
    return tuple(as_term(c) for c in o.c)


def bad_kw(it, name, k, known):
    for x in k:
        if x not in known:
            it.raise_('TypeError', f"{name}() got an unexpected keyword argument '{x}'")


def solve_ivp(it, ext, a, k):
    names = ['fun', 't_span', 'y0', 'method', 't_eval', 'dense_output', 'events', 'vectorized', 'args']
    d = dict(zip(names, a))
    d.update(k)
    fun = d['fun']
    span = [it.res(x) for x in it.iterate(d['t_span'])]
    if len(span) != 2:
        it.raise_('ValueError', 't_span must have two elements')
    t0, t1 = [as_term(nm.opnd_t(it, x).c[0]) for x in span]
    y0 = nm.opnd_t(it, d['y0'])
    if y0.jx == 'traced':
        it.event('concretize', what='scipy integration of a traced value')
    if len(y0.shape) != 1:
        it.raise_('ValueError', '`y0` must be 1-dimensional.')
    n = len(y0.c)
    args = it.res(d.get('args'))
    if args is not None:
        args = it.iterate(args)
    m = it.res(d.get('method', 'RK45'))
    if isinstance(m, str) and m not in ('RK45', 'RK23', 'DOP853', 'Radau', 'BDF', 'LSODA'):
        it.raise_('ValueError', f'`method` must be one of ...')
    der = derivative(it, fun, args or [], n, True, False)
    y0c = tuple(as_term(c) for c in y0.c)
    it.event('solve_ivp', t0=t0, t1=t1, der=der, y0=y0c, args=args)
    te = it.res(d.get('t_eval'))
    if d.get('events') is not None and it.res(d['events']) is not None:
        raise Unsupported('solve_ivp events', it.where())
    succ = tm.c_lit(('pred', 'ivp_success', der + (t0, t1) + y0c))

    def at(t):
        return [c if t == t0 else tm.flow(i, der, t0, t, y0c) for i, c in enumerate(y0c)]
    tf = tm.sym('$tfail')
    mids = [t0 + (t1 - t0) * tm.sym(f'$mid{i}') for i in range(2)]

    def result(times, ok):
        cols = [at(t) for t in times]
        y = it.mkarr([cols[j][i] for i in range(n) for j in range(len(times))], (n, len(times)), 'float64')
        ts = it.mkarr(list(times), (len(times),), 'float64')
        sol = None
        if d.get('dense_output') is not None and it.decide(it.truth(d['dense_output'])) is TRUE:
            sol = VBuiltin('OdeSolution', lambda i, b, kk: dense(b[0]))

        def dense(tv):
            o = nm.opnd_t(it, tv)
            cs = [at(as_term(c)) for c in o.c]
            if o.shape == ():
                return it.mkarr(cs[0], (n,), 'float64')
            return it.mkarr([cs[j][i] for i in range(n) for j in range(len(cs))], (n, len(cs)), 'float64')
        return it.new(HInst(ext.OdeResult, {
            'y': y, 't': ts, 'success': VBool(succ), 'status': VNum(tm.ite(succ, T(0), T(-1)), 'int'), 'message': VOpaque('str'), 'nfev': VNum(tm.sym('$nfev', 'int'), 'int'),
            'njev': I(0), 'nlu': I(0), 'sol': sol, 't_events': None, 'y_events': None}))
    if te is not None:
        tev = [as_term(c) for c in nm.opnd_t(it, te).c]
        return it.branch(succ, lambda: result(tev, True), lambda: result([tf], False))
    return result([t0] + mids + [tm.ite(succ, t1, tf)], True) if False else \
        it.branch(succ, lambda: result([t0] + mids + [t1], True), lambda: result([t0] + mids + [tf], False))


def odeint(it, ext, a, k):
    fun, y0v, tv = a[0], a[1], a[2]
    args = a[3:]
    bad_kw(it, 'odeint', k, ('rtol', 'atol', 'mxstep', 'hmax'))
    y0 = nm.opnd_t(it, y0v)
    ts = nm.opnd_t(it, tv)
    if len(y0.shape) != 1 or len(ts.shape) != 1:
        raise Unsupported('odeint on a pytree', it.where())
    n = len(y0.c)
    targs = []
    for x in args:
        x = it.res(x)
        if isinstance(x, VArr):
            targs.append(it.mkarr(it.cells(x), x.shape, x.dt, 'traced'))
        elif isinstance(x, VNum):
            targs.append(VNum(x.t, x.k, x.np or 'float64', 'traced'))
        else:
            targs.append(x)
    der = derivative(it, fun, targs, n, False, True, y0.dt)
    y0c = tuple(as_term(c) for c in y0.c)
    times = [as_term(c) for c in ts.c]
    it.event('odeint', times=times, der=der, y0=y0c, args=args)
    t0 = times[0]
    cells = [c if t == t0 else tm.flow(i, der, t0, t, y0c) for t in times for i, c in enumerate(y0c)]
    return it.mkarr(cells, (len(times), n), y0.dt if y0.dt != 'int64' else 'float64', nm.jmax('jax', y0.jx))
