"""Which attributes the modelled built-in and library types have (names only): an attribute the analyser does not model may only be reported
as absent (AttributeError) when the type is known not to have it."""
from __future__ import annotations

import collections
import types

from .values import *

OBJ = set(dir(object)) | {'__module__', '__weakref__', '__annotations__', '__dict__', '__abstractmethods__', '__slots__'}
ND = set('T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data '
         'diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero '
         'partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum '
         'swapaxes take tobytes tofile tolist tostring trace transpose var view'.split())
MAT = set('A A1 H I getA getA1 getH getI getT'.split())
NPSC = ND | set('as_integer_ratio fromhex hex is_integer denominator numerator bit_count'.split())
JX = (ND - set('base byteswap ctypes data dump dumps fill flags getfield itemset newbyteorder partition put resize setfield setflags strides tofile '
               'tostring'.split())) | set('addressable_data addressable_shards at aval block_until_ready clone copy_to_host_async delete device '
               'device_buffer device_buffers devices global_shards is_deleted is_fully_addressable is_fully_replicated is_ready layout mT '
               'on_device_size_in_bytes platform sharding traceback unsafe_buffer_pointer weak_type'.split())
QUANT = ND | set('UnitsContainer check compare compatible_units compute default_format dimensionality dimensionless force_ndarray force_ndarray_like '
                 'format_babel from_list from_sequence from_tuple is_compatible_with ito ito_base_units ito_reduced_units ito_root_units m m_as '
                 'magnitude persist plus_minus to to_base_units to_compact to_preferred to_reduced_units to_root_units to_timedelta to_tuple u '
                 'unitless units visualize'.split())
UNIT = set('compare compatible_units default_format dimensionality dimensionless format_babel from_ is_compatible_with m_from systems'.split())
ROT = set('align_vectors apply approx_equal as_davenport as_euler as_matrix as_mrp as_quat as_rotvec concatenate create_group from_davenport '
          'from_euler from_matrix from_mrp from_quat from_rotvec identity inv magnitude mean random reduce single'.split())
PYD = set('construct copy dict from_orm json parse_file parse_obj parse_raw schema schema_json update_forward_refs validate'.split())
LISTS = {'list': list, 'set': set, 'deque': collections.deque, 'frozenset': frozenset}
DICTS = {'dict': dict, 'defaultdict': collections.defaultdict, 'OrderedDict': collections.OrderedDict, 'Counter': collections.Counter}


def dunder(n):
    return isinstance(n, str) and n.startswith('__') and n.endswith('__')


def exists(it, o, name):
    """True: the value has the attribute; False: it certainly does not; None: not known"""
    if not isinstance(name, str):
        return None
    if isinstance(o, VRef):
        h = it.deref(o)
        if isinstance(h, HInst):
            return inst(it, h.cls, name)
        if isinstance(h, HList):
            t = LISTS.get(h.kind)
            return None if t is None else hasattr(t, name)
        if isinstance(h, HDict):
            t = DICTS.get(h.kind)
            return None if t is None else hasattr(t, name)
        return None
    if isinstance(o, str) or (isinstance(o, VOpaque) and o.typ == 'str'):
        return hasattr(str, name)
    if isinstance(o, VTuple):
        return True if hasattr(tuple, name) else (None if o.fields and name.startswith('_') else False)
    if isinstance(o, (VNum, VBool)):
        if o.jx is not None:
            return True if dunder(name) else name in JX
        if getattr(o, 'np', None):
            return True if dunder(name) else name in NPSC
        t = bool if isinstance(o, VBool) else (int if o.k == 'int' else float)
        return hasattr(t, name)
    if o is None:
        return hasattr(type(None), name)
    if isinstance(o, VArr):
        if dunder(name):
            return None
        return name in JX if o.jx is not None else (name in ND or (o.matrix and name in MAT))
    if isinstance(o, VClass):
        return cls(it, o, name)
    if isinstance(o, VFunc):
        return hasattr(types.FunctionType, name)
    if isinstance(o, VBound):
        return hasattr(types.MethodType, name) or None
    if isinstance(o, VModule):
        return True if dunder(name) else False
    if isinstance(o, VSlice):
        return hasattr(slice, name)
    if isinstance(o, VProperty):
        return hasattr(property, name)
    if isinstance(o, VPartial):
        return None
    if isinstance(o, VNative):
        known = {'quantity': QUANT, 'unit': UNIT, 'rotation': ROT}.get(o.kind)
        if known is None or name.startswith('_'):
            return None
        return name in known
    return None


def natives(c):
    """library classes among the bases (a native class in front of one of the package's classes is a driver's)"""
    return [b for i, b in enumerate(c.mro) if b.ns is None and b.name not in ('object', 'ABC', 'Generic', 'Protocol')
            and not b.meta.get('driver') and not any(x.ns is not None for x in c.mro[i + 1:])]


def inst(it, c, name):
    if name in OBJ or dunder(name):
        return True if name in OBJ else None
    for b in natives(c):
        if b.name == 'BaseModel':
            if name in PYD or name.startswith('model_') or name.startswith('_'):
                return True
        elif b.name in ('Enum', 'IntEnum', 'str', 'Flag', 'int', 'float', 'list', 'dict', 'tuple', 'set'):
            return None
        elif hasattr(__builtins__ if not isinstance(__builtins__, dict) else types.SimpleNamespace(**__builtins__), b.name):
            t = (__builtins__ if isinstance(__builtins__, dict) else vars(__builtins__))[b.name]
            if hasattr(t, name):
                return True
        else:
            return None
    return False


def cls(it, c, name):
    if dunder(name) or name in OBJ or hasattr(type, name):
        return True if hasattr(type, name) or name in OBJ else None
    if c.ns is None:
        return None
    return inst(it, c, name)
