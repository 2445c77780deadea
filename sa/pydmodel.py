"""Model of the pydantic (v2) validation protocol used by the entity configuration classes."""
from __future__ import annotations

import ast

from . import terms as tm
from . import npmodel as nm
from .terms import T, TRUE, FALSE, c_and, c_not
from .values import *


CONFIG_KEYS = ('alias_generator allow_inf_nan allow_mutation arbitrary_types_allowed coerce_numbers_to_str copy_on_model_validation defer_build extra '
               'from_attributes frozen hide_input_in_errors json_encoders json_schema_extra plugin_settings populate_by_name protected_namespaces '
               'regex_engine revalidate_instances schema_generator ser_json_bytes ser_json_timedelta smart_union str_max_length str_min_length '
               'str_strip_whitespace str_to_lower str_to_upper strict title use_enum_values validate_assignment validate_default validate_return '
               'validation_error_cause').split()

CONFIG_INERT = ('extra', 'frozen', 'validate_assignment', 'arbitrary_types_allowed', 'title', 'protected_namespaces', 'hide_input_in_errors', 'json_encoders',
                'json_schema_extra', 'ser_json_bytes', 'ser_json_timedelta', 'validation_error_cause', 'defer_build')


class Pydantic:
    def __init__(self, it, ext):
        self.it, self.ext = it, ext
        b = it.builtins
        self.VE = VClass('ValidationError', [b['ValueError']], native='ValidationError')
        self.VE.nmethods['errors'] = VBuiltin('errors', lambda i, a, k: i.mklist([]), {'method': True})
        m = VClass('BaseModel', [b['object']], native='BaseModel')
        m.meta['construct_sub'] = self.construct
        m.meta['subclass_hook'] = self.created
        m.nmethods['__init__'] = VBuiltin('BaseModel.__init__', self.init, {'method': True})
        m.nmethods['model_dump'] = VBuiltin('model_dump', lambda i, a, k: i.mkdict(list(i.deref(a[0]).attrs.items())), {'method': True})
        m.nmethods['dict'] = m.nmethods['model_dump']
        m.nmethods['model_validate'] = VClassMethod(VBuiltin('model_validate', lambda i, a, k: i.instantiate(a[0], [], {
            kv: v for kv, v in i.deref(a[1]).d.values()})))
        m.nmethods['__eq__'] = VBuiltin('BaseModel.__eq__', self.eq, {'method': True})
        self.BaseModel = m
        self.InfoClass = VClass('ValidationInfo', [b['object']])
        self.now = (m, None, {})

        def val(mode):
            return VBuiltin(mode, lambda i, a, k: VNative('validator', mode=mode, func=i.res(a[0] if a else k['func'])))

        def field(i, a, k):
            return VNative('pydfield', **({'default': a[0], **k} if a else k))

        def method(fn):
            # functions whose first parameter is called cls become class methods
            if isinstance(fn, VFunc):
                names = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
                if names[:1] == ['cls']:
                    return VClassMethod(fn)
            return fn

        def field_validator(i, a, k):
            mode = i.res(k.get('mode', 'after'))
            if mode not in ('after', 'before', 'plain'):
                raise Unsupported(f'field_validator mode {mode!r}', i.where())

            def deco(i2, b2, k2):
                return VNative('fieldvalidator', fields=[i.res(x) for x in a], mode=mode, func=method(i2.res(b2[0])))
            return VBuiltin('field_validator', deco)

        def model_validator(i, a, k):
            def deco(i2, b2, k2):
                return VNative('modelvalidator', mode=i2.res(k.get('mode', 'after')), func=method(i2.res(b2[0])))
            return VBuiltin('model_validator', deco)
        self.ns = {
            'BaseModel': m, 'ValidationError': self.VE,
            'ConfigDict': VBuiltin('ConfigDict', lambda i, a, k: i.mkdict(list(k.items()))),
            'AfterValidator': val('after'), 'BeforeValidator': val('before'), 'PlainValidator': val('plain'), 'Field': VBuiltin('Field', field),
            'field_validator': VBuiltin('field_validator', field_validator), 'model_validator': VBuiltin('model_validator', model_validator),
            'validator': VBuiltin('validator', field_validator),
        }
        for n, kw in (('PositiveFloat', {'gt': I(0)}), ('NonNegativeFloat', {'ge': I(0)})):
            self.ns[n] = VNative('typing', name='Annotated', args=(b['float'], VNative('pydfield', **kw)))

    def convert(self, thunk, classes=('ValueError', 'AssertionError')):
        """run a validator: its ValueError / AssertionError surfaces as a ValidationError"""
        it = self.it
        from .interp import Ret
        h = Ret()
        it.handlers.append(h)
        n = len(it.handlers)
        cur = it.cur
        ok = None
        try:
            v = thunk()
            ok = (it.st, v)
        except PathDead:
            pass
        finally:
            del it.handlers[n - 1:]
        it.cur = cur
        cl = [it.builtins[c] for c in classes]
        for st, exc in h.out:
            if any(it.type_of_in(st, exc).issub(c) for c in cl):
                it.st = st
                try:
                    it.raise_(self.VE, 'validation error')
                except PathDead:
                    pass
            else:
                it.handlers[-1].out.append((st, exc))
        if ok is None:
            raise PathDead()
        it.st = ok[0]
        return ok[1]

    def fail(self, msg='validation error'):
        self.it.raise_(self.VE, msg)

    def required(self, fn):
        """number of required positional parameters of a validator (None: unknown, taken to be one)"""
        fn = self.it.res(fn)
        if isinstance(fn, VFunc):
            ar = fn.node.args
            return len(ar.posonlyargs) + len(ar.args) - len(ar.defaults)
        return None

    def info(self, cls, n, vals):
        it = self.it
        c = self.InfoClass
        return it.new(HInst(c, {'field_name': n, 'data': it.mkdict(list(vals.items())), 'mode': 'python', 'context': None,
                                'config': it.mkdict(list(cls.meta.get('config', {}).items()))}))

    def run(self, fn, v, cls, n, vals):
        """a validator with or without the validation info"""
        it = self.it
        fn = it.res(fn)
        extra = 0
        if isinstance(fn, VClassMethod):
            fn, pre, extra = fn.func, [cls], 1
        elif isinstance(fn, VStatic):
            fn, pre = fn.func, []
        else:
            pre = []
        r = self.required(fn)
        if r is not None and r - extra == 2:
            return it.call(fn, pre + [v, self.info(cls, n, vals)], {})
        return it.call(fn, pre + [v], {})

    # ------------------------------------------------------------------ class creation
    def created(self, cls):
        it = self.it
        fields = {}
        cfg = {}
        fvs = {}
        for c in reversed(cls.mro):
            if c.ns is None:
                continue
            fr = it.deref(c.ns)
            for s in c.meta.get('ann', []):
                n = s.target.id
                if n.startswith('_') or n == 'model_config':
                    continue
                if isinstance(s.annotation, ast.Subscript) and ast.unparse(s.annotation.value).endswith('ClassVar'):
                    continue
                has = n in fr.vars
                fields[n] = {'ann': s.annotation, 'cls': c, 'has': has, 'default': it.res(fr.vars[n]) if has else None}
            for n, v in fr.vars.items():
                v = it.res(v)
                if n in fields and fields[n]['cls'] is not c:
                    fields[n] = {**fields[n], 'has': True, 'default': v}
                if isinstance(v, VNative) and v.kind in ('fieldvalidator', 'modelvalidator'):
                    fvs[n] = v
                else:
                    fvs.pop(n, None)
            mc = fr.vars.get('model_config')
            if mc is not None:
                cfg.update({k[1]: it.res(v[1]) for k, v in it.deref(it.res(mc)).d.items()})
            cc = fr.vars.get('Config')
            if isinstance(cc, VClass):
                cfg.update({k: it.res(v) for k, v in it.deref(cc.ns).vars.items()})
            # class keywords override the configuration of the body
            for k, v in c.meta.get('ckw', {}).items():
                if k not in CONFIG_KEYS:
                    raise Unsupported(f'class keyword {k} of a pydantic model', it.where())
                cfg[k] = it.res(v)
        for k, v in cfg.items():
            if k not in CONFIG_INERT and v is not None and v is not False and getattr(v, 'c', None) is not FALSE:
                cls.meta['cfgbad'] = k
        cls.meta['fields'] = fields
        cls.meta['config'] = cfg
        cls.meta['fvs'] = list(fvs.values())
        # annotations are resolved when the class is created
        for n, f in fields.items():
            f['type'] = self.ann(f['ann'], f['cls'])

    def ann(self, node, cls):
        it = self.it
        save = it.cur
        it.cur = cls.ns
        try:
            if isinstance(node, ast.Constant) and isinstance(node.value, str):
                node = ast.parse(node.value, mode='eval').body
            return it.res(it.ev(node))
        finally:
            it.cur = save

    # ------------------------------------------------------------------ construction
    def construct(self, it, cls, args, kwargs):
        if cls.meta.get('cfgbad'):
            raise Unsupported(f'pydantic configuration {cls.meta["cfgbad"]}', it.where())
        obj = it.new(HInst(cls, {}))
        init, owner = it.class_lookup(cls, '__init__')
        it.call(init, [obj] + list(args), kwargs)
        return obj

    def init(self, it, a, k):
        obj = a[0]
        if len(a) > 1:
            it.raise_('TypeError', 'BaseModel.__init__() takes 1 positional argument')
        cls = it.deref(obj).cls
        cfg = cls.meta.get('config', {})
        vals = {}
        k = dict(k)
        for v in reversed(cls.meta.get('fvs', [])):
            if v.kind == 'modelvalidator' and v.d['mode'] == 'before':
                data = it.res(self.convert(lambda: self.run(v.d['func'], it.mkdict(list(k.items())), cls, None, {})))
                if not isinstance(data, VRef) or not isinstance(it.deref(data), HDict):
                    raise Unsupported('result of model_validator(before)', it.where())
                k = {it.res(x[0]): x[1] for x in it.deref(data).d.values()}
            elif v.kind == 'modelvalidator' and v.d['mode'] != 'after':
                raise Unsupported('model_validator(wrap)', it.where())
        for n, f in cls.meta['fields'].items():
            d = f['default']
            alias = n
            info = d if isinstance(d, VNative) and d.kind == 'pydfield' else None
            if info is not None and 'alias' in info.d:
                alias = info.d['alias']
            if alias in k:
                v = k.pop(alias)
                v = self.field(cls, n, f, info, v, vals)
            elif info is not None and 'default' in info.d and info.d['default'] is not Ellipsis:
                v = self.default(info.d['default'])
            elif info is not None and 'default_factory' in info.d:
                v = it.call(info.d['default_factory'], [], {})
            elif f['has'] and info is None:
                v = self.default(d)
                if 'validate_default' in cfg and it.decide(it.truth(cfg['validate_default'])) is TRUE:
                    v = self.field(cls, n, f, info, v, vals)
            else:
                self.fail(f'field required: {n}')
            vals[n] = v
        if k:
            ex = cfg.get('extra')
            if ex == 'forbid':
                self.fail('extra fields not permitted: ' + ', '.join(k))
            if ex == 'allow':
                vals.update(k)
        ob = it.deref(obj)
        it.put(obj, HInst(ob.cls, {**ob.attrs, **vals}))
        for v in cls.meta.get('fvs', []):
            if v.kind == 'modelvalidator' and v.d['mode'] == 'after':
                self.convert(lambda: self.run(v.d['func'], obj, cls, None, vals))
        if it.has_method(obj, 'model_post_init'):
            it.call(it.getattr(obj, 'model_post_init'), [None], {})

    def field(self, cls, n, f, info, v, vals=None):
        vals = dict(vals or {})
        fvs = [x for x in cls.meta.get('fvs', []) if x.kind == 'fieldvalidator' and (n in x.d['fields'] or '*' in x.d['fields'])]
        save = self.now
        self.now = (cls, n, vals)
        try:
            # of the validators around the type, the last one is the outermost
            plain = [i for i, x in enumerate(fvs) if x.d['mode'] == 'plain']
            inner = fvs[plain[-1] + 1:] if plain else fvs
            for x in reversed(inner):
                if x.d['mode'] == 'before':
                    v = self.convert(lambda: self.run(x.d['func'], v, cls, n, vals))
            if plain:
                v = self.convert(lambda: self.run(fvs[plain[-1]].d['func'], v, cls, n, vals))
            else:
                v = self.check(f['type'], v)
                if info is not None:
                    v = self.constraints(info, v)
            for x in inner:
                if x.d['mode'] == 'after':
                    v = self.convert(lambda: self.run(x.d['func'], v, cls, n, vals))
        finally:
            self.now = save
        return v

    def default(self, v):
        """default values that cannot be hashed are copied for every instance"""
        it = self.it
        v = it.res(v)
        if isinstance(v, VArr) or (isinstance(v, VRef) and isinstance(it.deref(v), (HList, HDict))):
            return it.ext.mods.copy(v, True, {})
        return v

    def assign(self, cls, name, v):
        """assignment to an attribute of a model instance: the value that is stored"""
        it = self.it
        cfg = cls.meta['config']
        on = lambda n: n in cfg and it.decide(it.truth(cfg[n])) is TRUE
        if name.startswith('_'):
            return v
        if on('frozen'):
            self.fail('Instance is frozen')
        f = cls.meta['fields'].get(name)
        if f is None:
            if cfg.get('extra') != 'allow':
                it.raise_('ValueError', f"'{cls.name}' object has no field '{name}'")
            return v
        d = f['default']
        info = d if isinstance(d, VNative) and d.kind == 'pydfield' else None
        if info is not None and 'frozen' in info.d:
            raise Unsupported('frozen field', it.where())
        if on('validate_assignment'):
            v = self.field(cls, name, f, info, v)
        return v

    def constraints(self, info, v):
        it = self.it
        c = TRUE
        for key, op in (('gt', 'Gt'), ('ge', 'GtE'), ('lt', 'Lt'), ('le', 'LtE')):
            if info.d.get(key) is not None:
                c = c_and(c, it.truth(it.compare(op, v, info.d[key])))
        return it.branch(c, lambda: v, lambda: self.fail('constraint'))

    # ------------------------------------------------------------------ value validation
    def check(self, t, v):
        r = self.lax(t, v)
        if r is NotImplemented:
            self.fail(f'invalid value')
        return r

    def strict(self, t, v):
        """exact-type match of one union member"""
        it = self.it
        b = it.builtins
        v = it.res(v)
        if t is b['float']:
            if isinstance(v, VNum) and v.jx is None and (v.np in (None, 'float64')):
                return VNum(v.t, 'float', v.np)
            return NotImplemented
        if t is b['int']:
            return v if isinstance(v, VNum) and v.k == 'int' and not v.np else NotImplemented
        if t is b['str']:
            return v if isinstance(v, str) or (isinstance(v, VOpaque) and v.typ == 'str') else NotImplemented
        if t is b['bool']:
            return v if isinstance(v, VBool) and not v.np else NotImplemented
        return self.lax(t, v)

    def lax(self, t, v):
        it = self.it
        b = it.builtins
        v = it.res(v)
        if t is b['float']:
            if isinstance(v, VNum) and v.jx is None:
                return VNum(v.t, 'float')
            if isinstance(v, VBool) and v.jx is None:
                return VNum(nm.as_term(v.c), 'float')
            if isinstance(v, str):
                try:
                    return VNum(T(float(v.strip().replace('_', ''))), 'float')
                except ValueError:
                    return NotImplemented
            if isinstance(v, VArr) and v.size == 1:
                return VNum(nm.as_term(it.cells(v)[0]), 'float')
            if isinstance(v, VOpaque):
                raise Unsupported('validation of an unknown value', it.where())
            if isinstance(v, VNative) and v.kind == 'quantity':
                m = it.res(v.d['m'])
                u = v.d['u']
                if u[0] == () and isinstance(m, VNum):
                    return VNum(it.res(self.ext.pint.to_dimensionless(it, v)).t, 'float')
                return NotImplemented
            return NotImplemented
        if t is b['int']:
            if isinstance(v, VNum):
                if v.k == 'int':
                    return VNum(v.t, 'int')
                if v.t.const() is not None and v.t.const().denominator == 1:
                    return VNum(v.t, 'int')
                if v.t.const() is not None:
                    return NotImplemented
                c = tm.eq0(tm.fn('floor', v.t) - v.t)
                return it.branch(c, lambda: VNum(v.t, 'int'), lambda: self.fail())
            if isinstance(v, VBool):
                return VNum(nm.as_term(v.c), 'int')
            if isinstance(v, str):
                try:
                    return I(int(v))
                except ValueError:
                    return NotImplemented
            return NotImplemented
        if t is b['str']:
            return self.strict(t, v)
        if t is b['bool']:
            if isinstance(v, VBool):
                return v
            n = const_int(v)
            if n in (0, 1):
                return B(n)
            if isinstance(v, str) and v.lower() in ('true', 'false', '1', '0', 'yes', 'no', 'on', 'off', 'y', 'n', 't', 'f'):
                return B(v.lower() in ('true', '1', 'yes', 'on', 'y', 't'))
            return NotImplemented
        if t is None or t is b['NoneType']:
            return None if v is None else NotImplemented
        if isinstance(t, VNative) and t.kind in ('typing', 'union'):
            n = t.d.get('name', 'Union')
            args = t.d.get('args') or ()
            if n == 'Any':
                return v
            if n == 'Annotated':
                vals = [x for x in args[1:] if isinstance(it.res(x), VNative)]
                vals = [it.res(x) for x in vals]
                for x in reversed(vals):
                    if x.kind == 'validator' and x.d['mode'] == 'before':
                        v = self.convert(lambda: self.run(x.d['func'], v, *self.now))
                plain = [x for x in vals if x.kind == 'validator' and x.d['mode'] == 'plain']
                if plain:
                    v = self.convert(lambda: self.run(plain[0].d['func'], v, *self.now))
                else:
                    v = self.lax(it.res(args[0]), v)
                if v is NotImplemented:
                    return v
                for x in vals:
                    if x.kind == 'pydfield':
                        v = self.constraints(x, v)
                    elif x.kind == 'validator' and x.d['mode'] == 'after':
                        v = self.convert(lambda: self.run(x.d['func'], v, *self.now))
                return v
            if n in ('Union', 'Optional'):
                opts = [it.res(x) for x in args] + ([None] if n == 'Optional' else [])
                for f in (self.strict, self.lax):
                    for o in opts:
                        r = f(o, v)
                        if r is not NotImplemented:
                            return r
                return NotImplemented
            if n == 'Literal':
                for x in args:
                    if it.decide(it.truth(it.compare('Eq', v, x))) is TRUE:
                        return v
                return NotImplemented
            if n in ('Callable',):
                return v if it.decide(it.truth(it.call(b['callable'], [v], {}))) is TRUE else NotImplemented
            if n in ('Dict', 'dict', 'List', 'list', 'Tuple', 'tuple', 'Sequence'):
                ty = self.ext.type_of(v).name
                if n in ('List', 'list', 'Sequence'):
                    return it.mklist(it.iterate(v)) if ty in ('list', 'tuple') else NotImplemented
                if n in ('Tuple', 'tuple'):
                    return VTuple(it.iterate(v)) if ty in ('list', 'tuple') else NotImplemented
                return v if ty == 'dict' else NotImplemented
            raise Unsupported(f'validation against typing.{n}', it.where())
        if isinstance(t, VClass):
            return v if self.ext.isinstance_c(v, t) is TRUE else NotImplemented
        raise Unsupported(f'validation against {t!r}', it.where())

    def eq(self, it, a, k):
        x, y = it.res(a[0]), it.res(a[1])
        if not (isinstance(y, VRef) and it.type_of(y) is it.type_of(x)):
            return B(False)
        c = TRUE
        for n, v in it.deref(x).attrs.items():
            c = c_and(c, it.truth(it.compare('Eq', v, it.deref(y).attrs.get(n))))
        return VBool(c)
