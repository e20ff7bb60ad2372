"""Random HasProperties classes with an independent model of each field"""
import collections
import uuid

import properties as p

from . import specs as S

NAMES = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'x', 'yy',
         '_hidden', 'Name2']


class InstS(S.Spec):
    """Instance property of a generated class"""
    scalar = False
    hash_ok = True
    dict_like = True

    def __init__(self, rng, shape, bare=False):
        self.shape = shape
        self.bare = bare        # declared through the class itself
        super(InstS, self).__init__(rng)

    @property
    def json_ok(self):
        return self.shape.json_ok

    def make(self, kw):
        return p.Instance('instance', self.shape.cls, **kw)

    def model(self, val):
        if isinstance(val, self.shape.cls):
            return S.Same(val)
        if not isinstance(val, dict):
            raise S.Reject
        return self.shape.model_kwargs(val)

    def good(self, rng):
        if rng.random() < 0.3:
            return self.shape.good_kwargs(rng, settable=True)
        return self.shape.instance(rng)

    def near(self, rng):
        kwargs = self.shape.good_kwargs(rng, settable=True)
        roll = rng.random()
        if roll < 0.5 and self.shape.fields:
            field = rng.choice(list(self.shape.fields.values()))
            kwargs[field.name] = field.spec.bad(rng) if field.spec else 5
        elif roll < 0.7:
            kwargs['no_such_name'] = 1
        elif roll < 0.8:
            return 'text'
        elif roll < 0.9:
            return [kwargs]
        else:
            return self.shape.cls
        return kwargs

    def __repr__(self):
        return 'InstS(%s)' % (self.shape,)


class Field(object):
    """One declared property and what is known about it"""

    def __init__(self, name, spec, required, default=None, kind='mutable'):
        self.name, self.spec, self.required = name, spec, required
        self.default = default    # None or (value, callable?)
        self.kind = kind          # mutable | uuid | constant

    def __repr__(self):
        return '%s: %r%s%s' % (self.name, self.spec or self.kind,
                               '' if self.required else ' optional',
                               ' default=%r' % (self.default,)
                               if self.default else '')


class Shape(object):
    """A generated class"""

    def __init__(self, rng, name='Thing', depth=1, json=False, n=None,
                 pool=(), registry=None, extra=None, defaults=True,
                 uuids=False, bases=(p.HasProperties,), names=None,
                 spec_filter=None):
        self.name = name
        self.fields = collections.OrderedDict()
        n = n if n is not None else rng.randint(1, 5)
        namespace = {'_REGISTRY': {} if registry is None else registry}
        for key in rng.sample(names or NAMES, n):
            for _ in range(60):
                spec = S.draw(rng, depth, pool=list(pool), json=json)
                if json and not spec.json_ok:
                    continue
                if spec_filter and not spec_filter(spec):
                    continue
                break
            else:
                spec = S.IntS(rng)
            extra_kw = {'required': rng.random() < 0.5}
            default = None
            if defaults and rng.random() < 0.3:
                default = pick_default(rng, spec)
            if default:
                value, call = default
                extra_kw['default'] = (lambda v=value: v) if call else value
            self.fields[key] = Field(key, spec, extra_kw['required'], default)
            namespace[key] = spec.build(**extra_kw)
        if uuids:
            if rng.random() < 0.3:
                namespace['ident'] = p.Uuid('identifier')
                self.fields['ident'] = Field('ident', None, False,
                                             kind='uuid')
            if rng.random() < 0.2:
                namespace['const'] = p.GettableProperty('constant', default=7)
                self.fields['const'] = Field('const', None, False,
                                             kind='constant')
        namespace.update(extra or {})
        self.cls = type(name, bases, namespace)
        self.subs = []          # more derived shapes whose instances also fit

    @property
    def json_ok(self):
        return all(f.spec is None or f.spec.json_ok
                   for f in self.fields.values())

    def settable(self):
        return [f for f in self.fields.values() if f.kind == 'mutable']

    def good_kwargs(self, rng, settable=True, full=False, prob=0.7):
        """Accepted keywords; full sets every required property"""
        out = {}
        for field in self.settable():
            if rng.random() < prob or (full and field.required):
                for _ in range(20):
                    val = field.spec.good(rng)
                    if val is not None and field.spec.accepts(val):
                        out[field.name] = val
                        break
        return out

    def instance(self, rng, full=True, prob=0.7):
        if self.subs and rng.random() < 0.4:
            return rng.choice(self.subs).instance(rng, full, prob)
        return self.cls(**self.good_kwargs(rng, full=full, prob=prob))

    def derive(self, rng, name, registry, depth=0, json=False):
        """A subclass with one more property"""
        sub = Shape(rng, name, depth=depth, json=json, n=1,
                    names=['more', 'extra2'], registry=registry,
                    bases=(self.cls,))
        sub.fields = collections.OrderedDict(
            list(self.fields.items()) + list(sub.fields.items()))
        self.subs.append(sub)
        return sub

    def model_kwargs(self, kwargs):
        values = {}
        rejected = unspec = False
        for key, val in kwargs.items():
            if not isinstance(key, str):
                raise S.Reject
            field = self.fields.get(key)
            if field is None or field.kind != 'mutable':
                if field is None and hasattr(self.cls, key):
                    raise S.Unspec
                raise S.Reject
            try:
                values[key] = field.spec.model(val)
            except S.Reject:
                rejected = True
            except S.Unspec:
                unspec = True
        if rejected:
            raise S.Reject
        if unspec:
            raise S.Unspec
        for field in self.settable():
            if field.name not in values:
                values[field.name] = expected_default(field)
        return S.NewInst(self.cls, values)

    def __repr__(self):
        return '%s{%s}' % (self.name, ', '.join(
            repr(f) for f in self.fields.values()))


def pick_default(rng, spec):
    """A usable default value: (value, wrapped in a callable)"""
    for _ in range(10):
        val = spec.good(rng)
        if val is None or callable(val) or isinstance(
                val, p.HasProperties):
            continue
        if spec.accepts(val):
            return val, rng.random() < 0.4
    return None


def expected_default(field):
    """What a new instance holds: an Exp, a value, or None when unset"""
    if field.default:
        return field.spec.model(field.default[0])
    return None


def family(rng, json=False, depth=2, uuids=False, defaults=True, size=None,
           registry=None, spec_filter=None):
    """Several classes, later ones nesting earlier ones, one registry"""
    registry = {} if registry is None else registry
    shapes, pool = [], []
    for i in range(size or rng.randint(1, 3)):
        shape = Shape(rng, 'Kind%d' % i, depth=rng.randint(0, depth),
                      json=json, pool=pool, registry=registry, uuids=uuids,
                      defaults=defaults, spec_filter=spec_filter,
                      n=rng.randint(1, 4))
        shapes.append(shape)
        pool.append(InstS(rng, shape))
    return shapes
