"""C28: serializer options reach every nested property"""
import datetime
import functools
import json
import uuid
import warnings

import numpy as np
import properties as p
from properties.extras import HasUID, Pointer, Singleton

from vlib.canon import canon

RULE = ('A case grows random trees of properties (scalars, lists, tuples, '
        'sets, dictionaries, unions, instances, identified instances, old '
        'names, dynamic properties) where some at any level carry recording '
        'custom serializers or deserializers of many callable forms (with '
        'and without options); serializes, deserializes and copies with '
        'random options, and compares data, values and every recorded call '
        'with a model of the tree. Non-trivial: an operation, by the tree, '
        'its values and options.')
CASES = {'quick': 3600, 'thorough': 28800}
FLOORS = {'copied': 1800, 'deserialized': 5370, 'deserializer_calls': 5288,
          'identified': 1800, 'identified_rebuilt': 1800, 'serialized': 5370,
          'serializer_calls': 7440, 'singletons': 1800}


class Log(object):
    """Every call of a custom function: (tag, value, options or None)"""

    def __init__(self):
        self.calls = []

    def take(self):
        out = list(self.calls)
        del self.calls[:]
        return out


class Callable(object):
    def __init__(self, func):
        self.func = func

    def __call__(self, value, **kwargs):
        return self.func(value, **kwargs)

    def method(self, value, **kwargs):
        return self.func(value, **kwargs)

    def bare(self, value):
        return self.func(value)


FORMS = ['options', 'plain', 'lambda', 'object', 'method', 'bare method',
         'partial', 'named']


def make_callable(form, func):
    """A callable of this form around func(value, **kwargs)"""
    if form == 'options':
        return func
    if form == 'plain':
        def plain(value):
            return func(value)
        return plain
    if form == 'lambda':
        return lambda v: func(v)
    if form == 'object':
        return Callable(func)
    if form == 'method':
        return Callable(func).method
    if form == 'bare method':
        return Callable(func).bare
    if form == 'partial':
        return functools.partial(func)
    if form == 'named':
        def named(value, include_class=None, trusted=None, opt=None,
                  **kwargs):
            if include_class is not None:
                kwargs['include_class'] = include_class
            if trusted is not None:
                kwargs['trusted'] = trusted
            if opt is not None:
                kwargs['opt'] = opt
            return func(value, **kwargs)
        return named
    raise AssertionError(form)


WITH_OPTIONS = {'options', 'object', 'method', 'partial', 'named'}


ODD = [float('nan'), float('inf'), 0, '', False, [], {}, -0.0]


class Node(object):
    """One property of the tree and its model"""
    kind = '?'
    count = 0

    def __init__(self, rng, world, depth, custom=True):
        self.world = world
        self.tag = world.next_tag()
        self.ser = self.deser = None
        if custom and rng.random() < 0.4:
            self.ser = rng.choice(FORMS)
        if custom and rng.random() < 0.4:
            self.deser = rng.choice(FORMS)
        # some serializers write something else
        self.odd = None
        if self.ser and rng.random() < 0.15:
            self.odd = rng.choice(ODD)
        self.build(rng, depth)

    def build(self, rng, depth):
        pass

    def kwargs(self):
        kw = {}
        log, tag, node = self.world.log, self.tag, self
        if self.ser:
            def serialize(value, **kwargs):
                log.calls.append(('ser', tag, value, kwargs))
                return node.encode(value)
            kw['serializer'] = make_callable(self.ser, serialize)
        if self.deser:
            def deserialize(value, **kwargs):
                log.calls.append(('deser', tag, value, kwargs))
                if not isinstance(value, dict) or value.get('tag') != tag:
                    raise ValueError('not mine')
                return node.revive(value['v'])
            kw['deserializer'] = make_callable(self.deser, deserialize)
        return kw

    def encode(self, value):
        """What the custom serializer makes of a value"""
        if self.odd is not None:
            return self.odd
        return {'tag': self.tag,
                'v': None if value is None else self.basic(value)}

    def revive(self, data):
        """What the custom deserializer makes of plain data"""
        return self.unbasic(data)

    # the model -----------------------------------------------------------

    def basic(self, value):
        """JSON data of value, without any custom serializer"""
        raise NotImplementedError

    def expect(self, value, opts, calls):
        """Data of value; appends expected calls"""
        if self.ser:
            calls.append(('ser', self.tag, value, self.ser in WITH_OPTIONS))
            return self.encode(value)
        return self.default(value, opts, calls)

    def default(self, value, opts, calls):
        return self.basic(value)

    def data(self, value, calls):
        """Data from which value is to be rebuilt"""
        if self.deser:
            out = {'tag': self.tag, 'v': self.basic(value)}
            calls.append(('deser', self.tag, out,
                          self.deser in WITH_OPTIONS))
            return out
        return self.raw(value, calls)

    def raw(self, value, calls):
        return self.basic(value)


class IntN(Node):
    kind = 'int'

    def prop(self, **kw):
        kw.update(self.kwargs())
        return p.Integer('i', **kw)

    def value(self, rng):
        return rng.randint(0, 99)

    def basic(self, value):
        return value

    def unbasic(self, data):
        return data


class StrN(IntN):
    kind = 'str'

    def prop(self, **kw):
        kw.update(self.kwargs())
        return p.String('s', **kw)

    def value(self, rng):
        return rng.choice('abcdefgh') * rng.randint(1, 3)


class DateN(Node):
    kind = 'date'

    def prop(self, **kw):
        kw.update(self.kwargs())
        return p.DateTime('d', **kw)

    def value(self, rng):
        return datetime.datetime(2000 + rng.randint(0, 30), 5, 6, 7, 8, 9)

    def basic(self, value):
        return value.strftime('%Y-%m-%dT%H:%M:%SZ')

    def unbasic(self, data):
        return datetime.datetime.strptime(data, '%Y-%m-%dT%H:%M:%SZ')


class ColorN(Node):
    kind = 'color'

    def prop(self, **kw):
        kw.update(self.kwargs())
        return p.Color('c', **kw)

    def value(self, rng):
        return tuple(rng.randint(0, 255) for _ in range(3))

    def basic(self, value):
        return list(value)

    def unbasic(self, data):
        return tuple(data)


class VectorN(Node):
    """Vectors and arrays"""
    kind = 'vector'

    def build(self, rng, depth):
        self.make, self.shape = rng.choice([
            (p.Vector3, (3,)), (p.Vector2, (2,)), (p.Vector3Array, (2, 3)),
            (p.Vector2Array, (1, 2)),
            (functools.partial(p.Array, shape=('*',), dtype=float), (4,)),
            (functools.partial(p.Array, shape=('*', 2), dtype=float),
             (2, 2))])

    def prop(self, **kw):
        kw.update(self.kwargs())
        return self.make('v', **kw)

    def value(self, rng):
        val = np.array([float(rng.randint(-9, 9)) for _ in range(
            int(np.prod(self.shape)))]).reshape(self.shape)
        # as the property holds it
        return self.make('v').validate(None, val)

    def basic(self, value):
        return np.array(value).tolist()

    def unbasic(self, data):
        return np.array(data)


class GivenUuid(p.Property):
    """A property type with its own JSON form"""
    class_info = 'an identifier'

    @staticmethod
    def to_json(value, **kwargs):
        return str(value)

    @staticmethod
    def from_json(value, **kwargs):
        return uuid.UUID(value)


class Pointed(HasUID):
    _REGISTRY = {}
    _INSTANCES = {}


class Plain(object):
    """Not a class of properties"""

    def __init__(self, num):
        self.num = num


PLAIN = [Plain(num) for num in range(5)]


class OwnN(Node):
    """Property types with their own conversions"""
    kind = 'own'

    def build(self, rng, depth):
        base, self.values, self.unbasic, kw = rng.choice([
            (p.Property, ['a', 2, 'b'], lambda v: v, {}),
            (p.Integer, [1, 2, 3], int, {}),
            (p.String, ['a', 'b'], str, {}),
            (p.Instance, PLAIN, PLAIN.__getitem__,
             {'instance_class': Plain}),
            (Pointer, PLAIN, PLAIN.__getitem__, {'instance_class': Plain}),
        ])
        log, tag, node = self.world.log, self.tag, self

        class Own(base):
            class_info = 'own'

            @staticmethod
            def to_json(value, **kwargs):
                log.calls.append(('ser', tag, value, kwargs))
                return node.encode(value)

            @staticmethod
            def from_json(value, **kwargs):
                log.calls.append(('deser', tag, value, kwargs))
                if not isinstance(value, dict) or value.get('tag') != tag:
                    raise ValueError('not mine')
                return node.revive(value['v'])
        self.make = functools.partial(Own, 'own', **kw)

    def prop(self, **kw):
        kw.update(self.kwargs())
        return self.make(**kw)

    def value(self, rng):
        return rng.choice(self.values)

    def basic(self, value):
        return value.num if isinstance(value, Plain) else value

    def default(self, value, opts, calls):
        calls.append(('ser', self.tag, value, True))
        return self.encode(value)

    def raw(self, value, calls):
        out = {'tag': self.tag, 'v': self.basic(value)}
        calls.append(('deser', self.tag, out, True))
        return out


class OtherN(Node):
    """Other simple types"""
    kind = 'other'

    def build(self, rng, depth):
        self.make, self.values, self.basic, self.unbasic = rng.choice([
            (p.Boolean, [True, False], bool, bool),
            (p.Float, [0.5, 2.0, -1e9], float, float),
            (p.Complex, [1j, 2 + 3j], str, complex),
            (functools.partial(p.StringChoice, choices=['aa', 'bb']),
             ['aa', 'bb'], str, str),
            (GivenUuid, [uuid.UUID(int=n) for n in (5, 99)], str, uuid.UUID),
            (functools.partial(Pointer, instance_class=Pointed),
             ['one', 'two'], str, str),
        ])

    def prop(self, **kw):
        kw.update(self.kwargs())
        return self.make('o', **kw)

    def value(self, rng):
        return rng.choice(self.values)


class BoxN(Node):
    """Lists, tuples and sets"""

    def build(self, rng, depth):
        self.kind = rng.choice(['list', 'tuple', 'set'])
        if self.kind == 'set':
            # elements must be hashable before and after
            self.child = rng.choice([IntN, StrN, DateN, ColorN])(
                rng, self.world, depth - 1)
            self.child.deser = None
            self.child.ser = None if rng.random() < 0.5 else self.child.ser
        else:
            self.child = grow(rng, self.world, depth - 1)
        self.py = {'list': list, 'tuple': tuple, 'set': set}[self.kind]

    def prop(self, **kw):
        kw.update(self.kwargs())
        cls = {'list': p.List, 'tuple': p.Tuple, 'set': p.Set}[self.kind]
        if self.kind != 'tuple' and self.tag % 3 == 0:
            kw['observe_mutations'] = True
        return cls('box', self.child.prop(), default=p.undefined, **kw)

    def value(self, rng):
        return self.py(self.child.value(rng)
                       for _ in range(rng.randint(0, 3)))

    def basic(self, value):
        return [self.child.basic(v) for v in value]

    def unbasic(self, data):
        return self.py(self.child.unbasic(d) for d in data)

    def default(self, value, opts, calls):
        return [self.child.expect(v, opts, calls) for v in value]

    def raw(self, value, calls):
        return [self.child.data(v, calls) for v in value]


class DictN(Node):
    kind = 'dict'

    def build(self, rng, depth):
        # keys are text before and after
        self.key = StrN(rng, self.world, 0)
        for attr in ('ser', 'deser'):
            if rng.random() < 0.5:
                setattr(self.key, attr, None)
        key = self.key
        key.encode = lambda v: 'k%d:%s' % (key.tag, v)
        self.child = grow(rng, self.world, depth - 1)

    def prop(self, **kw):
        kw.update(self.kwargs())
        key_kw = self.key.kwargs()
        if 'deserializer' in key_kw:
            log, key = self.world.log, self.key

            def deserialize(value, **kwargs):
                log.calls.append(('deser', key.tag, value, kwargs))
                head = 'k%d:' % key.tag
                if not value.startswith(head):
                    raise ValueError('not mine')
                return value[len(head):]
            key_kw['deserializer'] = make_callable(key.deser, deserialize)
        return p.Dictionary('dict', key_prop=p.String('key', **key_kw),
                            value_prop=self.child.prop(),
                            default=p.undefined, **kw)

    def value(self, rng):
        return {self.key.value(rng): self.child.value(rng)
                for _ in range(rng.randint(0, 3))}

    def basic(self, value):
        return {k: self.child.basic(v) for k, v in value.items()}

    def unbasic(self, data):
        return {k: self.child.unbasic(v) for k, v in data.items()}

    def default(self, value, opts, calls):
        return {self.key.expect(k, opts, calls):
                self.child.expect(v, opts, calls) for k, v in value.items()}

    def raw(self, value, calls):
        out = {}
        for k, v in value.items():
            if self.key.deser:
                k = 'k%d:%s' % (self.key.tag, k)
                calls.append(('deser', self.key.tag, k,
                              self.key.deser in WITH_OPTIONS))
            out[k] = self.child.data(v, calls)
        return out


class UnionN(Node):
    """Alternatives that no value shares"""
    kind = 'union'

    def build(self, rng, depth):
        picks = rng.sample([IntN, StrN, ListOfInt], rng.randint(2, 3))
        self.parts = [cls(rng, self.world, depth - 1) for cls in picks]
        self.deser = None

    def prop(self, **kw):
        kw.update(self.kwargs())
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return p.Union('union', [part.prop() for part in self.parts],
                           **kw)

    def value(self, rng):
        return rng.choice(self.parts).value(rng)

    def part(self, value):
        typ = IntN if isinstance(value, int) else \
            StrN if isinstance(value, str) else ListOfInt
        return next(part for part in self.parts if type(part) is typ)

    def basic(self, value):
        return self.part(value).basic(value)

    def unbasic(self, data):
        return data

    def default(self, value, opts, calls):
        return self.part(value).expect(value, opts, calls)

    def raw(self, value, calls):
        # which alternatives are tried before is not settled here
        return self.part(value).data(value, [])


class ListOfInt(BoxN):
    def build(self, rng, depth):
        self.kind, self.py = 'list', list
        self.child = IntN(rng, self.world, 0)

    def value(self, rng):
        return [self.child.value(rng) for _ in range(rng.randint(1, 3))]


class AnyN(Node):
    kind = 'any'

    def prop(self, **kw):
        kw.update(self.kwargs())
        return p.Property('any', **kw)

    def value(self, rng):
        return rng.choice([1, 'x', [1, 2], {'a': 1}, False, 0, ''])

    def basic(self, value):
        return value

    def unbasic(self, data):
        return data


class InstN(Node):
    """A nested class"""
    kind = 'instance'

    def build(self, rng, depth):
        self.form = Form(rng, self.world, depth - 1)
        self.bare = not (self.ser or self.deser) and rng.random() < 0.5

    def prop(self, **kw):
        kw.update(self.kwargs())
        return p.Instance('instance', self.form.cls, **kw)

    def value(self, rng):
        return self.form.instance(rng)

    def basic(self, value):
        return value.serial

    def unbasic(self, data):
        return self.world.instances[data]

    def default(self, value, opts, calls):
        return self.form.expect(value, opts, calls)

    def raw(self, value, calls):
        return self.form.data(value, calls)


class Form(object):
    """A generated class"""

    def __init__(self, rng, world, depth, base=p.HasProperties):
        self.world = world
        self.nodes = {}
        self.dynamic = {}
        namespace = {'_REGISTRY': world.registry}
        for i in range(rng.randint(1, 3)):
            name = 'prop%d' % i
            node = grow(rng, world, depth)
            self.nodes[name] = node
            namespace[name] = node.prop(required=False)
        self.old = None
        if rng.random() < 0.25:
            self.old = rng.choice(sorted(self.nodes))
            namespace['old'] = p.Renamed(self.old, warn=False)
        if rng.random() < 0.4:
            node = rng.choice([IntN, StrN, ColorN, ListOfInt])(
                rng, world, 1)
            node.deser = None
            self.dynamic['calc'] = node
            self.results = results = {}
            prop = node.prop()
            namespace['calc'] = prop(
                lambda self: results.get(self.serial))
        world.forms.append(self)
        self.label = 'Form%d' % len(world.forms)
        namespace['serial'] = None
        self.cls = type(self.label, (base,), namespace)

    def instance(self, rng, prob=0.75):
        obj = self.cls()
        # an attribute of the class, but of no property
        obj.serial = len(self.world.instances)
        self.world.instances[obj.serial] = obj
        for name, node in self.nodes.items():
            if rng.random() < prob:
                val = node.value(rng)
                setattr(obj, name, val)
                if rng.random() < 0.1:
                    delattr(obj, name)
        if self.dynamic and rng.random() < 0.8:
            self.results[obj.serial] = self.dynamic['calc'].value(rng)
        return obj

    def stored(self, obj):
        return [(n, node, getattr(obj, n)) for n, node in self.nodes.items()
                if getattr(obj, n) is not None]

    def expect(self, obj, opts, calls):
        out = {}
        for name, node, val in self.stored(obj):
            out[name] = node.expect(val, opts, calls)
            if name == self.old and opts['save_dynamic']:
                out['old'] = node.expect(val, opts, calls)
        if self.dynamic and opts['save_dynamic']:
            node = self.dynamic['calc']
            val = self.results.get(obj.serial)
            if val is not None:
                out['calc'] = node.expect(val, opts, calls)
            elif node.ser:
                # a dynamic serializer must account for no value
                out['calc'] = ANYTHING
        if opts['include_class']:
            out['__class__'] = self.label
        return out

    def data(self, obj, calls):
        out = {'__class__': self.label}
        for name, node, val in self.stored(obj):
            key = name
            if name == self.old and obj.serial % 2:
                key = 'old'
            out[key] = node.data(val, calls)
        return out


ANYTHING = object()


def grow(rng, world, depth):
    leaf = [IntN, StrN, DateN, ColorN, AnyN, VectorN, OtherN, OwnN,
            OwnN]
    if depth <= 0:
        return rng.choice(leaf)(rng, world, depth)
    return rng.choice(leaf[:4] + [BoxN, BoxN, DictN, UnionN, InstN, InstN,
                                  InstN])(rng, world, depth)


class World(object):
    def __init__(self):
        self.log = Log()
        self.tags = 0
        self.registry = {}
        self.forms = []
        self.instances = {}

    def next_tag(self):
        self.tags += 1
        return self.tags


OPTIONS = ['opt', 'scale', 'depth', 'mult', 'include', 'registry_', 'value_',
           'other']


def draw_options(rng):
    return {k: rng.choice([1, 'x', True, None, 0, [1]])
            for k in rng.sample(OPTIONS, rng.choice([0, 1, 1, 2]))}


def match_data(want, have):
    if want is ANYTHING:
        return True
    if isinstance(want, dict):
        if not isinstance(have, dict):
            return False
        optional = {k for k, v in want.items() if v is ANYTHING}
        return set(want) - optional <= set(have) <= set(want) and all(
            match_data(want[k], have[k]) for k in have)
    if isinstance(want, (list, tuple)):
        return isinstance(have, (list, tuple)) and len(want) == len(have) \
            and all(match_data(w, h) for w, h in zip(want, have))
    return type(want) is type(have) and (want == have or want is have)


def match_set(world_form, want, have):
    """As match_data, with the elements of sets in any order"""
    return match_data(want, have)


def check_calls(ctx, kind, want, seen, options, must):
    """Every expected call was seen once, with the options"""
    seen = [c for c in seen if c[0] == kind]
    left = list(seen)
    for _, tag, val, with_options in want:
        hit = next((i for i, c in enumerate(left) if c[1] == tag and (
            c[2] is val or canon(c[2]) == canon(val))), None)
        ctx.check(hit is not None, 'a custom function was not called with '
                  'the value', tag, val, [c[1:3] for c in seen])
        call = left.pop(hit)
        if with_options:
            for key, opt in options.items():
                ctx.check(key in call[3] and call[3][key] is opt or
                          key == 'opt' and opt is None, 'an option is '
                          'lost', tag, key, opt, call[3])
            for key, opt in must.items():
                ctx.check(call[3].get(key) == opt, 'a standard option '
                          'is lost or wrong', tag, key, opt, call[3])
    return left


def run_case(ctx):
    rng = ctx.rng
    world = World()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        form = Form(rng, world, rng.choice([1, 2, 3, 3]))
    obj = form.instance(rng, 0.9)
    ctx.note('tree', describe(form))
    world.log.take()
    for _ in range(rng.randint(2, 4)):
        serializing(ctx, rng, world, form, obj)
        deserializing(ctx, rng, world, form, obj)
    copying(ctx, rng, world, form, obj)
    named(ctx, rng, world, form, obj)
    identified(ctx, rng, world, form, obj)
    declared(ctx, rng)


def describe(form):
    return {n: text(node) for n, node in form.nodes.items()}


def text(node):
    out = '%s%s%s' % (node.kind, '+ser' if node.ser else '',
                      '+de' if node.deser else '')
    for attr in ('key', 'child'):
        if hasattr(node, attr):
            out += '<%s>' % text(getattr(node, attr))
    if hasattr(node, 'parts'):
        out += '|'.join(text(part) for part in node.parts)
    if hasattr(node, 'form'):
        out += repr(describe(node.form))
    return out


def serializing(ctx, rng, world, form, obj):
    options = draw_options(rng)
    include, dynamic = rng.random() < 0.5, rng.random() < 0.5
    call = dict(options)
    if not include or rng.random() < 0.5:
        call['include_class'] = include
    if dynamic or rng.random() < 0.5:
        call['save_dynamic'] = dynamic
    opts = {'include_class': include, 'save_dynamic': dynamic}
    want = []
    expected = form.expect(obj, opts, want)
    before = canon(obj)
    world.log.take()
    ctx.note('serialize', call)
    data = obj.serialize(**call)
    seen = world.log.take()
    ctx.check(match_data(expected, data), 'the serialized data is not as '
              'asked', call, describe(form), expected, data)
    left = check_calls(ctx, 'ser', want, seen, options, opts)
    extra = [c for c in left if c[2] is not None]
    ctx.check(not extra, 'a custom serializer was called needlessly', extra)
    ctx.check(canon(obj) == before, 'serialization changed the instance')
    ctx.count('serialized')
    ctx.count('serializer_calls', len(want))
    ctx.nontrivial('serialize', describe(form), sorted(call), expected)


def deserializing(ctx, rng, world, form, obj):
    options = draw_options(rng)
    trusted, strict = rng.random() < 0.5, rng.random() < 0.3
    want = []
    data = form.data(obj, want)
    unions = 'union' in repr(describe(form))
    text_data = json.dumps(data)
    call = dict(options)
    if trusted or rng.random() < 0.5:
        call['trusted'] = trusted
    if strict or rng.random() < 0.5:
        call['strict'] = strict
    world.log.take()
    ctx.note('deserialize', call)
    new = form.cls.deserialize(data, **call)
    seen = world.log.take()
    ctx.check(json.dumps(data) == text_data, 'the data was modified', data)
    must = {'trusted': trusted}
    if not unions:
        must['strict'] = strict
    left = check_calls(ctx, 'deser', want, seen, options, must)
    ctx.check(unions or not left, 'a custom deserializer was called '
              'needlessly', left)
    ctx.check(type(new) is form.cls, 'another class', new)
    same(ctx, form, obj, new)
    ctx.count('deserialized')
    ctx.count('deserializer_calls', len(want))
    ctx.nontrivial('deserialize', describe(form), sorted(call), text_data)


def same(ctx, form, old, new):
    """The rebuilt values"""
    for name, node in form.nodes.items():
        a, b = getattr(old, name), getattr(new, name)
        ctx.check(alike(node, a, b), 'a value is not rebuilt', name,
                  canon(a), canon(b))


def alike(node, a, b):
    if a is None or b is None:
        return a is b
    if isinstance(node, InstN):
        if node.deser:
            return a is b       # the custom deserializer finds the object
        return type(a) is type(b) and all(
            alike(sub, getattr(a, n), getattr(b, n))
            for n, sub in node.form.nodes.items())
    if isinstance(node, BoxN) and node.py is not set:
        return len(a) == len(b) and all(
            alike(node.child, x, y) for x, y in zip(a, b))
    if isinstance(node, DictN):
        return set(a) == set(b) and all(
            alike(node.child, a[k], b[k]) for k in a)
    return canon(a) == canon(b)


def copying(ctx, rng, world, form, obj):
    """Copies pass the options on both ways"""
    options = draw_options(rng)
    opts = {'include_class': True, 'save_dynamic': False}
    want = []
    form.expect(obj, opts, want)
    world.log.take()
    try:
        p.copy(obj, **options)
    except Exception:           # pylint: disable=broad-except
        # serializers without their deserializers may not fit
        pass
    seen = world.log.take()
    check_calls(ctx, 'ser', want, seen, options, opts)
    for call in seen:
        if call[0] == 'deser' and call[3]:
            for key, opt in options.items():
                ctx.check(call[3].get(key) is opt, 'an option is lost in a '
                          'copy', key, opt, call[3])
            ctx.check(call[3].get('trusted') is True, 'a copy is not '
                      'trusted', call[3])
    ctx.count('copied')


def identified(ctx, rng, world, form, obj):
    """Through instances with identifiers"""
    node = rng.choice([IntN, StrN, ColorN])(rng, world, 0)
    if not node.ser:
        node.ser = rng.choice(FORMS)
    many = rng.random() < 0.5
    node.deser = rng.choice(FORMS)
    namespace = {'_REGISTRY': {}, '_INSTANCES': {}, 'own': node.prop(),
                 'body': p.Instance('plain', form.cls, required=False)}
    Model = type('Model', (HasUID,), namespace)
    Root = type('Root', (Model,), {
        'one': p.Instance('one', Model, required=False),
        'many': p.List('many', Model, default=list)})
    made = [Model(own=node.value(rng)) for _ in range(rng.randint(1, 3))]
    root = Root(own=node.value(rng), one=made[0], many=made if many else [])
    if rng.random() < 0.7:
        rng.choice(made + [root]).body = obj
    options = draw_options(rng)
    opts = {'include_class': rng.random() < 0.5,
            'save_dynamic': rng.random() < 0.5}
    reached = [root, made[0]] + (made[1:] if many else [])
    want = []
    for inst in reached:
        node.expect(inst.own, opts, want)
        if inst.body is not None:
            form.expect(inst.body, opts, want)
    world.log.take()
    ctx.note('identified', options, opts)
    data = root.serialize(**dict(options, **opts))
    seen = world.log.take()
    left = check_calls(ctx, 'ser', want, seen, options, opts)
    ctx.check(not [c for c in left if c[2] is not None], 'a custom '
              'serializer was called needlessly', left)
    for inst in reached:
        entry = data.get(inst.uid)
        ctx.check(isinstance(entry, dict) and (
            entry.get('__class__') == (
                type(inst).__name__ if opts['include_class'] else None)),
                  'class name of an identified instance', entry, opts)
        ctx.check(match_data(node.encode(inst.own), entry.get('own')),
                  'the custom '
                  'serializer of an identified instance is not used', entry)
        if inst.body is not None:
            ctx.check(match_data(form.expect(inst.body, opts, []),
                                 entry.get('body')), 'a plain instance '
                      'within an identified one', entry)
    # rebuilt elsewhere, the options reach the deserializer
    values = {inst.uid: canon(inst.own) for inst in reached}
    want, trusted = [], rng.random() < 0.5
    again = {}
    for inst in reached:
        if inst.uid not in again:
            again[inst.uid] = dict(data[inst.uid])
            again[inst.uid].pop('body', None)
            again[inst.uid]['own'] = node.data(inst.own, want)
    again.update({k: v for k, v in data.items() if not isinstance(v, dict)})
    Model._INSTANCES.clear()
    if opts['include_class']:
        trusted = True
    world.log.take()
    back = Root.deserialize(again, trusted=trusted, **options)
    check_calls(ctx, 'deser', want, world.log.take(), options,
                {'trusted': trusted})
    ctx.check(back is not root and back.uid == root.uid and
              canon(back.own) == values[root.uid] and
              canon(back.one.own) == values[made[0].uid] and
              [canon(i.own) for i in back.many] ==
              [values[i.uid] for i in root.many],
              'identified instances are not rebuilt', values)
    ctx.count('identified_rebuilt')
    ctx.count('identified')


def named(ctx, rng, world, form, obj):
    """Through singletons"""
    node = rng.choice([IntN, StrN, ColorN, VectorN])(rng, world, 0)
    if not node.ser:
        node.ser = rng.choice(FORMS)
    node.deser = rng.choice(FORMS)
    namespace = {'_REGISTRY': {}, '_SINGLETONS': {}, 'own': node.prop(),
                 'body': p.Instance('plain', form.cls, required=False)}
    Single = type('Single', (Singleton,), namespace)
    one = Single('first', own=node.value(rng))
    if rng.random() < 0.4:
        one.body = obj
    options = draw_options(rng)
    opts = {'include_class': rng.random() < 0.5,
            'save_dynamic': rng.random() < 0.5}
    want = []
    expected = {'own': node.expect(one.own, opts, want),
                '_singleton_id': 'first'}
    if one.body is not None:
        expected['body'] = form.expect(obj, opts, want)
    if opts['include_class']:
        expected['__class__'] = 'Single'
    world.log.take()
    ctx.note('singleton', options, opts)
    data = one.serialize(**dict(options, **opts))
    seen = world.log.take()
    left = check_calls(ctx, 'ser', want, seen, options, opts)
    ctx.check(not [c for c in left if c[2] is not None], 'a custom '
              'serializer was called needlessly', left)
    ctx.check(match_data(expected, data), 'the data of a singleton is not as '
              'asked', expected, data)
    # rebuilt elsewhere, the options reach the deserializer
    data.pop('body', None)
    want, trusted = [], rng.random() < 0.5
    data['own'] = node.data(one.own, want)
    data['_singleton_id'] = 'second'
    new = Single.deserialize(data, trusted=trusted, **options)
    check_calls(ctx, 'deser', want, world.log.take(), options,
                {'trusted': trusted})
    ctx.check(new is not one and new is Single('second') and
              canon(new.own) == canon(one.own), 'a singleton is not rebuilt',
              canon(one.own), canon(new.own))
    ctx.count('singletons')


def declared(ctx, rng):
    """Only callables are serializers"""
    bad = rng.choice([5, 'str', None, [str], {}])
    kind = rng.choice([p.Integer, p.String, p.Color, p.DateTime, p.Property])
    key = rng.choice(['serializer', 'deserializer'])
    try:
        kind('doc', **{key: bad})
        ctx.fail('not callable, but taken', key, bad)
    except TypeError:
        pass
