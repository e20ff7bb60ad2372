"""C09: serialize -> JSON text -> deserialize is the identity"""
import copy
import json
import math

import numpy as np

import properties as p

from vlib import shapes, specs as S
from vlib.canon import canon, equiv, state, stored_names, walk

RULE = ('A case builds a family of nested classes over all JSON-capable '
        'property types, constructs valid instances (subclass instances in '
        'nested positions included), and takes them through serialize, JSON '
        'text and trusted deserialization, several generations; non-trivial '
        'by class structure and values.')
CASES = {'quick': 1800, 'thorough': 15000}
FLOORS = {'containers': 8136, 'invalid_skipped': 155, 'nested_instances': 3630,
          'round_trips': 11910, 'second_generation': 1242, 'without_class':
          2158}


def plain(val):
    """JSON data of exactly the builtin types"""
    if val is None or type(val) in (bool, int, float, str):
        return True
    if type(val) is list:
        return all(plain(v) for v in val)
    if type(val) is dict:
        return all(isinstance(k, (str, int, float)) and plain(v)
                   for k, v in val.items())
    # subclasses of str/int (a user's own) still are JSON data
    return isinstance(val, (str, int, float)) and not isinstance(
        val, np.generic)


def odd(data):
    """Where non-JSON values sit"""
    if isinstance(data, dict):
        return [o for k, v in data.items() for o in odd(k) + odd(v)]
    if isinstance(data, list):
        return [o for v in data for o in odd(v)]
    return [] if plain(data) else [(type(data), data)]


def key_text(val):
    """Dictionaries with non-text keys change key type in JSON text"""
    if isinstance(val, dict):
        return all(isinstance(k, str) and key_text(v)
                   for k, v in val.items())
    if isinstance(val, list):
        return all(key_text(v) for v in val)
    return True


def empty_array(obj):
    return any(isinstance(v, np.ndarray) and v.size == 0
               for v in walk(obj).values())


def check_classes(ctx, obj, data, include):
    """Class names and keys at every level, against the object tree"""
    names = [n for n in stored_names(obj) if getattr(obj, n) is not None]
    expect = set(names) | ({'__class__'} if include else set())
    ctx.check(set(data) == expect,
              'serialized keys are not exactly the set properties',
              sorted(data), sorted(expect))
    if include:
        ctx.check(data['__class__'] == type(obj).__name__,
                  'wrong class name', data['__class__'], type(obj))
    for name in names:
        check_value(ctx, getattr(obj, name), data[name], include)


def check_value(ctx, val, data, include):
    if isinstance(val, p.HasProperties):
        ctx.count('nested_instances')
        ctx.check(isinstance(data, dict), 'instance is not a dict', data)
        check_classes(ctx, val, data, include)
    elif isinstance(val, np.ndarray):
        ctx.check(isinstance(data, list) or val.ndim == 0,
                  'array is not a list', data)
    elif isinstance(val, (list, tuple, set)):
        ctx.count('containers')
        ctx.check(type(data) is list and len(data) == len(val),
                  'container is not a list of the same length', val, data)
        if not isinstance(val, set):
            for v, d in zip(val, data):
                check_value(ctx, v, d, include)
    elif isinstance(val, dict):
        ctx.count('containers')
        ctx.check(isinstance(data, dict) and len(data) == len(val),
                  'dictionary lost entries', val, data)
        for k, v in val.items():
            if k in data:
                check_value(ctx, v, data[k], include)


def trip(ctx, obj, include, options):
    before = canon(obj, ids=True)
    data = obj.serialize(include_class=include, **options)
    ctx.check(canon(obj, ids=True) == before,
              'serializing changed the instance', before, obj)
    ctx.check(plain(data), 'serialized data is not JSON data', odd(data), data)
    check_classes(ctx, obj, data, include)
    text = json.dumps(data)
    loaded = json.loads(text)
    if key_text(data):
        ctx.check(same_data(data, loaded), 'JSON text does not carry '
                  'the data', data, loaded)
    for source in ([data, loaded] if key_text(data) else [data]):
        snap = copy.deepcopy(source)
        inside = [(id(v), len(v)) for v in walk_data(source)]
        cls = type(obj) if not include or ctx.rng.random() < 0.5 else \
            ctx.rng.choice([type(obj)] + [
                c for c in type(obj).__mro__ if isinstance(c, type) and
                issubclass(c, p.HasProperties) and
                type(obj).__name__ in c._REGISTRY and
                c._REGISTRY[type(obj).__name__] is type(obj)])
        new = cls.deserialize(source, trusted=True)
        ctx.count('round_trips')
        ctx.check(same_data(source, snap) and
                  [(id(v), len(v)) for v in walk_data(source)] == inside,
                  'deserializing changed the input', snap, source)
        ctx.check(type(new) is type(obj), 'class was not preserved',
                  type(new), type(obj))
        ctx.check(equiv(obj, new), 'round trip changed a value',
                  state(obj), state(new), source)
        ctx.check(new.validate() is True, 'result is not valid', new)
        ctx.check(p.equal(obj, new) is True,
                  'result is not equal to the original', state(obj),
                  state(new))
        yield new


def walk_data(data):
    out = []
    if isinstance(data, (dict, list)):
        out.append(data)
        for v in (data.values() if isinstance(data, dict) else data):
            out += walk_data(v)
    return out


def same_data(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if type(a) is not type(b) and not isinstance(a, (str, int)):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_data(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same_data(x, y)
                                        for x, y in zip(a, b))
    if isinstance(a, float) and math.isnan(a):
        return math.isnan(b)
    return a == b


def run_case(ctx):
    rng = ctx.rng
    registry = {}
    family = shapes.family(rng, json=True, depth=rng.choice([1, 2, 3]),
                           uuids=True, registry=registry)
    derived = rng.random() < 0.5
    if derived:
        for i, shape in enumerate(list(family)):
            if rng.random() < 0.5:
                shape.derive(rng, 'Sub%d' % i, registry, json=True)
    shape = family[-1]
    for _ in range(3):
        obj = shape.instance(rng, prob=rng.choice([0.3, 0.9]))
        try:
            obj.validate()
        except ValueError:
            ctx.count('invalid_skipped')
            continue
        if empty_array(obj):
            ctx.count('empty_array_skipped')
            continue
        ctx.note(shape)
        ctx.note('state', state(obj))
        ctx.nontrivial(shape, canon(obj))
        options = {} if rng.random() < 0.7 else {
            'some_option': rng.randint(0, 9)}
        for new in trip(ctx, obj, True, options):
            pass
        if rng.random() < 0.5:
            ctx.count('second_generation')
            for _ in trip(ctx, new, True, {}):
                pass
        only = all(type(v).__name__.startswith('Kind')
                   for v in walk(obj).values()
                   if isinstance(v, p.HasProperties))
        if only:
            ctx.count('without_class')
            for _ in trip(ctx, obj, False, options):
                pass
