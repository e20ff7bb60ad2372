"""C37: property objects do the same on their own as in a class"""
import copy
import json
import uuid
import warnings

import properties as p

from vlib import specs as S
from vlib.canon import canon, equiv
from vlib.shapes import InstS, family

RULE = ('A case builds one property type twice, within a class and as an '
        'object of its own, and compares what both do with the same values '
        'and data: accept or refuse, the value kept, messages, equality of '
        'pairs, serialized and deserialized forms with several options, '
        'static conversion, None. Non-trivial: type, value and outcome.')
CASES = {'quick': 3000, 'thorough': 40000}
FLOORS = {'accepted': 6797, 'asserted': 2984, 'data_refused': 2948,
          'deserialized': 4606, 'equal_pairs': 1336, 'pairs': 4498, 'refused':
          2011, 'required': 744, 'serialized': 4401, 'static': 3449,
          'static_containers': 619}

LEAF = (S.BoolS, S.IntS, S.FloatS, S.ComplexS, S.StringS, S.ChoiceS,
        S.ColorS, S.StillColorS, S.DateTimeS, S.UrlS)
ERRORS = (ValueError, TypeError, AttributeError, KeyError)


class UuidS(S.Spec):
    """Identifiers: not assignable, but validated all the same"""
    def make(self, kw):
        return p.Uuid('identifier')


def attempt(func, *args, **kwargs):
    """(True, result) or (False, error)"""
    try:
        return True, func(*args, **kwargs)
    except ERRORS as err:
        return False, err


def ordered(spec, data):
    """Sets may be written in any order"""
    def sort(val):
        if isinstance(val, list):
            return sorted((sort(v) for v in val), key=repr)
        if isinstance(val, dict):
            return {k: sort(v) for k, v in val.items()}
        return val
    return canon(sort(data) if 'SetS' in repr(spec) else data)


def plain_parts(val, **kw):
    return [v.serialize(**kw) if isinstance(v, p.HasProperties) else v
            for v in val]


def values(ctx, rng, spec, cls, prop):
    """The accepted values of some candidates"""
    out = []
    for _ in range(6):
        val = spec.good(rng) if rng.random() < 0.5 else spec.candidate(rng)
        if S.awkward(spec, val) or val is p.undefined or val is None or \
                'random' in repr(val).lower():
            continue
        ctx.note('offer', val)
        known = canon(val)
        obj = cls()
        try:
            obj.own_x = val
            kept, error = obj.own_x, None
        except ValueError as err:
            error = err
        try:
            alone, alone_err = prop.validate(None, val), None
        except ValueError as err:
            alone_err = err
        except Exception as err:              # pylint: disable=broad-except
            ctx.fail('a property on its own breaks down', type(err), err,
                     spec, val)
        ctx.check(canon(val) == known, 'validation changed the value offered',
                  spec, val)
        ctx.check((error is None) == (alone_err is None), 'a property on its '
                  'own decides otherwise than in a class', spec, val, error,
                  alone_err)
        ctx.nontrivial(repr(spec), known, error is None)
        if error is not None:
            ctx.count('refused')
            ctx.check("'own_x'" in str(error) and ' of a Owner instance' in str(error),
                      'the error does not name property and class', error)
            # the property of the class, asked about no instance
            other = attempt(cls._props['own_x'].validate, None, val)
            named = isinstance(spec, (S.ArrayS, S.VecS)) or \
                "'own_x'" in str(other[1])      # arrays have their own words
            ctx.check(not other[0] and named and
                      isinstance(other[1], p.ValidationError) and
                      'of a Owner' not in str(other[1]) and all(
                          t.instance is None for t in other[1].error_tuples),
                      'the error of a property of a class, asked about no '
                      'instance', other)
            ctx.check('of a Owner' not in str(alone_err) and
                      "'own_x'" not in str(alone_err),
                      'the error of a property on its own names a class',
                      alone_err)
            continue
        ctx.count('accepted')
        ctx.check(equiv(kept, alone), 'a property on its own keeps another '
                  'value than in a class', spec, val, kept, alone)
        ctx.check(prop.equal(alone, kept) or has_odd(alone), 'the same value '
                  'twice is not equal', spec, alone, kept)
        out.append((obj, kept, alone))
    return out


def has_odd(val):
    """Holds what == does not compare, or files and the like"""
    return 'nan' in repr(val)


def pairs(ctx, rng, cls, prop, found):
    for _ in range(3):
        one, two = rng.choice(found), rng.choice(found)
        ctx.count('pairs')
        direct = attempt(prop.equal, one[2], two[2])
        owners = attempt(p.equal, one[0], two[0])
        ctx.check(direct[0] and owners[0], 'comparing valid values fails',
                  direct, owners, one[1], two[1])
        ctx.check(bool(direct[1]) == bool(owners[1]) or one[0] is two[0],
                  'a property on its own compares otherwise than in a class',
                  one[1], two[1], direct, owners)
        if bool(direct[1]):
            ctx.count('equal_pairs')


def writing(ctx, rng, spec, prop, found):
    """Data and values read from it"""
    for obj, kept, alone in found[:3]:
        options = rng.choice([{}, {}, {'include_class': False},
                              {'include_class': True}, {'other': 3}])
        good, whole = attempt(obj.serialize, **options)
        fine, data = attempt(prop.serialize, alone, **options)
        ctx.check(good == fine, 'a property on its own serializes otherwise '
                  'than in a class', spec, kept, whole, data)
        if not good:
            continue
        ctx.count('serialized')
        ctx.check('own_x' in whole and ordered(
            spec, whole['own_x']) == ordered(spec, data),
                  'a property on its own serializes otherwise than in a '
                  'class', spec, kept, options, whole, data)
        static(ctx, spec, prop, alone, data, options)
        if spec.json_ok and 'AnyS' not in repr(spec):
            for form in (data, spoiled(rng, data)):
                reading(ctx, spec, obj.__class__, prop, form)


SPOILERS = [None, 'zz', {}, [], 1e9, 10 ** 400]


def spoiled(rng, data):
    if isinstance(data, list) and data:
        out = list(data)
        out[rng.randrange(len(out))] = rng.choice(SPOILERS)
        return out
    if isinstance(data, dict) and data:
        out = dict(data)
        key = rng.choice(sorted(out, key=repr))
        if key != '__class__':
            out[key] = rng.choice(SPOILERS)
        return out
    return rng.choice(['zz', [], {}, 1e9, 10 ** 400, -1, True, None, [data]])


def reading(ctx, spec, cls, prop, data):
    shown = copy.deepcopy(data)
    good, obj = attempt(cls.deserialize, {'own_x': data})
    fine, val = attempt(prop.deserialize, data)
    if fine and val is not None:
        fine, val = attempt(prop.validate, None, val)
    if data is None:
        ctx.check(fine and val is None, 'None is deserialized to a value',
                  spec, val)
        return
    ctx.check(good == fine, 'a property on its own deserializes otherwise '
              'than in a class', spec, data, obj, val)
    ctx.check(repr(shown) == repr(data), 'deserializing changed the data',
              shown, data)
    if not good:
        ctx.count('data_refused')
        return
    ctx.count('deserialized')
    ctx.check(equiv(obj.own_x, val), 'a property on its own reads another value '
              'than in a class', spec, data, obj.own_x, val)


def static(ctx, spec, prop, val, data, options):
    """to_json and from_json, which know neither keywords nor inner types"""
    kind = type(prop)
    known = canon(val)
    if isinstance(spec, LEAF):
        ctx.count('static')
        out = kind.to_json(val, **options)
        ctx.check(canon(out) == canon(data), 'static conversion gives other '
                  'data', spec, val, out, data)
        back = attempt(kind.from_json, out, **options)
        other = attempt(prop.deserialize, data)
        ctx.check(back[0] == other[0] and (
            not back[0] or canon(back[1]) == canon(other[1])),
                  'static conversion reads another value', spec, out, back,
                  other)
    elif isinstance(spec, (S.ArrayS, S.VecS)):
        ctx.count('static')
        out = kind.to_json(val)
        ctx.check(canon(out) == canon(data), 'static conversion gives other '
                  'data', spec, val, out, data)
    elif isinstance(spec, (S.ContS, S.DictS)):
        ctx.count('static_containers')
        out = kind.to_json(val, **options)
        if isinstance(spec, S.DictS):
            want = dict(zip(val, plain_parts(val.values(), **options)))
            same = type(out) is dict and list(map(id, out)) == list(
                map(id, val))
            got, want = list(out.values()), list(want.values())
        else:
            same = type(out) is list
            got, want = out, plain_parts(val, **options)
        ctx.check(same and out is not val and canon(got) == canon(want) and
                  all(a is b for a, b in zip(got, want)
                      if not isinstance(b, (dict, list))),
                  'static conversion of a container gives something else',
                  spec, val, out, want)
        base = {'ListS': list, 'TupleS': tuple, 'SetS': set,
                'DictS': dict}[type(spec).__name__]
        back = attempt(kind.from_json, out, **options)
        hashable = attempt(base, out)[0]
        ctx.check(back[0] == hashable, 'static reading of a container', spec,
                  out, back)
        if back[0]:
            ctx.check(type(back[1]) is base and (
                back[1] is not out or base is dict) and canon(back[1]) == canon(base(out)), 'static reading of '
                      'a container gives something else', spec, out, back)
    elif isinstance(spec, (InstS,)):
        ctx.count('static')
        ctx.check(canon(kind.to_json(val, **options)) == canon(data),
                  'static conversion of an instance', spec, data)
        ctx.check(not attempt(kind.from_json, data)[0], 'instances are read '
                  'without their class', spec, data)
    ctx.check(canon(val) == known, 'static conversion changed the value',
              spec, val)


def nothing(ctx, rng, spec, cls, prop, found):
    """No value, and checks of stored ones"""
    ctx.check(prop.serialize(None) is None and prop.deserialize(None) is None,
              'None is converted', spec)
    owned = cls._props['own_x']
    obj = cls()
    need = owned.required
    good, err = attempt(owned.assert_valid, obj)
    ctx.count('required', need)
    ctx.check(good == (not need), 'a missing value is judged wrongly', spec,
              need, err)
    if need:
        ctx.check(isinstance(err, p.ValidationError) and [
            (t.reason, t.prop, t.instance is obj) for t in err.error_tuples]
                  == [('missing', 'own_x', True)], 'the error of a missing value',
                  err)
    for obj, kept, alone in found[:2]:
        stored = attempt(owned.assert_valid, obj)
        given = attempt(owned.assert_valid, obj, kept)
        own = attempt(obj.validate)
        ctx.check(stored[0] == given[0], 'a value given and stored is judged '
                  'differently', spec, kept, stored, given)
        ctx.check(stored[0] == own[0], 'the instance judges its only value '
                  'differently', spec, kept, stored, own)
        if 'None' in repr(alone):
            # with no value to check, the instance is asked for its own
            continue
        single = attempt(prop.assert_valid, None, alone)
        ctx.count('asserted')
        ctx.check(single[0] == stored[0] and (
            single[1] is True if single[0] else
            isinstance(single[1], ValueError)), 'a property on its own '
                  'judges a valid value otherwise than in a class', spec,
                  kept, single, stored)


def identifiers(ctx, rng):
    """The one type that cannot be assigned"""
    prop = p.Uuid('identifier')
    val = uuid.UUID(int=rng.getrandbits(128), version=4)
    ctx.check(prop.validate(None, val) is val, 'an identifier was replaced')
    data = prop.serialize(val)
    ctx.check(data == str(val) and prop.deserialize(data) == val and
              p.Uuid.to_json(val) == data and p.Uuid.from_json(data) == val,
              'an identifier is converted to something else', val, data)
    for bad in ('x', data, 5, None, val.int, val.bytes):
        ctx.check(not attempt(prop.validate, None, bad)[0], 'a wrong '
                  'identifier is accepted', bad)
    ctx.check(prop.equal(val, uuid.UUID(str(val))) and not prop.equal(
        val, uuid.UUID(int=val.int ^ 1)), 'identifiers compare wrongly', val)


def run_case(ctx):
    rng = ctx.rng
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if rng.random() < 0.02:
            identifiers(ctx, rng)
        pool = []
        if rng.random() < 0.5:
            pool = [InstS(rng, s) for s in family(
                rng, depth=1, size=1, json=True,
                spec_filter=lambda s: 'AnyS' not in repr(s) and
                'ColorS' not in repr(s))]
        spec = rng.choice([
            lambda: S.draw(rng, 0), lambda: S.draw(rng, 1, pool=pool),
            lambda: S.draw(rng, 2, pool=pool), lambda: S.ArrayS(rng),
            lambda: S.VecS(rng)])()
        cls = type('Owner', (p.HasProperties,), {
            '_REGISTRY': {}, 'own_x': spec.build(required=rng.random() < 0.5)})
        prop = spec.build()
        ctx.note(spec)
        found = values(ctx, rng, spec, cls, prop)
        nothing(ctx, rng, spec, cls, prop, found)
        if found:
            pairs(ctx, rng, cls, prop, found)
            writing(ctx, rng, spec, prop, found)
