"""C35: any JSON data gives valid values or an error"""
import copy
import json
import re
import warnings

import properties as p

from vlib import specs as S
from vlib.canon import canon, equiv
from vlib.shapes import InstS, family

RULE = ('A case draws property types, serializes values and spoils the data '
        '(other leaves, wrong nesting, missing and extra entries, huge and '
        'odd numbers, texts that look like numbers), or takes random JSON '
        'data, and reads it: by a class with that property, by the property '
        'within containers, unions and nested classes, several times, and '
        'what it became once more. Non-trivial: data, by type and form.')
CASES = {'quick': 3500, 'thorough': 60000}
FLOORS = {'accepted': 6154, 'graphs': 1240, 'graphs_read': 247, 'meaningless':
          6183, 'meant': 3465, 'placed': 3500, 'placed_accepted': 908,
          'refused': 25982, 'refused_by_value': 20641, 'union_takes_value': 8}

LEAVES = [None, True, False, 0, 1, -1, 2.5, 3.0, 10 ** 400, -10 ** 400,
          2 ** 64, 2 ** 63, float('nan'), float('inf'), -0.0, 1e308, 1e-320,
          'nan', 'inf', '-inf', 'Infinity', '', 'a', ' a ', 'red', '#fff',
          '1', '2.5', ' 3 ', '1e3', 'True', 'true', 'yes', 'X', 'east',
          '2010-01-02', '1995-08-12T18:00:00Z',
          '2020-01-02T03:04:05+05:00', '2020-01-02T03:04:05.5Z',
          '2020-01-02T03:04:05Z!', 'y', 'No', 'YES', 'oN', 'Off', 'f', 't', '1+2j', '(1+2j)', 'no', 'on',
          'off', '{}', 'Beta', '0', '-0', '1_000', '\x00', 'ü', '9' * 5000,
          '00000000-0000-0000-0000-000000000000', '\u0663', 'None', 'null']
# what reading malformed data may raise; anything else is a breakdown
REFUSALS = (ValueError, TypeError, AttributeError, KeyError)


def any_json(rng, depth=0):
    roll = rng.random()
    if depth < 3 and roll < .2:
        return [any_json(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    if depth < 3 and roll < .33:
        return {rng.choice(['a', 'num', '', '1', 'x']):
                any_json(rng, depth + 1) for _ in range(rng.randint(0, 3))}
    return rng.choice(LEAVES)


def spoil(rng, data):
    """The same data with one part changed"""
    if isinstance(data, list) and data and rng.random() < 0.75:
        out = list(data)
        i = rng.randrange(len(out))
        roll = rng.random()
        if roll < 0.7:
            out[i] = spoil(rng, out[i])
        elif roll < 0.8:
            del out[i]
        elif roll < 0.9:
            out.insert(i, any_json(rng, 2))
        else:
            out.append(copy.deepcopy(out[i]))
        return out
    if isinstance(data, dict) and data and rng.random() < 0.75:
        out = dict(data)
        key = rng.choice(sorted(out, key=repr))
        roll = rng.random()
        if roll < 0.7:
            if key != '__class__':
                out[key] = spoil(rng, out[key])
        elif roll < 0.8:
            del out[key]
        elif roll < 0.9:
            out[rng.choice(['more', '__class__', '', key])] = any_json(rng, 2)
        else:
            out[key] = [out[key]]
        return out
    roll = rng.random()
    if rng.random() < 0.5:
        # something of the same kind
        alike = [v for v in LEAVES if type(v) is type(data)]
        if isinstance(data, (int, float)) and not isinstance(data, bool):
            alike = [v for v in LEAVES if type(v) in (int, float)] + [
                data + 1 if abs(data) < 1e300 else 1, 5, 0.5]
        return rng.choice(alike or LEAVES)
    if roll < 0.2:
        return [data]
    if roll < 0.3 and isinstance(data, (int, float)) and data == data and \
            abs(data) < 1e300:
        return str(data)
    if roll < 0.4 and isinstance(data, str):
        return data + rng.choice([' ', 'x', '0', '+05:00', 'Z'])
    if roll < 0.5 and isinstance(data, str):
        return data.upper() if rng.random() < 0.5 else data[:-1]
    return any_json(rng, 1)


def owner(prop):
    return type('Owner', (p.HasProperties,), {'_REGISTRY': {}, 'x': prop})


def read(ctx, cls, data, *where):
    """The instance, or None for an error"""
    keep = copy.deepcopy(data)
    try:
        obj = cls.deserialize(data)
    except REFUSALS as err:
        obj = None
        ctx.count('refused')
        ctx.count('refused_by_value', isinstance(err, ValueError))
    except Exception as err:                  # pylint: disable=broad-except
        ctx.fail('malformed data is not refused but breaks down: %s: %s' % (
            type(err).__name__, str(err)[:200]), *where)
    ctx.check(repr(keep) == repr(data), 'reading changed the data', keep,
              *where)
    return obj


def check_whole(ctx, spec, cls, data):
    """One class, one property, its data"""
    where = (spec, data)
    obj = read(ctx, cls, {'x': data}, *where)
    again = read(ctx, cls, {'x': copy.deepcopy(data)}, *where)
    ctx.check((obj is None) == (again is None), 'the same data is accepted '
              'and refused', *where)
    check_meaning(ctx, spec, data, obj, *where)
    if obj is None:
        return None
    ctx.count('accepted')
    val = obj.x
    ctx.check(equiv(val, again.x), 'the same data gives different values',
              val, again.x, *where)
    if data is not None:
        ctx.check(val is not None, 'data was silently dropped', *where)
    if "'length'" in repr(spec) and 'nan' in repr(canon(val)):
        ctx.count('no_direction')   # infinite parts cannot be scaled
        return obj
    # what was read is what can be assigned
    try:
        model = spec.model(val)
    except S.Reject:
        ctx.fail('the value read is not acceptable', val, *where)
    except S.Unspec:
        model = None
    if model is not None:
        other = cls()
        other.x = val
        ctx.check(equiv(other.x, val), 'the value read is not stable', val,
                  other.x, *where)
    # and what is written again is read the same
    try:
        out = obj.serialize()
    except Exception as err:                  # pylint: disable=broad-except
        ctx.fail('what was read cannot be written: %s: %s' % (
            type(err).__name__, str(err)[:200]), val, *where)
    text = json.dumps(out, sort_keys=False)
    back = read(ctx, cls, json.loads(text), val, *where) if keys_are_text(
        out) else read(ctx, cls, out, val, *where)
    ctx.check(back is not None, 'what was read and written is refused', val,
              text[:300], *where)
    ctx.check(equiv(back.x, val), 'what was read and written is read '
              'differently', val, back.x, text[:300], *where)
    return obj


YES, NO = ('TRUE', 'Y', 'YES', 'ON'), ('FALSE', 'N', 'NO', 'OFF')


def meaning(spec, data):
    """What the data stands for, for the types that have one reading;
    raises Reject when it stands for nothing, Unspec when it is open"""
    kind = type(spec)
    if data is None:
        raise S.Unspec
    if kind is S.BoolS:
        if isinstance(data, str):
            if data.upper() not in YES + NO:
                raise S.Reject
            return spec.model(data.upper() in YES)
        if not isinstance(data, int):
            raise S.Reject
        return spec.model(data)
    if kind in (S.IntS, S.FloatS, S.ComplexS):
        if isinstance(data, bool):
            raise S.Unspec
        if isinstance(data, str):
            if kind is S.IntS and not re.match(r'^ *-?\d+ *$', data):
                if re.search(r'\d', data):
                    raise S.Unspec
                raise S.Reject
            try:
                data = {S.IntS: int, S.FloatS: float,
                        S.ComplexS: complex}[kind](data)
            except ValueError:
                raise S.Reject
        elif not isinstance(data, (int, float)):
            raise S.Reject
        elif kind is S.IntS and data != data // 1:
            raise S.Unspec
        try:
            data = {S.IntS: int, S.FloatS: float,
                    S.ComplexS: complex}[kind](data)
        except (OverflowError, ValueError):
            raise S.Reject
        return spec.model(data)
    if kind in (S.StringS, S.ChoiceS, S.ColorS, S.StillColorS, S.DateTimeS,
                S.UrlS):
        if kind in (S.ColorS, S.StillColorS):
            if not isinstance(data, list):
                raise S.Unspec
            data = tuple(data)
        return spec.model(data)
    raise S.Unspec


def check_meaning(ctx, spec, data, obj, *where):
    try:
        want = meaning(spec, data)
    except S.Unspec:
        return
    except S.Reject:
        ctx.count('meaningless')
        ctx.check(obj is None, 'data that stands for no value is read',
                  obj and obj.x, *where)
        return
    ctx.count('meant')
    ctx.check(obj is not None, 'data that stands for a value is refused',
              want, *where)
    ctx.check(S.match(want, obj.x), 'data is read as something else than it '
              'stands for', obj.x, want, *where)


def keys_are_text(data):
    if isinstance(data, dict):
        return all(isinstance(k, str) and keys_are_text(v)
                   for k, v in data.items())
    if isinstance(data, list):
        return all(keys_are_text(v) for v in data)
    return True


def check_places(ctx, rng, make, spec, cases):
    """Within other types the data means the same"""
    place = rng.choice(['list', 'tuple', 'dict', 'union', 'kid', 'kids'])
    some = [rng.choice(cases) for _ in range(rng.randint(1, 3))]
    datas = [d for d, _ in some]
    want = [o.x if o is not None else None for _, o in some]
    good = all(w is not None for w in want)
    if place == 'list':
        cls, data = owner(p.List('', make())), datas
    elif place == 'tuple':
        cls, data = owner(p.Tuple('', make())), datas
    elif place == 'dict':
        cls = owner(p.Dictionary('', value_prop=make()))
        data = {str(i): d for i, d in enumerate(datas)}
    elif place == 'union':
        cls = owner(p.Union('', [make()]))
        data, want = datas[0], want[:1]
        good = want[0] is not None
    elif place == 'kid':
        cls = owner(p.Instance('', owner(make())))
        data, want = {'x': datas[0]}, want[:1]
        good = want[0] is not None
    else:
        cls = owner(p.List('', owner(make())))
        data = [{'x': d} for d in datas]
    ctx.count('placed')
    where = (place, spec, data)
    obj = read(ctx, cls, {'x': data}, *where)
    if place == 'union' and not good:
        # a union also takes data as the value
        if obj is not None:
            ctx.count('union_takes_value')
            try:
                spec.model(data)
            except S.Reject:
                ctx.fail('a union accepts what its type refuses', obj.x,
                         *where)
            except S.Unspec:
                pass
        return
    ctx.check((obj is not None) == good, 'data is accepted in one place and '
              'refused in another', obj and obj.x, want, *where)
    if obj is None:
        return
    ctx.count('placed_accepted')
    got = obj.x
    if place == 'dict':
        got = [got[str(i)] for i in range(len(datas))]
    elif place == 'union':
        got = [got]
    elif place == 'kid':
        got = [got.x]
    elif place == 'kids':
        got = [k.x for k in got]
    ctx.check(equiv(list(got), want), 'data means something else in another '
              'place', got, want, *where)


def graphs(ctx, rng):
    """Instances with identifiers, and their registry of entries"""
    Node = type('Node', (p.extras.HasUID,), {
        '_REGISTRY': {}, '_INSTANCES': {},
        'num': p.Integer('num', required=False)})
    Top = type('Top', (Node,), {
        'one': p.Instance('one', Node, required=False),
        'many': p.List('many', Node, required=False),
        'ref': p.extras.Pointer('ref', Node, required=False)})
    nodes = [Node(num=rng.randint(0, 9)) for _ in range(rng.randint(1, 3))]
    top = Top(one=nodes[0], many=nodes, ref=rng.choice(nodes))
    given = json.loads(json.dumps(top.serialize()))
    for _ in range(5):
        data = copy.deepcopy(given)
        roll = rng.random()
        if roll < 0.35:
            data[rng.choice(sorted(data))] = any_json(rng)
        elif roll < 0.7:
            key = rng.choice(sorted(given))
            data[key] = spoil(rng, data[key])
        elif roll < 0.9:
            data = spoil(rng, data)
        else:
            data = any_json(rng)
        Node._INSTANCES.clear()
        ctx.note('graph', repr(data)[:400])
        obj = read(ctx, Top, data, 'graph', data)
        ctx.count('graphs')
        if obj is None:
            continue
        ctx.count('graphs_read')
        ctx.check(isinstance(obj, Node), 'not an instance', obj, data)
        for name in ('one', 'many', 'ref'):
            val = getattr(obj, name, None)
            for item in val if isinstance(val, list) else [val]:
                ctx.check(item is None or isinstance(item, Node) or
                          name == 'ref' and isinstance(item, str),
                          'not an instance of the class', name, item, data)
                num = getattr(item, 'num', None)
                ctx.check(num is None or isinstance(num, int),
                          'not an integer', num, data)


def run_case(ctx):
    rng = ctx.rng
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if rng.random() < 0.15:
            graphs(ctx, rng)
        for _ in range(2):
            one_type(ctx, rng)


def one_type(ctx, rng):
    pool = []
    if rng.random() < 0.3:
        pool = [InstS(rng, s) for s in family(
            rng, json=True, depth=1, size=1, spec_filter=lambda s: not any(
                w in repr(s) for w in ('ColorS', 'AnyS')))]
    while True:
        spec = S.draw(rng, rng.randint(0, 2), pool=pool, json=True)
        if spec.json_ok and 'AnyS' not in repr(spec):
            break
    cls = owner(spec.build(required=False))
    cases = []
    for _ in range(5):
        if rng.random() < 0.75:
            obj = cls()
            val = spec.good(rng)
            if 'random' in repr(val):
                continue
            try:
                obj.x = val
                data = json.loads(json.dumps(obj.serialize()['x']))
            except (KeyError, ValueError, TypeError):
                continue
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                data = spoil(rng, data)
        else:
            data = any_json(rng)
        ctx.note(repr(spec)[:200], repr(data)[:300])
        obj = check_whole(ctx, spec, cls, data)
        cases.append((data, obj))
        ctx.nontrivial((repr(spec), repr(data)[:200], obj is None))
    if cases:
        check_places(ctx, rng, lambda: spec.build(), spec, cases)
