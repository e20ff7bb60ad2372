"""C08: instance validation against a model of every failure"""
import properties as p

from vlib import specs as S
from vlib.canon import canon, walk

RULE = ('A case builds an object tree (nested instances, lists, tuples and '
        'dictionaries of instances and scalars), then plants faults: missing '
        'required values, invalid values planted behind validation, broken '
        'length limits, armed set-time validators and failing class '
        'validators, and validates repeatedly while planting and repairing. '
        'A model computes the exact entries. Non-trivial: validations with at '
        'least one planted fault, by fault pattern.')
CASES = {'quick': 1350, 'thorough': 10800}
FLOORS = {'entries': 15167, 'failed_validations': 6536, 'generic_errors': 177,
          'hook_calls': 12160, 'nested_failures': 3300, 'passed_validations':
          2073, 'validations': 8870}


class World(object):
    def __init__(self):
        self.hooks = []
        self.enforce = False
        self.refuse = {}       # (id(obj), name) -> how
        self.classfail = {}    # (id(obj), validator name) -> how


def odd_truth(rng):
    """Methods which make instances false as a condition"""
    roll = rng.random()
    if roll < 0.1:
        return {'__len__': lambda self: 0}
    if roll < 0.2:
        return {'__bool__': lambda self: False}
    return {}


def make_classes(ctx, world, registry):
    rng = ctx.rng

    def hook(self, tuples):
        world.hooks.append((id(self), [entry(t) for t in tuples]))

    def set_time(self, change):
        how = world.refuse.get((id(self), change['name']))
        if how == 'raise' and world.enforce:
            raise p.ValidationError('refused', 'invalid', change['name'],
                                    self)
        if how == 'replace':
            change['value'] = world.replacement

    def class_validator(name):
        def check(self):
            how = world.classfail.get((id(self), name))
            if how == 'raise':
                raise p.ValidationError('inconsistent', 'odd', None, self)
            if how == 'named':
                raise p.ValidationError('inconsistent', 'invalid', 'num',
                                        self)
            if how == 'false':
                return False
            if how == 'generic':
                raise KeyError('generic')
            return True if rng_bit else None
        return check
    rng_bit = rng.random() < 0.5

    def body(extra, tag):
        out = {
            '_REGISTRY': registry, '_error_hook': hook,
            **odd_truth(rng),
            'num': p.Integer('int', min=0, max=9, required=rng.random() < .5),
            'text': p.String('text', required=rng.random() < 0.5),
            'items': p.List('list', p.Integer('', min=0, max=9),
                            required=rng.random() < 0.3, min_length=1,
                            max_length=3),
        }
        if rng.random() < 0.7:
            out['on_num'] = p.validator(
                rng.choice(['num', ['num', 'text'], p.everything]))(set_time)
        else:
            out['_free'] = True
        for k in range(rng.randint(0, 3)):
            out['check_%s_%d' % (tag, k)] = p.validator(
                class_validator('check_%s_%d' % (tag, k)))
        out.update(extra)
        return out
    leaf = type('Leaf', (p.HasProperties,), body({}, 'leaf'))
    mid = type('Mid', (p.HasProperties,), body({
        'one': p.Instance('leaf', leaf, required=rng.random() < 0.4),
        'many': p.List('leaves', leaf, required=False),
    }, 'mid'))
    if rng.random() < 0.4:
        leaf = type('SubLeaf', (leaf,), {
            'more': p.Float('more', min=0, required=rng.random() < 0.5)})
    top = type('Top', (p.HasProperties,), body({
        'mid': p.Instance('mid', mid, required=rng.random() < 0.5),
        'row': p.Tuple('leaves', leaf, required=False, max_length=2),
        'table': p.Dictionary('leaves', key_prop=p.String(''),
                              value_prop=p.Instance('', leaf),
                              required=False),
        'keyed': p.Dictionary('by leaf', key_prop=leaf,
                              value_prop=p.Integer('', min=0),
                              required=False),
        'nums': p.Dictionary('numbers', key_prop=p.String(''),
                             value_prop=p.Integer('', min=0),
                             required=False),
        'ident': p.Uuid('identifier'),
    }, 'top'))
    return leaf, mid, top


def entry(tup):
    return (tup.reason, tup.prop, id(tup.instance)
            if tup.instance is not None else None)


class Generic(Exception):
    """The model expects the validator's own error"""


def own_entries(world, obj, hooks):
    """Entries of validating this instance; appends expected hook calls"""
    out = []
    generic = False
    checks = [n for n in obj._class_validators]
    for name in checks:
        if name == '_validate_props':
            for key in obj._props:
                out += prop_entries(world, obj, key, hooks)
            continue
        how = world.classfail.get((id(obj), name))
        if how == 'raise':
            out.append(('odd', None, id(obj)))
        elif how == 'named':
            out.append(('invalid', 'num', id(obj)))
        elif how == 'false':
            out.append((None, None, id(obj)))
        elif how == 'generic':
            generic = True
    if out:
        hooks.append((id(obj), sorted(out, key=repr)))
        return out
    if generic:
        raise Generic
    return out


def prop_entries(world, obj, key, hooks):
    prop = obj._props[key]
    val = getattr(obj, key)
    if val is None:
        if getattr(prop, 'required', False):
            return [('missing', key, id(obj))]
        return []
    invalid = [('invalid', key, id(obj))]
    listening = 'on_num' in type(obj).__dict__ or any(
        'on_num' in c.__dict__ for c in type(obj).__mro__)
    if listening:
        names = [o.names for o in obj._prop_observers.values()
                 if o.mode == 'validate']
        hears = any(n is p.everything or key in n for n in names)
        if hears and world.refuse.get((id(obj), key)):
            return invalid
    if key in ('num', 'text', 'more'):
        good = {'num': lambda v: isinstance(v, int) and 0 <= v <= 9,
                'text': lambda v: isinstance(v, str),
                'more': lambda v: isinstance(v, float) and v >= 0}[key](val)
        return [] if good else invalid
    if key == 'items':
        good = isinstance(val, list) and 1 <= len(val) <= 3 and all(
            isinstance(v, int) and 0 <= v <= 9 for v in val)
        return [] if good else invalid
    if key == 'nums':
        return [] if all(isinstance(k, str) and isinstance(v, int) and v >= 0
                         for k, v in val.items()) else invalid
    if key == 'ident':
        return []
    if key in ('one', 'mid'):
        return own_entries(world, val, hooks)
    if key == 'keyed':
        seq = list(val)
        if not all(v >= 0 for v in val.values()):
            return invalid
    else:
        seq = list(val.values()) if isinstance(val, dict) else list(val)
    if not all(isinstance(v, p.HasProperties) for v in seq):
        return invalid
    if key == 'row' and len(val) > 2:
        return invalid
    for item in seq:
        got = own_entries(world, item, hooks)
        if got:
            return got       # the first failing element is reported
    return []


def build(ctx, leaf, mid, top, world):
    rng = ctx.rng

    def fill(obj):
        if rng.random() < 0.75:
            obj.num = rng.randint(0, 9)
        if rng.random() < 0.75:
            obj.text = rng.choice(['a', '', 'long'])
        if rng.random() < 0.7:
            obj.items = [rng.randint(0, 9)
                         for _ in range(rng.choice([1, 2, 3, 3, 4, 0]))]
        if 'more' in obj._props and rng.random() < 0.6:
            obj.more = rng.random()
        return obj
    leaves = [fill(leaf()) for _ in range(4)]
    mids = []
    for _ in range(2):
        m = fill(mid())
        base = type(m)._props['one'].instance_class
        pick = [x for x in leaves if isinstance(x, base)]
        if rng.random() < 0.7:
            m.one = rng.choice(pick)
        if rng.random() < 0.5:
            m.many = [rng.choice(pick) for _ in range(rng.randint(0, 3))]
        mids.append(m)
    t = fill(top())
    if rng.random() < 0.8:
        t.mid = rng.choice(mids)
    if rng.random() < 0.5:
        t.row = tuple(rng.choice(leaves) for _ in range(rng.randint(0, 3)))
    if rng.random() < 0.5:
        t.table = {'k%d' % i: rng.choice(leaves)
                   for i in range(rng.randint(0, 3))}
    if rng.random() < 0.4:
        t.keyed = {rng.choice(leaves): i for i in range(rng.randint(0, 3))}
    if rng.random() < 0.4:
        t.nums = {'a': 1, 'b': 2}
    return [t] + mids + leaves


def plant(ctx, world, objs):
    """One random fault or repair"""
    rng = ctx.rng
    obj = rng.choice(objs)
    roll = rng.random()
    if roll < 0.2:
        name = rng.choice(['num', 'text', 'items'])
        delattr(obj, name)
        ctx.note('delete', objs.index(obj), name)
    elif roll < 0.35 and obj.items is not None:
        obj.items.append(rng.choice([1, 2, -1, 'bad', None, 10, 4.5]))
        if rng.random() < 0.3:
            obj.items.pop(0)
        ctx.note('items in place', objs.index(obj), obj.items)
    elif roll < 0.45:
        # a value planted by a replacing validator, later disarmed
        if 'on_num' not in dir(type(obj)):
            return
        world.refuse[id(obj), 'num'] = 'replace'
        world.replacement = rng.choice([-1, 10, 'text', 5])
        try:
            obj.num = 3
        finally:
            del world.refuse[id(obj), 'num']
        ctx.note('replaced', objs.index(obj), obj.num)
    elif roll < 0.6:
        name = rng.choice(['num', 'text', 'items'])
        key = (id(obj), name)
        if world.refuse.pop(key, None) is None:
            world.refuse[key] = 'raise'
        ctx.note('refuse', objs.index(obj), name, key in world.refuse)
    elif roll < 0.8:
        names = [n for n in obj._class_validators if n != '_validate_props']
        if not names:
            return
        key = (id(obj), rng.choice(names))
        if world.classfail.pop(key, None) is None:
            world.classfail[key] = rng.choice(
                ['raise', 'named', 'false', 'generic'])
        ctx.note('class validator', objs.index(obj), key[1],
                 world.classfail.get(key))
    elif roll < 0.85 and getattr(obj, 'nums', None):
        obj.nums['c'] = rng.choice([-1, 3, 'x'])
    else:
        # repair
        world.refuse.clear()
        for key in list(world.classfail):
            if key[0] == id(obj):
                del world.classfail[key]
        obj.num, obj.text, obj.items = 4, 'ok', [1, 2]
        if 'more' in obj._props:
            obj.more = 1.5
        if 'nums' in obj._props:
            obj.nums = {'z': 0}
        ctx.note('repair', objs.index(obj))


def run_case(ctx):
    rng = ctx.rng
    world = World()
    world.replacement = None
    leaf, mid, top = make_classes(ctx, world, {})
    objs = build(ctx, leaf, mid, top, world)
    pending = list(objs)
    for _ in range(rng.randint(6, 14)):
        for _ in range(rng.randint(1, 3)):
            plant(ctx, world, objs)
        obj = rng.choice(objs[:3] + objs)
        for _ in range(rng.choice([1, 1, 2])):
            before = [canon(o) for o in objs]
            ids = [sorted(walk(o)) for o in objs]
            hooks = []
            generic = False
            try:
                want = own_entries(world, obj, hooks)
            except Generic:
                generic = True
                want = None
            del world.hooks[:]
            ctx.count('validations')
            world.enforce = True
            try:
                got = obj.validate()
                err = None
            except (ValueError, KeyError) as exc:
                got, err = None, exc
            finally:
                world.enforce = False
            ctx.count('hook_calls', len(world.hooks))
            ctx.check([canon(o) for o in objs] == before and
                      [sorted(walk(o)) for o in objs] == ids,
                      'validation changed an instance')
            if generic:
                ctx.count('generic_errors')
                ctx.check(err is not None, 'a failing validator was ignored')
                continue
            if not want:
                ctx.count('passed_validations')
                ctx.check(err is None and got is True,
                          'a valid instance was refused', err)
                ctx.check(not world.hooks, 'error hook called on success',
                          world.hooks)
                continue
            ctx.count('failed_validations')
            ctx.count('entries', len(want))
            if any(e[2] != id(obj) for e in want):
                ctx.count('nested_failures')
            ctx.nontrivial(sorted((e[0], e[1], e[2] == id(obj))
                                  for e in want) if all(
                                      e[0] and e[1] for e in want)
                           else repr([(e[0], e[1]) for e in want]))
            ctx.check(isinstance(err, p.ValidationError),
                      'an invalid instance passed validation, or raised '
                      'something else', 'expected %r' % (want,), err)
            seen = [entry(t) for t in err.error_tuples]
            ctx.check(sorted(seen, key=repr) == sorted(want, key=repr),
                      'reported failures differ', 'reported %r' % (seen,),
                      'expected %r' % (want,))
            calls = [(i, sorted(e, key=repr)) for i, e in world.hooks]
            ctx.check(sorted(calls, key=repr) == sorted(hooks, key=repr),
                      'error hook calls differ', 'called %r' % (calls,),
                      'expected %r' % (hooks,))
    del pending
