"""C17: immutable properties and identifiers cannot change"""
import json
import random
import uuid

import properties as p

from vlib.canon import canon

RULE = ('A case builds classes with immutable properties (constants, '
        'callable and overridden defaults, coercing custom types, '
        'identifiers, nested instances and containers of them, old names), '
        'constructs instances and attempts to change every immutable value '
        'through every public operation, checking the error and every '
        'value after each; serialization, deserialization and copies must '
        'keep identifiers exactly. Non-trivial: an attempted change, by kind '
        'of property and operation.')
CASES = {'quick': 1800, 'thorough': 14400}
FLOORS = {'attempts': 18000, 'callable_defaults': 3119, 'copies': 2544,
          'foreign_data': 540, 'identifiers': 6721, 'links': 1244, 'refused':
          11478, 'round_trips': 4651, 'seeded': 1465, 'values_checked': 825227}

SEEN = set()        # every identifier generated in this run


class Even(p.GettableProperty):
    """Immutable property which doubles on validation of odd numbers"""

    def validate(self, instance, value):
        if not isinstance(value, int):
            self.error(instance, value)
        return value if value % 2 == 0 else value * 2


class Boom(Exception):
    pass


class Tick(object):
    def __init__(self):
        self.calls = 0

    def __call__(self):
        self.calls += 1
        return self.calls * 2


def family(ctx, rng):
    """(classes, {cls: {immutable name: kind}})"""
    registry = {}
    ticks = {}
    ns = {'_REGISTRY': registry,
          'ident': p.Uuid('identifier'),
          'num': p.Integer('n', required=False),
          'const': p.GettableProperty('c', default=rng.choice(
              [0, 7, 'text', False, 1.5])),
          'even': Even('e', default=rng.choice([2, 3])),
          'old_const': p.Renamed('const', warn=False),
          'old_ident': p.Renamed('ident', warn=False)}
    if rng.random() < 0.6:
        ticks['tick'] = Tick()
        ns['tick'] = p.GettableProperty('t', default=ticks['tick'])
    if rng.random() < 0.4:
        ns['second'] = p.Uuid('another identifier')
    if rng.random() < 0.4:
        ns['empty'] = p.GettableProperty('nothing')
    if rng.random() < 0.4:
        fixed = uuid.UUID(int=rng.getrandbits(128))
        ns['fixed'] = p.Uuid('fixed identifier')
        ns['_defaults'] = {'fixed': fixed}
    if rng.random() < 0.5:
        def raising(self, change):
            if self.num == 13:
                raise Boom()
        ns['watch'] = p.observer('num')(raising)
    ns = dict(ns)
    kinds = {n: ('renamed' if isinstance(v, p.Renamed) else
                 'uuid' if isinstance(v, p.Uuid) else 'const')
             for n, v in ns.items() if isinstance(v, p.GettableProperty)
             and not isinstance(v, p.Property)}
    base = type('Base', (p.HasProperties,), dict(ns))
    ns2 = {'child': p.Instance('b', base, required=False,
                               default=rng.choice([base, p.undefined])),
           'many': p.List('bs', base, required=False),
           'table': p.Dictionary('bs', key_prop=p.String(''),
                                 value_prop=base, required=False)}
    over = {}
    if rng.random() < 0.5:
        over['const'] = rng.choice([1, 'other', None])
        if over['const'] is None:
            ticks['const'] = over['const'] = Tick()
    if rng.random() < 0.3:
        over['even'] = rng.choice([5, 8])
    if over:
        ns2['_defaults'] = over
    sub = type('Sub', (base,), ns2)
    return base, sub, kinds, ticks, over, ns


def expected(cls, sub, name, over, ns, ticks, before):
    """The value a new instance takes for a constant"""
    if cls is sub and name in over:
        val = over[name]
    else:
        val = ns[name].default
    if callable(val):
        val = (before[id(val)] + 1) * 2
    if val is p.undefined:
        return None
    if name == 'even':
        return val if val % 2 == 0 else val * 2
    return val


def new(ctx, rng, fam, depth=1):
    base, sub, kinds, ticks, over, ns = fam
    cls = rng.choice([base, sub]) if depth else base
    kwargs = {}
    if cls is sub and depth:
        if rng.random() < 0.6:
            kwargs['child'] = new(ctx, rng, fam, 0)
        if rng.random() < 0.6:
            kwargs['many'] = [new(ctx, rng, fam, 0)
                              for _ in range(rng.randint(0, 2))]
        if rng.random() < 0.4:
            kwargs['table'] = {'k': new(ctx, rng, fam, 0)}
    if rng.random() < 0.5:
        kwargs['num'] = rng.randint(0, 9)
    before = {id(t): t.calls for t in ticks.values()}
    auto = cls is sub and 'child' in kwargs
    if rng.random() < 0.3:
        # programs seed the generator; identifiers stay distinct
        random.seed(rng.randrange(3))
        ctx.count('seeded')
    obj = cls(**kwargs)
    for name, kind in kinds.items():
        val = getattr(obj, name)
        if kind == 'const':
            dflt = ns[name].default
            if isinstance(over.get(name) if cls is sub else None, Tick) or \
                    isinstance(dflt, Tick):
                ctx.count('callable_defaults')
                if cls is sub and not auto:
                    continue      # automatic children tick as well
            want = expected(cls, sub, name, over, ns, ticks, before)
            ctx.check(canon(val) == canon(want), 'an immutable property did '
                      'not take its default', name, want, val)
        elif kind == 'uuid':
            ctx.check(isinstance(val, uuid.UUID), 'identifier is no UUID',
                      val)
            if name == 'fixed':
                ctx.check(val == ns['_defaults']['fixed'], 'fixed identifier',
                          val)
                continue
            ctx.count('identifiers')
            ctx.check(val not in SEEN, 'identifier repeated', val)
            SEEN.add(val)
    auto_child = getattr(obj, 'child', None)
    if auto_child is not None and 'child' not in kwargs:
        ctx.check(auto_child.ident not in SEEN, 'identifier repeated in an '
                  'automatic instance', auto_child.ident)
        SEEN.add(auto_child.ident)
        if 'second' in kinds:
            SEEN.add(auto_child.second)
    return obj


def instances(obj):
    out = [obj]
    for name in ('child', 'many', 'table'):
        val = getattr(obj, name, None)
        if val is None:
            continue
        out += list(val.values()) if isinstance(val, dict) else \
            val if isinstance(val, list) else [val]
    return out


def snapshot(objs, kinds):
    return [[(n, getattr(o, n)) for n in sorted(kinds)]
            for obj in objs for o in instances(obj)]


def same(one, two):
    return len(one) == len(two) and all(
        len(a) == len(b) and all(x[0] == y[0] and x[1] is y[1]
                                 for x, y in zip(a, b))
        for a, b in zip(one, two))


def attempt(ctx, rng, fam, obj):
    """One operation on one immutable property; (kind, must it fail)"""
    base, sub, kinds, ticks, over, ns = fam
    name = rng.choice(sorted(kinds))
    current = getattr(obj, name)
    val = rng.choice([current, 1, 2, None, p.undefined, 'text', uuid.uuid4(),
                      str(uuid.uuid4()), [], current])
    op = rng.choice(['set', 'set', 'delete', 'delete', 'keyword', 'reset',
                     'reset_all', 'link', 'set_num', 'validate',
                     'serialize', 'del_num', 'silent_set', 'mixed'])
    fails = True
    if op == 'keyword':
        def act():
            type(obj)(**{name: val})
    elif op == 'mixed':
        def act():
            type(obj)(num=1, **{name: val})
    elif op == 'set':
        def act():
            setattr(obj, name, val)
    elif op == 'silent_set':
        def act():
            with p.listeners_disabled():
                setattr(obj, name, val)
    elif op == 'delete':
        def act():
            delattr(obj, name)
    elif op == 'reset':
        def act():
            obj._reset(name)
    elif op == 'reset_all':
        fails = False

        def act():
            # other properties go back to their defaults
            keep = {n: getattr(obj, n, None)
                    for n in ('child', 'many', 'table')}
            obj._reset()
            for key, was in keep.items():
                if was is not None:
                    setattr(obj, key, was)
                elif key in obj._props:
                    delattr(obj, key)
    elif op == 'link':
        src = base(num=1)
        SEEN.update([src.ident])
        kind = rng.choice(['now', 'later'])

        def act():
            if kind == 'now':
                p.directional_link((src, 'num'), (obj, name),
                                   update_now=True)
            else:
                link = p.directional_link((src, 'num'), (obj, name))
                try:
                    src.num = 5
                finally:
                    link.unlink()
        ctx.count('links')
    elif op == 'set_num':
        fails = False

        def act():
            try:
                obj.num = rng.choice([13, 4, 'bad'])
            except (ValueError, Boom):
                pass
    elif op == 'del_num':
        fails = False

        def act():
            del obj.num
    elif op == 'validate':
        fails = False

        def act():
            obj.validate()
    else:
        fails = False

        def act():
            obj.serialize()
    return name, op, val, fails, act


def round_trip(ctx, rng, fam, obj):
    base, sub, kinds, ticks, over, ns = fam
    if rng.random() < 0.35:
        other = p.copy(obj)
        ctx.count('copies')
    else:
        data = json.loads(json.dumps(obj.serialize()))
        before = json.dumps(data, sort_keys=True)
        kwargs = rng.choice([{'trusted': True}, {}, {'strict': True},
                             {'trusted': True, 'assert_valid': True}])
        other = type(obj).deserialize(data, **kwargs)
        ctx.check(json.dumps(data, sort_keys=True) == before,
                  'deserializing changed the data', data)
        for name, kind in kinds.items():
            if kind == 'uuid':
                ctx.check(data.get(name) == str(getattr(obj, name)),
                          'identifier serialized wrongly', data)
        ctx.count('round_trips')
    mine, theirs = instances(obj), instances(other)
    ctx.check(len(mine) == len(theirs), 'lost instances', obj, other)
    for one, two in zip(mine, theirs):
        for name in kinds:
            a, b = getattr(one, name), getattr(two, name)
            ctx.check(canon(a) == canon(b), 'an immutable value was not '
                      'preserved', name, a, b)
    return other


def foreign(ctx, rng, fam, obj):
    """Data naming immutable values: taken exactly, or refused"""
    base, sub, kinds, ticks, over, ns = fam
    data = obj.serialize()
    ident = uuid.uuid4()
    data['ident'] = str(ident)
    data['even'] = rng.choice([4, 9])
    ctx.count('foreign_data')
    other = type(obj).deserialize(data)
    SEEN.add(ident)
    ctx.check(other.ident == ident and other.old_ident == ident,
              'identifier of the data was not taken', other.ident)
    ctx.check(other.even == (4 if data['even'] == 4 else 18),
              'immutable value of the data was not validated', other.even)
    for bad in ({'ident': rng.choice(['nonsense', 5, [], '1234'])},
                {'even': rng.choice(['x', [], 1.5])}):
        wrong = dict(data, **bad)
        try:
            new_one = type(obj).deserialize(wrong)
        except (ValueError, TypeError, AttributeError):
            continue
        ctx.fail('an invalid immutable value was deserialized', wrong,
                 new_one)
    # the instance made from the data is as immutable as any other
    for name in ('ident', 'even', 'const'):
        try:
            setattr(other, name, getattr(other, name))
        except AttributeError:
            continue
        ctx.fail('an immutable property of a deserialized instance was set',
                 name)


def run_case(ctx):
    rng = ctx.rng
    fam = family(ctx, rng)
    kinds = fam[2]
    objs = [new(ctx, rng, fam) for _ in range(rng.randint(2, 4))]
    snap = snapshot(objs, kinds)
    for _ in range(20):
        obj = rng.choice(instances(rng.choice(objs)))
        name, op, val, fails, act = attempt(ctx, rng, fam, obj)
        ctx.count('attempts')
        ctx.note(op, name, val)
        ctx.nontrivial(op, name, kinds[name], type(val).__name__,
                       type(obj).__name__, sorted(kinds))
        try:
            act()
        except Exception as err:      # pylint: disable=broad-except
            if not fails:
                raise
            ctx.check(isinstance(err, (AttributeError, ValueError)),
                      'changing an immutable property raised oddly', err)
            ctx.count('refused')
        else:
            ctx.check(not fails, 'an immutable property was changed without '
                      'an error', op, name, val)
        now = snapshot(objs, kinds)
        ctx.count('values_checked', sum(len(x) for x in now))
        ctx.check(same(snap, now), 'an immutable value changed', op, name,
                  snap, now)
        if rng.random() < 0.2:
            other = round_trip(ctx, rng, fam, rng.choice(objs))
            if rng.random() < 0.3:
                objs.append(other)
            snap = snapshot(objs, kinds)
    if rng.random() < 0.6:
        foreign(ctx, rng, fam, rng.choice(objs))
    for obj in objs:
        round_trip(ctx, rng, fam, obj)
    ctx.check(same(snapshot(objs, kinds), snap), 'an immutable value changed')
