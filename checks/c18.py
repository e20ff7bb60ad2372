"""C18: renamed properties fully redirect, with a warning"""
import copy as pycopy
import json
import warnings

import properties as p

from vlib import specs as S
from vlib.canon import canon, equiv

RULE = ('A case declares a class with properties of random types (mutable, '
        'immutable, dynamic) and old names for them, chains of renames and '
        'subclasses redefining the target included, then applies the same '
        'history to twin instances, one through old names and one through '
        'new names, comparing results, errors, state, notifications, '
        'serialized data and the warnings of every use. Non-trivial: an '
        'operation through an old name, by target type, operation and '
        'value.')
CASES = {'quick': 2800, 'thorough': 22400}
FLOORS = {'chained': 3814, 'const_target': 2808, 'deletes': 4663,
          'deserialized': 3859, 'dynamic_target': 2683, 'equal_pairs': 26064,
          'gets': 4599, 'inits': 4082, 'inplace': 92, 'mutable_target': 12845,
          'notified': 25168, 'refused_sets': 3090, 'serialized': 26064, 'sets':
          6051, 'silent': 4514, 'unused_old_names': 1962, 'warned': 13774}


class Target(object):
    """The property a name leads to"""

    def __init__(self, rng, name):
        self.name = name
        self.kind = rng.choice(['mutable', 'mutable', 'mutable', 'mutable',
                                'dynamic', 'const'])
        for _ in range(60):
            self.spec = S.draw(rng, rng.choice([0, 0, 1]), json=True)
            if self.spec.json_ok and 'AnyS' not in repr(self.spec):
                break
        self.default = None
        if self.kind == 'const':
            self.prop = p.GettableProperty('c', default=rng.choice(
                [1, 'text']))
            return
        kw = {'required': rng.random() < 0.3}
        if self.kind == 'mutable' and rng.random() < 0.3:
            val = self.good(rng)
            if val is not None and not callable(val):
                kw['default'] = val
        self.prop = self.spec.build(**kw)
        if self.kind == 'dynamic':
            def getter(self):
                return self.__dict__.get('held_' + name)
            getter.__name__ = name
            self.prop = self.prop(getter)
            self.setter = rng.random() < 0.7
            if self.setter:
                def setter(self, value):
                    self.__dict__['held_' + name] = value
                setter.__name__ = name
                self.prop = self.prop.setter(setter)
                if rng.random() < 0.5:
                    def deleter(self):
                        self.__dict__.pop('held_' + name, None)
                    deleter.__name__ = name
                    self.prop = self.prop.deleter(deleter)

    def good(self, rng):
        for _ in range(20):
            val = self.spec.good(rng)
            if val is not None and val is not p.undefined and \
                    'random' not in repr(val).lower() and \
                    self.spec.accepts(val):
                return val
        return None


class Model(object):
    def __init__(self, ctx, rng):
        self.events = events = []

        def seen(self, change):
            events.append((id(self), change['mode'], change['name'],
                           canon(change['previous'], kinds=True),
                           canon(change['value'], kinds=True)))

        def hook(self, tuples):
            events.append((id(self), 'hook', [(
                t.reason, t.prop) for t in tuples]))
        self.targets = {}
        ns = {'_REGISTRY': {}, '_error_hook': hook,
              'other': p.Integer('', required=False)}
        ns['on_valid'] = p.validator(p.everything)(seen)
        ns['on_set'] = p.observer(p.everything)(seen)
        ns['on_change'] = p.observer(p.everything, change_only=True)(seen)
        for name in rng.sample(['aa', 'bb', 'cc'], rng.randint(1, 3)):
            self.targets[name] = Target(rng, name)
            ns[name] = self.targets[name].prop
        # old names, possibly of old names, possibly in a subclass
        self.renames = {}
        late = {}
        for old in rng.sample(['o1', 'o2', 'o3', '_o4'], rng.randint(1, 4)):
            new = rng.choice(sorted(self.targets) +
                             sorted(n for n in self.renames))
            warn = rng.random() < 0.7
            kw = {} if warn and rng.random() < 0.5 else {'warn': warn}
            if rng.random() < 0.3:
                kw['doc'] = 'explanation'
            self.renames[old] = (new, warn)
            where = late if new in late or rng.random() < 0.3 else ns
            where[old] = p.Renamed(new, **kw)
        self.cls = type('Main', (p.HasProperties,), ns)
        if late or rng.random() < 0.3:
            if rng.random() < 0.4:
                name = rng.choice(sorted(self.targets))
                self.targets[name] = Target(rng, name)
                late[name] = self.targets[name].prop
            self.cls = type('Derived', (self.cls,), late)
        ctx.note('targets', {n: (t.kind, t.spec)
                             for n, t in self.targets.items()}, self.renames)

    def follow(self, old):
        """(target, hops that warn, hops)"""
        warns = hops = 0
        while old in self.renames:
            old, warn = self.renames[old]
            warns += warn
            hops += 1
        return self.targets[old], warns, hops


def run(func):
    """(outcome, recorded warnings)"""
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        try:
            res = ('ok', func())
        except Exception as err:      # pylint: disable=broad-except
            res = ('raised', type(err).__name__, str(err), [
                (t.reason, t.prop) for t in getattr(err, 'error_tuples', [])])
    return res, [w for w in seen if issubclass(w.category, FutureWarning)]


def both(ctx, model, old, op, via_old, via_new, one, two):
    """Compare an operation through the old and through the new name"""
    target, warns, hops = model.follow(old)
    del model.events[:]
    left, seen = run(via_old)
    mine = [e[1:] for e in model.events if e[0] == id(one) or one is None]
    strange = [e for e in model.events if e[0] != id(one)
               and one is not None]
    ctx.check(not strange, 'another instance was notified', strange)
    del model.events[:]
    right, quiet = run(via_new)
    theirs = [e[1:] for e in model.events if e[0] == id(two) or two is None]
    ctx.count('notified', len(mine))
    if hops > 1:
        ctx.count('chained')
    ctx.count({'dynamic': 'dynamic_target', 'const': 'const_target',
               'mutable': 'mutable_target'}[target.kind])
    ctx.check(not quiet, 'the new name warned', quiet)
    if warns:
        ctx.count('warned')
        ctx.check(len(seen) >= 1 and len(seen) <= hops,
                  'using an old name gave %d warnings, not %d' % (
                      len(seen), warns), op, [str(w.message) for w in seen])
        ctx.check(all(model.renames[o][0] in str(w.message) for w, o in
                      [(seen[0], first_warner(model, old))]),
                  'the warning does not name the new name',
                  str(seen[0].message))
    else:
        ctx.count('silent')
        ctx.check(not seen, 'a silent old name warned', op,
                  [str(w.message) for w in seen])
    if left[0] != right[0] or left[0] == 'raised':
        ctx.check(left == right, 'old and new name differ in errors', op,
                  left, right)
    ctx.check(mine == theirs, 'old and new name notify differently', op,
              mine, theirs)
    return left, right


def first_warner(model, old):
    while not model.renames[old][1]:
        old = model.renames[old][0]
    return old


def same_state(ctx, model, one, two, why):
    for name in sorted(model.targets):
        ctx.check(canon(read(one, name)) == canon(read(two, name)),
                  'old and new name give different values: ' + why, name,
                  read(one, name), read(two, name))
    res, seen = run(lambda: (one.serialize(), two.serialize(),
                             one.validate() if False else True,
                             p.equal(one, two), p.equal(two, one)))
    ctx.check(not seen, 'serializing or comparing used an old name',
              [str(w.message) for w in seen])
    if res[0] == 'raised':
        # an invalid dynamic value cannot be compared
        return
    a, b = res[1][:2]
    ctx.count('serialized')
    ctx.check(plain(a) == plain(b), 'serialized differently', a, b)
    ctx.check(not set(a) & set(model.renames), 'the old name stores a value',
              a)
    ctx.count('equal_pairs')
    ctx.check(bool(res[1][3]) and bool(res[1][4]), 'instances differing only '
              'in the name used are not equal', a, b)


def read(obj, name):
    try:
        return getattr(obj, name)
    except ValueError as err:
        return repr(type(err))


def plain(data):
    return json.dumps(data, sort_keys=True, default=repr)


def value(rng, target):
    roll = rng.random()
    if roll < 0.1:
        return p.undefined
    val = target.good(rng) if roll < 0.65 else target.spec.candidate(rng)
    if val is None or S.awkward(target.spec, val) or \
            'random' in repr(val).lower() or callable(val):
        return target.good(rng)
    return val


def twin_of(val):
    """Two equal values: the properties may keep the object given"""
    try:
        return pycopy.deepcopy(val)
    except Exception:      # pylint: disable=broad-except
        return val


def step(ctx, rng, model, one, two):
    old = rng.choice(sorted(model.renames))
    target, _, _ = model.follow(old)
    new = target.name
    op = rng.choice(['get', 'set', 'set', 'delete', 'inplace'])
    if op == 'get':
        ctx.count('gets')
        left, right = both(ctx, model, old, op, lambda: getattr(one, old),
                           lambda: getattr(two, new), one, two)
        if left[0] == 'ok':
            ctx.check(canon(left[1]) == canon(right[1]) or
                      equiv(left[1], right[1]), 'wrong value through the old '
                      'name', left, right)
            if target.kind != 'dynamic':
                ctx.check(left[1] is getattr(one, new), 'the old name holds '
                          'its own value')
    elif op == 'set':
        val = value(rng, target)
        other = val
        ctx.note('set', old, val)
        left, _ = both(ctx, model, old, op, lambda: setattr(one, old, val),
                       lambda: setattr(two, new, other), one, two)
        ctx.count('sets' if left[0] == 'ok' else 'refused_sets')
        ctx.nontrivial('set', target.kind, target.spec, left[0], canon(val))
    elif op == 'delete':
        ctx.count('deletes')
        ctx.note('delete', old)
        both(ctx, model, old, op, lambda: delattr(one, old),
             lambda: delattr(two, new), one, two)
        ctx.nontrivial('delete', target.kind, target.spec)
    else:
        # in-place changes of a stored container
        mine = getattr(one, new, None) if target.kind == 'mutable' else None
        if not isinstance(mine, list) or not mine:
            return
        other = getattr(two, new)
        if mine is other:
            return
        ctx.count('inplace')
        both(ctx, model, old, op, lambda: getattr(one, old).pop(),
             lambda: getattr(two, new).pop(), one, two)
    same_state(ctx, model, one, two, op)


def construct(ctx, rng, model):
    """Twin instances, by old and by new keyword names"""
    pick = {}
    for old in rng.sample(sorted(model.renames),
                          rng.randint(0, len(model.renames))):
        target, warns, hops = model.follow(old)
        if target.name in [t.name for t, _, _ in pick.values()]:
            continue
        pick[old] = (target, warns, hops)
    vals = {}
    for old, (target, _, _) in pick.items():
        if target.kind == 'const' and rng.random() < 0.8:
            continue
        if target.kind == 'dynamic' and rng.random() < 0.8:
            continue
        val = value(rng, target) if rng.random() < 0.3 else target.good(rng)
        if val is not None:
            vals[old] = val
    by_old = dict(vals)
    by_new = {pick[o][0].name: v for o, v in vals.items()}
    ctx.note('construct', by_old)
    special = any(pick[o][0].kind == 'dynamic' for o in vals)
    del model.events[:]
    left, seen = run(lambda: model.cls(**by_old))
    mine = [e[1:] for e in model.events]
    del model.events[:]
    right, quiet = run(lambda: model.cls(**by_new))
    theirs = [e[1:] for e in model.events]
    ctx.check(not quiet, 'constructing without old names warned',
              [str(w.message) for w in quiet])
    if not vals:
        ctx.count('unused_old_names')
        ctx.check(not seen, 'an unused old name warned')
    if special:
        # new names of dynamic properties are refused by the constructor;
        # an old name is an ordinary keyword which sets through the setter
        if left[0] == 'raised' or right[0] == 'raised':
            return None
    else:
        ctx.count('inits')
        ctx.check(left[0] == right[0] and (
            left[0] == 'ok' or left == right),
            'initialising by old and new names differs', left, right)
        ctx.check(mine == theirs, 'initialising notifies differently', mine,
                  theirs)
        for old in vals:
            ctx.nontrivial('init', pick[old][0].kind, pick[old][0].spec,
                           canon(vals[old]), left[0])
    if left[0] == 'raised':
        return None
    want = sum(pick[o][1] > 0 for o in vals)
    most = sum(pick[o][2] for o in vals)
    ctx.check(want <= len(seen) <= most, 'initialising by old names gave %d '
              'warnings' % len(seen), by_old)
    one, two = left[1], right[1]
    if not special:
        same_state(ctx, model, one, two, 'construction')
    return one, two


def reload_old(ctx, rng, model, obj):
    """Data under old names deserializes as under new names"""
    res, _ = run(obj.serialize)
    if res[0] == 'raised':
        return
    data = json.loads(json.dumps(res[1]))
    old_data = dict(data)
    moved = {}
    for old in rng.sample(sorted(model.renames), len(model.renames)):
        name = model.follow(old)[0].name
        if name in old_data and rng.random() < 0.8:
            old_data[old] = old_data.pop(name)
            moved[old] = name
    kwargs = rng.choice([{}, {'trusted': True}, {'strict': True},
                         {'strict': True, 'trusted': True}])
    if rng.random() < 0.15 and moved:
        # damaged data is refused in the same way
        old = rng.choice(sorted(moved))
        bad = rng.choice([{'x': []}, [[['deep']]], object])
        old_data[old] = data[moved[old]] = bad
    left, _ = run(lambda: type(obj).deserialize(dict(old_data), **kwargs))
    right, quiet = run(lambda: type(obj).deserialize(dict(data), **kwargs))
    ctx.check(not quiet, 'deserializing new names warned')
    ctx.count('deserialized')
    ctx.note('deserialize', old_data)
    ctx.nontrivial('load', sorted(moved.items()), plain(data))
    ctx.check(left[0] == right[0], 'deserializing old names differs', left,
              right, old_data)
    if left[0] == 'raised':
        ctx.check(left[1] == right[1], 'deserializing old names raises '
                  'differently', left, right)
        return
    same_state(ctx, model, left[1], right[1], 'deserialization')


def run_case(ctx):
    rng = ctx.rng
    model = Model(ctx, rng)
    if rng.random() < 0.15:
        # a default for an old name stores nothing
        old = rng.choice(sorted(model.renames))
        try:
            sub = type('Defaulted', (model.cls,), {'_defaults': {
                old: 'nothing to do with the type'}})
        except AttributeError:
            return
        obj = sub()
        ctx.check(old not in obj.serialize(), 'an old name took a default')
        name = model.follow(old)[0].name
        ctx.check(canon(read(obj, name)) == canon(read(model.cls(), name)),
                  'a default of an old name was stored', name)
    for _ in range(3):
        pair = construct(ctx, rng, model)
        if pair is None:
            continue
        for _ in range(6):
            step(ctx, rng, model, *pair)
        reload_old(ctx, rng, model, pair[0])
