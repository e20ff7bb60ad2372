"""C16: dynamic properties are computed, validated, never stored"""
import json

import properties as p

from vlib import specs as S
from vlib.canon import canon, equiv

RULE = ('A case declares classes with dynamic properties of random types, '
        'with and without setters and deleters, whose getters return a '
        'scripted value (valid, coercible, invalid, none, undefined, error); '
        'random reads, sets, deletes, resets, constructions, serializations '
        'and deserializations over several instances are compared with a '
        'model and a recording of every getter, setter, deleter and '
        'listener call. Non-trivial: an operation on a dynamic property, by '
        'type, kind of value and outcome.')
CASES = {'quick': 3600, 'thorough': 28800}
FLOORS = {'bad_declarations': 722, 'defaults_ignored': 829, 'deletes': 2293,
          'deletes_refused': 2238, 'deserialized': 3360, 'init_refused': 1034,
          'reads_error': 1949, 'reads_invalid': 2914, 'reads_none': 7479,
          'reads_valid': 21800, 'resets': 2292, 'saved_dynamic': 3360,
          'serialized': 6120, 'sets_called': 2630, 'sets_refused': 2223,
          'sets_rejected': 678, 'tagged_later': 1038}

NAMES = ['dyn', 'calc', '_secret', 'Total']


class World(object):
    """Scripted getter results and the record of calls"""

    def __init__(self):
        self.values = {}
        self.calls = []

    def take(self):
        calls, self.calls = self.calls, []
        return calls


WORLD = World()


def make_getter(name, tag):
    def getter(self):
        WORLD.calls.append(('get', tag, id(self)))
        val = WORLD.values.get((id(self), name))
        if isinstance(val, Exception):
            raise val
        return val
    getter.__name__ = name
    return getter


def make_setter(name, tag, fail):
    def setter(self, value):
        WORLD.calls.append(('set', tag, id(self), value))
        if fail:
            raise KeyError('setter failed')
        self.base = (self.base or 0) + 1
        WORLD.values[(id(self), name)] = value
    setter.__name__ = name
    return setter


def make_deleter(name, tag):
    def deleter(self):
        WORLD.calls.append(('del', tag, id(self)))
        self.base = 0
        WORLD.values.pop((id(self), name), None)
    deleter.__name__ = name
    return deleter


class Dyn(object):
    def __init__(self, rng, name, tag, json_only):
        self.name, self.tag = name, tag
        for _ in range(50):
            self.spec = S.draw(rng, rng.choice([0, 0, 1]), json=json_only)
            if not json_only or self.spec.json_ok:
                break
        self.meta = {'m%d' % tag: tag} if rng.random() < 0.3 else {}
        self.has_set = rng.random() < 0.6
        self.has_del = rng.random() < 0.5
        self.set_fails = rng.random() < 0.1
        prop = self.spec.build(required=rng.random() < 0.5)
        if self.meta:
            prop.tag(self.meta)
        self.prop = prop(make_getter(name, tag))
        self.meta_of = prop
        # functions declared again replace the earlier ones
        if self.has_set:
            if rng.random() < 0.2:
                self.prop = self.prop.setter(
                    make_setter(name, -tag, self.set_fails))
            self.prop = self.prop.setter(
                make_setter(name, tag, self.set_fails))
        if self.has_del:
            if rng.random() < 0.2:
                self.prop = self.prop.deleter(make_deleter(name, -tag))
            self.prop = self.prop.deleter(make_deleter(name, tag))
        # the same type as an ordinary property, to serialize with
        self.twin = type('Twin', (p.HasProperties,), {
            '_REGISTRY': {}, 'x': self.spec.build(required=False)})

    def good(self, rng):
        for _ in range(20):
            val = self.spec.good(rng)
            if val is not None and val is not p.undefined and \
                    'random' not in repr(val).lower() and \
                    self.spec.accepts(val):
                return val
        return None


class Model(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.json_only = rng.random() < 0.6
        self.events = events = []
        names = rng.sample(NAMES, rng.randint(1, 3))
        self.dyns = {}
        ns = {'_REGISTRY': {}, 'base': p.Integer('b', required=False,
                                                 default=0)}
        tag = 0
        for name in names:
            tag += 1
            self.dyns[name] = dyn = Dyn(rng, name, tag, self.json_only)
            ctx.check(dyn.prop.meta == dyn.meta, 'a dynamic property lacks '
                      'the tags of its type', dyn.prop.meta, dyn.meta)
            if rng.random() < 0.3:
                one, two = rng.sample([dyn.prop, dyn.meta_of], 2)
                one.tag(late=tag)
                ctx.count('tagged_later')
                ctx.check(two.meta == dyn.meta, 'a tag of one property shows '
                          'on another', two.meta, dyn.meta)
            ns[name] = self.dyns[name].prop

        def seen(self, change):
            events.append((change['mode'], id(self), change['name']))

        def hook(self, tuples):
            events.append(('hook', id(self), tuple(
                t.prop for t in tuples)))
        ns['on_valid'] = p.validator(p.everything)(seen)
        ns['on_any'] = p.observer(p.everything)(seen)
        ns['_error_hook'] = hook
        self.cls = type('Top', (p.HasProperties,), ns)
        # a subclass: inherits, redefines or removes
        self.sub_dyns = dict(self.dyns)
        ns = {}
        if rng.random() < 0.4:
            name = rng.choice(names)
            if rng.random() < 0.5:
                self.sub_dyns[name] = Dyn(rng, name, 50, self.json_only)
                ns[name] = self.sub_dyns[name].prop
            else:
                del self.sub_dyns[name]
                ns[name] = rng.choice([None, p.Integer('', required=False)])
        if rng.random() < 0.5 and self.sub_dyns:
            name = rng.choice(sorted(self.sub_dyns))
            val = self.sub_dyns[name].good(rng)
            if val is not None and not callable(val):
                ns['_defaults'] = {name: val}
                ctx.count('defaults_ignored')
        self.sub = type('Sub', (self.cls,), ns)
        ctx.note('classes', {n: d.spec for n, d in self.dyns.items()},
                 {n: d.spec for n, d in self.sub_dyns.items()})

    def new(self):
        ctx, rng = self.ctx, self.rng
        cls, dyns = rng.choice([(self.cls, self.dyns),
                                (self.sub, self.sub_dyns)])
        WORLD.take()
        del self.events[:]
        if rng.random() < 0.3 and dyns:
            name = rng.choice(sorted(dyns))
            val = rng.choice([dyns[name].good(rng),
                              dyns[name].spec.candidate(rng), None])
            try:
                cls(**{name: val})
            except AttributeError:
                ctx.count('init_refused')
            else:
                ctx.fail('constructor accepted a dynamic keyword', name, val)
            ctx.check(not [c for c in WORLD.take() if c[0] != 'get'],
                      'constructor called a dynamic setter', name)
        obj = cls(base=1)
        ctx.check(not WORLD.take(), 'construction called a dynamic function')
        ctx.check(sorted(obj.serialize(include_class=False)) == ['base'],
                  'a new instance stores something', obj.serialize())
        return obj, dyns


def script(ctx, rng, dyn, obj):
    """Choose what the getter returns; what reading then gives"""
    roll = rng.random()
    key = (id(obj), dyn.name)
    if roll < 0.1:
        WORLD.values[key] = rng.choice([None, p.undefined])
        return 'none', None
    if roll < 0.18:
        WORLD.values[key] = rng.choice([KeyError('own'), RuntimeError('own'),
                                        ValueError('own')])
        return 'error', WORLD.values[key]
    if roll < 0.32:
        val = dyn.spec.bad(rng)
        if val is not None and val is not p.undefined and \
                not S.awkward(dyn.spec, val) and \
                not isinstance(val, Exception):
            try:
                dyn.spec.model(val)
            except S.Reject:
                WORLD.values[key] = val
                return 'invalid', val
            except S.Unspec:
                pass
    for _ in range(20):
        val = dyn.good(rng)
        if val is None:
            continue
        try:
            exp = dyn.spec.model(val)
        except (S.Reject, S.Unspec):
            continue
        WORLD.values[key] = val
        return 'valid', exp
    WORLD.values[key] = None
    return 'none', None


def current(dyn, obj):
    """What reading gives now: (kind, expected)"""
    val = WORLD.values.get((id(obj), dyn.name))
    if val is None or val is p.undefined:
        return 'none', None
    if isinstance(val, Exception):
        return 'error', val
    try:
        return 'valid', dyn.spec.model(val)
    except S.Reject:
        return 'invalid', val
    except S.Unspec:
        return 'open', val


def read(ctx, dyn, obj):
    kind, exp = current(dyn, obj)
    WORLD.take()
    try:
        got = getattr(obj, dyn.name)
    except ValueError as err:
        if kind == 'error':
            ctx.check(err is exp, 'the getter error was replaced', err)
        elif kind not in ('invalid', 'open'):
            ctx.fail('a valid dynamic value was rejected', dyn.spec, exp,
                     err)
    except Exception as err:      # pylint: disable=broad-except
        ctx.check(err is exp, 'unexpected error from a dynamic property',
                  dyn.spec, err)
    else:
        if kind == 'none':
            ctx.check(got is None, 'none was not read as none', got)
        elif kind == 'valid':
            ctx.check(S.match(exp, got), 'wrong dynamic value', dyn.spec,
                      exp, got)
        elif kind != 'open':
            ctx.fail('an invalid dynamic value was returned', dyn.spec, exp,
                     got)
    ctx.count('reads_' + kind)
    ctx.nontrivial('read', dyn.spec, kind, canon(
        WORLD.values.get((id(obj), dyn.name))))
    calls = WORLD.take()
    ctx.check(calls == [('get', dyn.tag, id(obj))],
              'reading did not call the getter once', calls)


def write(ctx, rng, dyn, obj):
    val = dyn.spec.candidate(rng) if rng.random() < 0.5 else dyn.good(rng)
    if isinstance(dyn.spec, S.AnyS) and rng.random() < 0.3:
        val = None
    elif val is None or val is p.undefined or S.awkward(dyn.spec, val):
        return
    WORLD.take()
    base = obj.base
    try:
        exp, kind = dyn.spec.model(val), 'valid'
    except S.Reject:
        exp, kind = None, 'invalid'
    except S.Unspec:
        return
    ctx.note('set', dyn.name, val, kind)
    ctx.nontrivial('set', dyn.spec, kind, dyn.has_set, canon(val))
    err = None
    try:
        setattr(obj, dyn.name, val)
    except Exception as exc:      # pylint: disable=broad-except
        err = exc
    calls = WORLD.take()
    if not dyn.has_set:
        ctx.count('sets_refused')
        ctx.check(isinstance(err, AttributeError), 'setting a dynamic '
                  'property without setter', err)
        ctx.check(not [c for c in calls if c[0] != 'get'] and
                  obj.base == base, 'a refused set did something', calls)
    elif kind == 'invalid':
        ctx.count('sets_rejected')
        ctx.check(isinstance(err, ValueError), 'an invalid value was set',
                  dyn.spec, val, err)
        ctx.check(not [c for c in calls if c[0] != 'get'] and
                  obj.base == base, 'the setter saw an invalid value', calls)
    else:
        ctx.count('sets_called')
        sets = [c for c in calls if c[0] != 'get']
        ctx.check(len(sets) == 1 and sets[0][:3] == ('set', dyn.tag, id(obj)),
                  'the setter was not called exactly once', sets)
        ctx.check(S.match(exp, sets[0][3]), 'the setter did not get the '
                  'coerced value', dyn.spec, val, sets[0][3])
        if dyn.set_fails:
            ctx.check(isinstance(err, KeyError), 'the setter error was lost',
                      err)
        else:
            ctx.check(err is None and obj.base == (base or 0) + 1,
                      'the setter had no effect', err)


def delete(ctx, dyn, obj):
    WORLD.take()
    base = obj.base
    err = None
    try:
        delattr(obj, dyn.name)
    except Exception as exc:      # pylint: disable=broad-except
        err = exc
    calls = [c for c in WORLD.take() if c[0] != 'get']
    ctx.note('delete', dyn.name)
    if dyn.has_del:
        ctx.count('deletes')
        ctx.check(err is None and calls == [('del', dyn.tag, id(obj))] and
                  obj.base == 0, 'deleting did not call the deleter once',
                  err, calls)
    else:
        ctx.count('deletes_refused')
        ctx.check(isinstance(err, AttributeError) and not calls and
                  obj.base == base, 'deleting a dynamic property without '
                  'deleter', err, calls)


def plain(data):
    return json.dumps(data, sort_keys=True, default=repr)


def serialize(ctx, rng, model, dyns, obj):
    WORLD.take()
    want = {} if obj.base is None else {'base': obj.base}
    own = obj.serialize(include_class=False)
    own.pop(next((n for n in model.dyns if n not in dyns), None), None)
    ctx.count('serialized')
    ctx.check(own == want, 'a dynamic property was serialized', own)
    ctx.check(not WORLD.take(), 'serializing computed a dynamic property')
    states = {n: current(d, obj) for n, d in dyns.items()}
    if any(k == 'open' for k, _ in states.values()):
        return
    if not model.json_only:
        return
    err = None
    try:
        data = obj.serialize(include_class=False, save_dynamic=True)
    except Exception as exc:      # pylint: disable=broad-except
        err = exc
    calls = WORLD.take()
    ctx.check(not [c for c in calls if c[0] != 'get'],
              'saving called setters or deleters', calls)
    kinds = [k for k, _ in states.values()]
    if 'error' in kinds or 'invalid' in kinds:
        ctx.check(err is not None, 'an invalid dynamic value was saved')
        return
    if err is not None:
        raise err
    data.pop(next((n for n in model.dyns if n not in dyns), None), None)
    for name, dyn in dyns.items():
        kind, exp = states[name]
        if kind == 'valid':
            twin = dyn.twin()
            twin.x = WORLD.values[(id(obj), name)]
            want[name] = twin.serialize(include_class=True)['x']
    if any('UuidS' in repr(d.spec) for d in dyns.values()):
        return
    ctx.count('saved_dynamic')
    ctx.check(plain(data) == plain(want), 'wrong dynamic output', data, want)
    back(ctx, rng, obj, dyns, data)


def back(ctx, rng, obj, dyns, data):
    try:
        data = dict(json.loads(json.dumps(data)))
    except TypeError:
        # anything goes through the unconstrained property type
        if not any('AnyS' in repr(d.spec) for d in dyns.values()):
            raise
        return
    for name, dyn in dyns.items():
        if name not in data and rng.random() < 0.3:
            val = dyn.good(rng)
            if val is not None:
                twin = dyn.twin()
                twin.x = val
                data[name] = twin.serialize()['x']
    data['__class__'] = type(obj).__name__
    kwargs = rng.choice([{}, {'trusted': True}, {'strict': True},
                         {'trusted': True, 'strict': True,
                          'assert_valid': True}])
    WORLD.take()
    new = type(obj).deserialize(data, **kwargs)
    ctx.count('deserialized')
    ctx.check(type(new) is type(obj) and new.base == (
        obj.base if obj.base is not None else 0),
        'deserializing dynamic output lost values', new.serialize())
    ctx.check(not [c for c in WORLD.take() if c[0] != 'get'],
              'deserializing called a dynamic setter')
    for name in dyns:
        WORLD.values.pop((id(new), name), None)
        ctx.check(getattr(new, name) is None, 'a dynamic value was stored by '
                  'deserialization', name, getattr(new, name))
    ctx.check(not set(new.serialize()) & set(dyns),
              'a dynamic value was stored', new.serialize())


def reset(ctx, rng, dyns, obj):
    WORLD.take()
    ctx.count('resets')
    name = rng.choice(sorted(dyns))
    if rng.random() < 0.5:
        try:
            obj._reset(name)
        except AttributeError:
            pass
        else:
            ctx.fail('a dynamic property was reset', name)
    else:
        obj._reset()
        ctx.check(obj.base == 0, 'reset lost', obj.base)
    ctx.check(not [c for c in WORLD.take() if c[0] != 'get'],
              'resetting touched dynamic functions')


def bad_declarations(ctx, rng):
    """Dynamic properties cannot have a default"""
    ctx.count('bad_declarations')

    def value(self):
        return 1
    for prop in (p.Integer('', default=1), p.List('', p.Integer(''),
                                                  default=list)):
        try:
            prop(value)
        except TypeError:
            continue
        ctx.fail('a dynamic property with a default was declared', prop)
    for names in ('value', ['value']):
        try:
            type('Bad', (p.HasProperties,), {
                '_REGISTRY': {}, 'value': p.Integer('')(value),
                'watch': p.observer(names)(lambda self, change: None)})
        except TypeError:
            continue
        ctx.fail('an observer of a dynamic property was accepted')


def run_case(ctx):
    rng = ctx.rng
    WORLD.values.clear()
    model = Model(ctx, rng)
    pool = [model.new() for _ in range(rng.randint(1, 3))]
    keep = []
    for _ in range(22):
        obj, dyns = rng.choice(pool)
        if not dyns:
            continue
        keep.append(obj)
        dyn = dyns[rng.choice(sorted(dyns))]
        del model.events[:]
        op = rng.random()
        if op < 0.45:
            script(ctx, rng, dyn, obj)
            read(ctx, dyn, obj)
        elif op < 0.6:
            write(ctx, rng, dyn, obj)
            read(ctx, dyn, obj)
        elif op < 0.72:
            delete(ctx, dyn, obj)
            read(ctx, dyn, obj)
        elif op < 0.88:
            if rng.random() < 0.5:
                for d in dyns.values():
                    for _ in range(6):
                        if script(ctx, rng, d, obj)[0] in ('none', 'valid'):
                            break
            serialize(ctx, rng, model, dyns, obj)
        elif op < 0.94:
            reset(ctx, rng, dyns, obj)
        else:
            WORLD.take()
            ctx.check(obj.validate() is True, 'dynamic properties take part '
                      'in validation')
            ctx.check(not [c for c in WORLD.take() if c[0] != 'get'],
                      'validation called setters')
        mine = [e for e in model.events if e[0] != 'hook' and
                e[2] in model.dyns and e[2] in dyns]
        ctx.check(not mine, 'a dynamic property notified listeners', mine)
    for obj, dyns in pool:
        for name in sorted(dyns):
            read(ctx, dyns[name], obj)
    if rng.random() < 0.4:
        bad_declarations(ctx, rng)
