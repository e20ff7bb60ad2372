"""C27: construction by keywords is all-or-error, with every failure told"""
import properties as p

from vlib import shapes as H
from vlib import specs as S
from vlib.canon import canon

RULE = ('A case generates a class (every property type, nested instances, '
        'immutable, dynamic and renamed properties, plain attributes, '
        'listeners that veto, replace and set other properties) and '
        'constructs it from right, wrong, refused, unknown and dynamic '
        'keywords in random order, beside a twin constructed empty and '
        'assigned one keyword at a time; values, listener traces, entries '
        'and hook calls are compared, then single assignments fail and '
        'succeed on both. Non-trivial: a construction or assignment, by '
        'types, kinds of keyword and outcome.')
CASES = {'quick': 2100, 'thorough': 16800}
FLOORS = {'aftermath': 1827, 'assigned': 5212, 'constructed': 1712, 'failed':
          1832, 'generic': 510, 'hook_raised': 189, 'refused': 1972, 'several':
          475, 'traced': 11128, 'unknown': 928, 'validated': 1443}

GENERIC = (ValueError, KeyError, TypeError, AttributeError)


class Odd(Exception):
    """Not one of the errors that construction collects"""


class World(object):
    def __init__(self):
        self.hooks = []       # (label of instance, entries)
        self.trace = []
        self.names = {}       # id -> label
        self.keep = []
        self.armed = {}       # property name -> what the listener does
        self.hook_raises = False

    def label(self, obj):
        return self.names.get(id(obj), 'new')

    def clear(self):
        del self.hooks[:]
        del self.trace[:]
        self.names.clear()


def entry(tup):
    return (tup.reason, tup.prop, type(tup.instance).__name__)


def make_listener(world, mode):
    def listener(self, change):
        act = world.armed.get((mode, change['name']))
        world.trace.append((mode, change['name'], canon(change['previous']),
                            canon(change['value']),
                            canon(getattr(self, change['name']))))
        if act is None:
            return
        if act[0] == 'raise':
            raise act[1]('from a listener')
        if act[0] == 'error':
            raise p.ValidationError('refused', 'unfit', change['name'], self)
        if act[0] == 'bare error':
            raise p.ValidationError('refused')
        if act[0] == 'replace':
            change['value'] = act[1]
        if act[0] == 'delete other':
            delattr(self, act[1])
        if act[0] == 'validate':
            world.trace.append(('verdict', self.validate()))
    return listener


def steady(spec):
    """Without colors: 'random' is another one each time"""
    return 'ColorS' not in repr(spec)


def make_class(rng, world):
    registry = {}
    pool = []
    if rng.random() < 0.6:
        nested = H.Shape(rng, 'Nested', depth=0, n=2, registry=registry,
                         spec_filter=steady, extra={'_error_hook': lambda self, tups:
                                world.hooks.append(
                                    ('nested', [entry(t) for t in tups]))})
        pool = [H.InstS(rng, nested)] * 2
    extra = {'_error_hook': hook_for(world), 'plain': 'class value',
             'read_only': property(lambda self: 5)}
    for mode, deco in [('validate', p.validator), ('observe_set', p.observer),
                       ('observe_change', lambda n: p.observer(
                           n, change_only=True))]:
        if rng.random() < 0.6:
            extra['on_' + mode] = deco(p.everything)(
                make_listener(world, mode))
    shape = H.Shape(rng, 'Made', depth=2, pool=pool, registry=registry,
                    uuids=True, extra=extra, n=rng.randint(1, 5),
                    spec_filter=steady)
    more = {'_REGISTRY': registry}
    names = [f.name for f in shape.settable()]
    if rng.random() < 0.5:
        more['old'] = p.Renamed(names[0], warn=False)
    if rng.random() < 0.6:
        more['calc'] = p.Integer('calculated')(lambda self: 7)
        if rng.random() < 0.5:
            more['calc'] = more['calc'].setter(
                lambda self, val: world.trace.append(('calc', val)))
    if rng.random() < 0.3:
        def __init__(self, *args, **kwargs):
            world.trace.append(('init', len(args)))
            shape.cls.__init__(self, **kwargs)
        more['__init__'] = __init__
    return shape, type('Made', (shape.cls,), more)


def hook_for(world):
    def hook(self, tuples):
        world.keep.append(self)
        world.hooks.append((world.label(self), [entry(t) for t in tuples]))
        if world.hook_raises:
            raise Odd('from the hook')
    return hook


def outcome(world, func):
    """(result, error, hooks, trace)"""
    del world.hooks[:]
    del world.trace[:]
    try:
        return func(), None, list(world.hooks), list(world.trace)
    except Exception as err:                 # pylint: disable=broad-except
        return None, err, list(world.hooks), list(world.trace)


def arm(rng, world, shape):
    """Some listeners do something"""
    world.armed.clear()
    for field in shape.settable():
        if rng.random() < 0.15:
            mode = rng.choice(['validate', 'validate', 'observe_set',
                               'observe_change'])
            act = rng.choice([
                ('raise', rng.choice([KeyError, TypeError, ValueError,
                                      AttributeError])),
                ('error',), ('error',), ('bare error',), ('validate',),
                ('delete other', rng.choice(shape.settable()).name)])
            if act[0] == 'delete other' and (
                    act[1] == field.name or mode == 'validate' or
                    any(a[0] == 'delete other'
                        for a in world.armed.values())):
                continue
            world.armed[mode, field.name] = act
    return {k: v for k, v in world.armed.items()}


def draw_kwargs(rng, shape, cls):
    """Keywords of all kinds, in random order: name -> (value, kind)"""
    out = []
    for field in shape.settable():
        roll = rng.random()
        if roll < 0.3:
            continue
        name = field.name
        if 'old' in cls._props and cls._props['old'].new_name == name and \
                rng.random() < 0.6:
            name = 'old'
        if roll < 0.75:
            val = field.spec.good(rng)
        elif roll < 0.8:
            val = p.undefined
        else:
            val = field.spec.bad(rng)
        if S.awkward(field.spec, val):
            continue
        out.append((name, val))
    if rng.random() < 0.3:
        out.append(('plain', rng.choice([5, 'text', None, []])))
    if rng.random() < 0.1:
        out.append(('read_only', 6))
    if 'const' in cls._props and rng.random() < 0.3:
        out.append(('const', 7))
    if 'ident' in cls._props and rng.random() < 0.2:
        out.append(('ident', cls().ident))
    if 'calc' in cls._props and rng.random() < 0.15:
        out.append(('calc', rng.choice([1, 'x'])))
    if rng.random() < 0.1:
        out.append((rng.choice(['no_such', 'Plain', 'alpha_', '']), 1))
    rng.shuffle(out)
    return out


def run_case(ctx):
    rng = ctx.rng
    world = World()
    shape, cls = make_class(rng, world)
    ctx.note('class', shape, sorted(cls._props))
    for _ in range(rng.randint(3, 7)):
        arm(rng, world, shape)
        one_construction(ctx, rng, world, shape, cls)
    world.armed.clear()
    singles(ctx, rng, world, shape, cls)


def one_construction(ctx, rng, world, shape, cls):
    kwargs = draw_kwargs(rng, shape, cls)
    offered = canon([v for _, v in kwargs])
    ctx.note('construct', kwargs, world.armed)
    unknown = [k for k, _ in kwargs if k == 'calc' or (
        k not in cls._props and not hasattr(cls, k))]
    # the twin: constructed empty, then assigned, in the same order
    twin = cls()
    world.names[id(twin)] = 'twin'
    errors, entries, trace = [], [], []
    stop = False
    for name, val in kwargs:
        if name in unknown:
            stop = True
            break
        # what a veto during construction does must not be seen by validate()
        # called in a listener: it is already under way
        _, err, hooks, seen = outcome(
            world, lambda: in_progress(twin, lambda: setattr(
                twin, name, val)))
        trace += [t for t in seen]
        if err is None:
            continue
        if not isinstance(err, GENERIC):
            ctx.fail('an assignment failed with an unexpected error', name,
                     val, err)
        errors.append(err)
        if isinstance(err, p.ValidationError):
            entries += [entry(t) for t in err.error_tuples]
    world.clear()
    made, err, hooks, seen = outcome(world, lambda: cls(**dict(kwargs)))
    if seen and seen[0][0] == 'init':
        seen = seen[1:]
    nested = [h for h in hooks if h[0] == 'nested']
    hooks = [h for h in hooks if h[0] != 'nested']
    ctx.check(canon([v for _, v in kwargs]) == offered, 'construction '
              'modified its keywords', offered, kwargs)
    if stop:
        ctx.count('unknown')
        ctx.check(type(err) is AttributeError, 'an unknown or dynamic '
                  'keyword did not raise AttributeError', unknown, err)
        ctx.nontrivial('unknown', cls, unknown, offered)
        return
    ctx.check(seen == trace, 'notifications of construction differ from '
              'those of the assignments', trace, seen)
    ctx.count('traced', len(seen))
    if entries:
        ctx.count('refused')
        ctx.check(isinstance(err, p.ValidationError), 'invalid keywords did '
                  'not raise a validation error', entries, err)
        got = [entry(t) for t in err.error_tuples]
        ctx.check(got == entries, 'the entries differ from the invalid '
                  'keywords', entries, got)
        ctx.check([h[1] for h in hooks] == [got], 'the hook was not called '
                  'once with the entries', hooks, got)
        ctx.check(all(str(t.message) in str(err) for t in err.error_tuples),
                  'an entry is not told in the message', err)
        if len(entries) > 1:
            ctx.count('several')
        failed = world.keep[-1]
        aftermath(ctx, rng, world, shape, failed)
    elif errors:
        ctx.count('generic')
        ctx.check(type(err) is type(errors[0]), 'the first error is not '
                  'raised', errors, err)
        ctx.check(not hooks, 'the hook was called for a foreign error',
                  hooks)
    else:
        ctx.count('constructed')
        ctx.check(err is None, 'construction failed though every assignment '
                  'succeeded', err)
        ctx.check(not hooks, 'the hook was called on success', hooks)
        compare(ctx, cls, made, twin)
        if nested:
            ctx.fail('the nested hook was called on success', nested)
    ctx.nontrivial('construct', cls, [k for k, _ in kwargs], entries, offered)


def in_progress(obj, func):
    """As during construction: validate() in listeners is already running"""
    obj._getting_validated = True
    try:
        return func()
    finally:
        obj._getting_validated = False


def compare(ctx, cls, made, twin):
    for name in cls._props:
        if name in ('ident', 'calc', 'old'):
            continue
        ctx.check(canon(getattr(made, name)) == canon(getattr(twin, name)),
                  'construction and assignment give different values', name,
                  getattr(made, name), getattr(twin, name))
    ctx.check(canon(made.plain) == canon(twin.plain), 'plain attribute '
              'differs', made.plain, twin.plain)


def aftermath(ctx, rng, world, shape, obj):
    """An instance whose construction failed reports later errors"""
    armed = dict(world.armed)
    world.armed.clear()
    field = rng.choice(shape.settable())
    bad = field.spec.bad(rng)
    _, err, hooks, _ = outcome(world, lambda: setattr(obj, field.name, bad))
    if isinstance(err, p.ValidationError):
        mine = [h[1] for h in hooks if h[0] != 'nested']
        ctx.check(mine == [[entry(t) for t in err.error_tuples]], 'after a '
                  'failed construction the hook is not called once', hooks,
                  err)
        ctx.count('aftermath')
    lacking = [n for n, pr in type(obj)._props.items()
               if isinstance(pr, p.Property) and pr.required and
               getattr(obj, n) is None]
    _, err, hooks, _ = outcome(world, obj.validate)
    if lacking:
        ctx.check(isinstance(err, p.ValidationError) and set(lacking) <= {
            t.prop for t in err.error_tuples}, 'after a failed construction '
                  'validate() does not report what is missing', lacking, err)
        ctx.check(len([h for h in hooks if h[0] != 'nested']) == 1, 'hook '
                  'calls of validate() after a failed construction', hooks)
    world.armed.update(armed)


def singles(ctx, rng, world, shape, cls):
    """Single assignments: one hook call each, only on failure"""
    obj = cls()
    world.names[id(obj)] = 'obj'
    for _ in range(rng.randint(4, 10)):
        field = rng.choice(shape.settable())
        name = field.name
        if 'old' in cls._props and cls._props['old'].new_name == name and \
                rng.random() < 0.5:
            name = 'old'
        if rng.random() < 0.15:
            world.armed['validate', field.name] = ('error',)
        val = field.spec.good(rng) if rng.random() < 0.5 else \
            field.spec.candidate(rng)
        if S.awkward(field.spec, val):
            continue
        world.hook_raises = rng.random() < 0.1
        before = canon(getattr(obj, field.name))
        _, err, hooks, _ = outcome(world, lambda: setattr(obj, name, val))
        ctx.note('assign', name, val, world.armed, err)
        ctx.nontrivial('single', field, canon(val), err is None)
        mine = [h for h in hooks if h[0] == 'obj']
        if world.hook_raises and mine:
            ctx.check(isinstance(err, Odd) and len(mine) == 1, 'the error '
                      'of the hook is lost', err, hooks)
            ctx.count('hook_raised')
        elif err is None:
            ctx.check(not mine, 'the hook was called for a successful '
                      'assignment', hooks, field, val)
            ctx.count('assigned')
        elif isinstance(err, p.ValidationError) and any(
                t.instance is obj for t in err.error_tuples):
            ctx.check([h[1] for h in mine] == [[
                entry(t) for t in err.error_tuples]], 'the hook was not '
                      'called once with the entry', hooks, err)
            ctx.check([(t.prop, t.instance is obj) for t in err.error_tuples]
                      == [(field.name, True)], 'the entry does not name '
                      'property and instance', err.error_tuples)
            ctx.count('failed')
        elif not isinstance(err, GENERIC):
            ctx.fail('an assignment failed with an unexpected error', err)
        if err is not None:
            ctx.check(canon(getattr(obj, field.name)) == before, 'a failed '
                      'assignment changed the value', before)
        world.hook_raises = False
        world.armed.clear()
        if rng.random() < 0.2:
            _, err, hooks, _ = outcome(world, obj.validate)
            ctx.check((err is None) == (not [h for h in hooks
                                             if h[0] == 'obj']),
                      'validate() and hook disagree', err, hooks)
            ctx.count('validated')
