"""C36: public helpers do what they say"""
import collections
import warnings

import properties as p
from properties.extras import HasUID, Singleton

from vlib import specs as S

RULE = ('A case splits random dictionaries by random classes with '
        'filter_props, runs methods decorated with stop_recursion_with over '
        'random graphs of instances that compare equal or not, with values, '
        'functions and exceptions as backup and exceptions on the way, makes '
        'validation errors of random parts, and uses the sentinels, against '
        'small models. Non-trivial: a split, a walk or an error, by its '
        'arguments.')
CASES = {'quick': 2500, 'thorough': 40000}
FLOORS = {'errors': 1250, 'sentinels': 116, 'splits': 3750, 'walks': 5000,
          'walks_broken': 1608, 'walks_of_equals': 2474}


# --------------------------------------------------------------- filter_props

def splits(ctx, rng):
    names = ['a', 'b', 'c', '_d', 'E', 'uid', 'name']
    kinds = {}
    body = {'_REGISTRY': {}, 'method': lambda self: 1, 'attribute': 5}
    for name in rng.sample(names[:5], rng.randint(0, 5)):
        kinds[name] = rng.choice(['set', 'set', 'fixed', 'uuid', 'old'])
    targets = [n for n, k in kinds.items() if k == 'set']
    for name, kind in list(kinds.items()):
        if kind == 'old' and not targets:
            kind = kinds[name] = 'set'
        body[name] = {
            'set': lambda: S.draw(rng, 1).build(),
            'fixed': lambda: p.GettableProperty('', default=3),
            'uuid': lambda: p.Uuid(''),
            'old': lambda: p.Renamed(rng.choice(targets), warn=False),
        }[kind]()
    base = rng.choice([p.HasProperties, p.HasProperties, HasUID, Singleton])
    if base is HasUID:
        body['_INSTANCES'] = {}
        kinds['uid'] = 'set' if isinstance(
            HasUID._props['uid'], p.Property) else 'fixed'
    elif base is Singleton:
        body['_SINGLETONS'] = {}
    cls = type('Owner', (base,), body)
    if rng.random() < 0.4:
        cls = type('Sub', (cls,), {'more': p.Integer('')})
        kinds['more'] = 'set'
    pool = names + ['more', 'method', 'attribute', '_props', '__class__',
                    '', 'A', 'a ', 5, None, ('a',), 2.5, 'serialize']
    for _ in range(3):
        keys = rng.sample(pool, rng.randint(0, 10))
        data = collections.OrderedDict((k, object()) for k in keys)
        if rng.random() < 0.5:
            data = dict(data)
        keep = list(data.items())
        how = rng.choice([(), (True,), (False,)])
        who = cls if rng.random() < 0.6 else (
            cls('one') if base is Singleton else cls())
        ctx.note('filter', sorted(kinds.items()), keys, how)
        out = p.filter_props(who, data, *how)
        ctx.count('splits')
        ctx.check(isinstance(out, tuple) and len(out) == 2 and all(
            isinstance(d, dict) for d in out), 'not two dictionaries', out)
        props, others = out
        want = [(k, v) for k, v in keep if kinds.get(k) and (
            how != (False,) or kinds[k] in ('set', 'old'))]
        rest = [kv for kv in keep if kv not in want]
        ctx.check(list(props.items()) == want, 'wrong names among the '
                  'properties', list(props), [k for k, _ in want], kinds, how)
        ctx.check(list(others.items()) == rest, 'wrong names among the '
                  'others', list(others), [k for k, _ in rest], kinds, how)
        ctx.check(list(data.items()) == keep, 'the dictionary was changed')
        ctx.check(props is not data and others is not data,
                  'the dictionary itself was returned')
        if want and rest:
            ctx.nontrivial(('filter', sorted(kinds.items()), repr(keys), how))


# --------------------------------------------------------- stop_recursion_with

class Stop(Exception):
    pass


class Break(Exception):
    pass


class Abort(BaseException):
    pass


def walks(ctx, rng):
    n = rng.randint(1, 6)
    graph = {i: [rng.randrange(n) for _ in range(rng.randint(0, 3))]
             for i in range(n)}
    same = rng.random() < 0.5       # all nodes compare equal
    hashed = rng.random() < 0.5
    how = rng.choice(['value', 'none', 'function', 'error', 'error made'])
    breaks = rng.choice([None, None, rng.randint(1, 10)])
    fault = rng.choice([Break, Abort])
    note = (n, sorted(graph.items()), same, how, breaks, fault.__name__)
    ctx.note('walk', note)

    def backup(this, extra, word='w'):
        out = ('met', this.num, extra, word)
        return Stop(this.num) if how == 'error made' else out
    stopper = {'value': ['seen'], 'none': None, 'function': backup,
               'error': Stop('again'), 'error made': backup}[how]
    calls = [0]

    class Node(p.HasProperties):
        _REGISTRY = {}
        num = p.Integer('')

        if same:
            def __eq__(self, other):
                return isinstance(other, Node)

            def __ne__(self, other):
                return not self == other

            def __hash__(self):
                if not hashed:
                    raise TypeError('not hashable')
                return 1

        @p.stop_recursion_with(stopper)
        def visit(self, extra, word='w'):
            """Look around"""
            return around(self, extra, word, Node.visit)

        @p.stop_recursion_with('other')
        def other(self, extra, word='w'):
            return around(self, extra, word, Node.other)

    nodes = [Node(num=i) for i in range(n)]

    def around(this, extra, word, func):
        calls[0] += 1
        if breaks and calls[0] == breaks:
            raise fault()
        if extra > 6:
            return 'deep'
        return [this.num, word] + [
            func(nodes[k], extra + 1, word=word)
            for k in graph[this.num]]

    def model(k, extra, word, held, name, count):
        if k in held:
            if name == 'other':
                return 'other'
            if how.startswith('error'):
                raise Stop(k if how == 'error made' else 'again')
            return {'value': ['seen'], 'none': None,
                    'function': ('met', k, extra, word)}[how]
        count[0] += 1
        if breaks and count[0] == breaks:
            raise fault()
        if extra > 6:
            return 'deep'
        return [k, word] + [model(i, extra + 1, word, held | {k}, name, count)
                            for i in graph[k]]

    ctx.check(Node.visit.__name__ == 'visit' and
              Node.visit.__doc__ == 'Look around', 'name or documentation of '
              'the function lost')
    for _ in range(4):
        start = rng.randrange(n)
        word = rng.choice(['w', 'v'])
        name = rng.choice(['visit', 'visit', 'other'])
        calls[0] = 0
        results = []
        for run in (lambda: getattr(nodes[start], name)(0, word=word),
                    lambda: model(start, 0, word, frozenset(), name, [0])):
            try:
                results.append(run())
            except (Stop, Break, Abort) as err:
                results.append((type(err).__name__, str(err)))
        ctx.count('walks')
        ctx.count('walks_of_equals', same)
        ctx.count('walks_broken', bool(breaks))
        ctx.check(results[0] == results[1], 'a function that stops recursion '
                  'gives something else', results[0], results[1], name, start,
                  note)
        if graph[start]:
            ctx.nontrivial(('walk', note, start, name))


# ------------------------------------------------------------ ValidationError

def errors(ctx, rng):
    heard = []

    class Owner(p.HasProperties):
        _REGISTRY = {}
        x = p.Integer('')

        def _error_hook(self, error_tuples):
            heard.append(list(error_tuples))
    obj = Owner()
    message = rng.choice(['', 'text', u'ü', 'a\nb'])
    reason = rng.choice([None, None, 'invalid', 'missing', '', 'own', 5, b'b',
                         ['x']])
    prop = rng.choice([None, None, 'x', 'other', '', 7, Owner.x])
    instance = rng.choice([None, None, obj, obj, Owner, 'text', 3, object()])
    given = None
    if rng.random() < 0.4:
        given = [p.ValidationError('%d' % i, 'r%d' % i).error_tuples[0]
                 for i in range(rng.randint(0, 2))]
    before = list(given) if given is not None else None
    kw = {}
    if reason is not None or rng.random() < 0.3:
        kw['reason'] = reason
    if prop is not None or rng.random() < 0.3:
        kw['prop'] = prop
    if instance is not None or rng.random() < 0.3:
        kw['instance'] = instance
    bad = (reason is not None and not isinstance(reason, str)) or (
        prop is not None and not isinstance(prop, str)) or (
            instance is not None and not hasattr(instance, '_error_hook'))
    note = (message, repr(reason), repr(prop)[:20], type(instance).__name__,
            before is not None and len(before))
    ctx.note('error', note)
    ctx.count('errors')
    ctx.nontrivial(('error', note))
    try:
        if before is None:
            err = p.ValidationError(message, **kw)
        else:
            err = p.ValidationError(message, _error_tuples=given, **kw)
    except TypeError:
        ctx.check(bad, 'an error with valid parts is refused', note)
        ctx.check(not heard, 'a refused error was announced', note)
        return
    ctx.check(not bad, 'an error with invalid parts is accepted', note)
    ctx.check(isinstance(err, ValueError) and str(err) == message,
              'not a ValueError with its message', note, str(err))
    own = (message, reason, prop, instance)
    want = [own] if before is None else [
        tuple(t) for t in before] + (
            [own] if reason or prop or instance else [])
    got = [tuple(t) for t in err.error_tuples]
    ctx.check(len(got) == len(want) and all(
        g[0] == w[0] and g[1] == w[1] and g[2] == w[2] and g[3] is w[3]
        for g, w in zip(got, want)), 'wrong entries', got, want, note)
    ctx.check(all((t.message, t.reason, t.prop, t.instance) == tuple(t)
                  for t in err.error_tuples), 'entries without names', note)
    # the hook of an instance hears of errors made while nothing collects them
    ctx.check([len(h) for h in heard] == (
        [len(want)] if isinstance(instance, Owner) else []),
              'the hook was not called once', heard, note)
    try:
        raise err
    except ValueError as again:
        ctx.check(again is err, 'another error raised')


def sentinels(ctx, rng):
    for one, other in ((p.undefined, p.everything),
                       (p.everything, p.undefined)):
        ctx.check(one is not other and one != other and one == one and
                  bool(one) and isinstance(one.name, str) and one.doc,
                  'sentinels mixed up')
    ctx.check((p.undefined.name, p.everything.name) ==
              ('undefined', 'everything'), 'sentinels misnamed')

    class Owner(p.HasProperties):
        _REGISTRY = {}
        x = p.Integer('', default=4)
        y = p.Property('', default=rng.choice([p.undefined, None, 3]))
    obj = Owner()
    obj.x = p.undefined
    ctx.count('sentinels')
    ctx.check(obj.x is None and 'x' not in obj.serialize(),
              'undefined does not unset', obj.x)
    heard = []
    p.observer(obj, p.everything, lambda this, change: heard.append(
        (change['name'], change['previous'], change['value'])))
    val = rng.randint(0, 5)
    obj.x = val
    obj.y = 'a'
    obj.x = p.undefined
    ctx.check([h[0] for h in heard] == ['x', 'y', 'x'] and
              heard[0][1] is p.undefined and heard[2][1] == val and
              heard[2][2] is p.undefined, 'everything was not observed or '
              'undefined is not named', heard)


def run_case(ctx):
    rng = ctx.rng
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        splits(ctx, rng)
        walks(ctx, rng)
        errors(ctx, rng)
        if rng.random() < 0.1:
            sentinels(ctx, rng)
