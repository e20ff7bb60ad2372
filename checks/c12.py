"""C12: defaults - precedence, freshness, silence, reset"""
import collections

import properties as p

from vlib.canon import canon, walk

RULE = ('A case builds a random inheritance graph (diamonds included) whose '
        'classes declare properties with keyword defaults, redeclare them, '
        'override defaults by value, callable or undefined, and use custom '
        'property types with type defaults; then constructs instances, '
        'counts callable calls, mutates containers and resets, against a '
        'model following the method resolution order. Non-trivial: a '
        'property with a default, by how the default is decided.')
CASES = {'quick': 2400, 'thorough': 20000}
FLOORS = {'callables_counted': 8544, 'defaults_checked': 44308, 'freshness':
          19125, 'immutable_resets': 1214, 'instances': 9600, 'keyword_sets':
          3260, 'overrides': 21847, 'resets': 17334, 'shadowed_overrides': 4475}

UNDEF = p.undefined


class Three(p.Integer):
    _class_default = 3


class Fresh(p.List):
    _class_default = list


class Leaf(p.HasProperties):
    _REGISTRY = {}
    num = p.Integer('n', default=1)


class Tick(object):
    """A callable default that counts its calls"""

    def __init__(self, make):
        self.make, self.calls = make, 0

    def __call__(self):
        self.calls += 1
        return self.make()


def values(rng, kind):
    """(description, maker of an equal fresh value)"""
    num = rng.randint(0, 99)
    if kind in ('int', 'three', 'const', 'num_union'):
        return lambda: num
    if kind in ('list', 'fresh'):
        return lambda: [num, num + 1]
    if kind == 'set':
        return lambda: {num, num + 1}
    if kind == 'dict':
        return lambda: {'k%d' % num: [num]}
    if kind == 'tuple':
        return lambda: (num,)
    if kind == 'inst':
        return lambda: Leaf(num=num)
    if kind == 'union':
        return (lambda: num) if num % 2 else (lambda: [num])
    if kind == 'str':
        return lambda: 'text%d' % num
    raise AssertionError(kind)


KINDS = ['int', 'three', 'const', 'list', 'fresh', 'set', 'dict', 'tuple',
         'inst', 'union', 'num_union', 'str', 'list', 'dict']


def build(kind, kwargs, rng):
    observe = {'observe_mutations': rng.random() < 0.4}
    if kind == 'int':
        return p.Integer('d', **kwargs)
    if kind == 'three':
        return Three('d', **kwargs)
    if kind == 'const':
        return p.GettableProperty('d', **kwargs)
    if kind == 'str':
        return p.String('d', **kwargs)
    if kind == 'list':
        return p.List('d', p.Integer(''), **dict(observe, **kwargs))
    if kind == 'fresh':
        return Fresh('d', p.Integer(''), **dict(observe, **kwargs))
    if kind == 'set':
        return p.Set('d', p.Integer(''), **dict(observe, **kwargs))
    if kind == 'dict':
        return p.Dictionary('d', key_prop=p.String(''),
                            value_prop=p.List('', p.Integer('')),
                            **dict(observe, **kwargs))
    if kind == 'tuple':
        return p.Tuple('d', p.Integer(''), **kwargs)
    if kind == 'inst':
        return p.Instance('d', Leaf, **kwargs)
    if kind == 'num_union':
        return p.Union('d', [p.Integer('', default=42), p.String('')],
                       **kwargs)
    return p.Union('d', [p.Integer(''), p.List('', p.Integer(''))], **kwargs)


class Decl(object):
    """One declaration of a property"""

    def __init__(self, kind, how, default):
        self.kind, self.how, self.default = kind, how, default


def pick(rng, kind):
    """How a default is given and its object"""
    roll = rng.random()
    make = values(rng, kind)
    if roll < 0.15:
        return 'undefined', UNDEF
    if roll < 0.5:
        return 'value', make()
    if kind == 'inst' and roll < 0.7:
        return 'class', Leaf
    if kind == 'list' and roll < 0.6:
        return 'class', list
    if kind == 'dict' and roll < 0.6:
        return 'class', dict
    return 'callable', Tick(make)


class Model(object):
    def __init__(self, rng, log):
        self.classes = []           # (cls, own decls, own overrides)
        names = rng.sample(['aa', 'bb', 'cc', 'dd', 'ee'], rng.randint(2, 4))
        kinds = {n: rng.choice(KINDS) for n in names}
        self.decls = {}
        self.over = {}
        registry = {}

        def on_any(tag):
            def seen(self, change):
                log.append((tag, id(self), change['name'],
                            change['previous'], change['value']))
            return seen

        for i in range(rng.randint(1, 5)):
            bases = [p.HasProperties]
            if self.classes:
                bases = rng.sample(self.classes, min(
                    len(self.classes), rng.choice([1, 1, 2, 2, 3])))
                # most derived first keeps most orders consistent
                bases.sort(key=lambda c: -self.classes.index(c))
                bases = [b for b in bases if not any(
                    b is not o and issubclass(o, b) for o in bases)]
            known = set()
            for base in bases:
                known |= set(getattr(base, '_props', {}))
            ns = {'_REGISTRY': registry}
            own, over = {}, {}
            for name in names:
                if rng.random() < (0.7 if name not in known else 0.25):
                    kind = kinds[name]
                    how, default = pick(rng, kind) if rng.random() < 0.6 \
                        else ('none', None)
                    kwargs = {} if how == 'none' else {'default': default}
                    ns[name] = build(kind, kwargs, rng)
                    own[name] = Decl(kind, how, default)
                    known.add(name)
            for name in known:
                if rng.random() < 0.35:
                    how, default = pick(rng, kinds[name])
                    over[name] = Decl(kinds[name], how, default)
            if over or rng.random() < 0.2:
                ns['_defaults'] = {n: d.default for n, d in over.items()}
            if not self.classes:
                ns['on_valid'] = p.validator(p.everything)(on_any('valid'))
                ns['on_change'] = p.observer(
                    p.everything, change_only=True)(on_any('change'))
                ns['on_set'] = p.observer(p.everything)(on_any('set'))
            elif 'on_set' not in set().union(*[
                    set(b._prop_observers) for b in bases]):
                continue
            try:
                cls = type('Kind%d' % i, tuple(bases), ns)
            except TypeError as err:
                if 'consistent' in str(err) or 'MRO' in str(err):
                    continue
                raise
            self.classes.append(cls)
            self.decls[cls] = own
            self.over[cls] = over

    def names(self, cls):
        out = set()
        for base in cls.__mro__:
            out |= set(self.decls.get(base, {}))
        return out

    def decl(self, cls, name):
        for base in cls.__mro__:
            if name in self.decls.get(base, {}):
                return self.decls[base][name]

    def source(self, cls, name):
        """The deciding default: ('override'|'keyword'|'type'|'none', ...)"""
        decl = self.decl(cls, name)
        found = [base for base in cls.__mro__
                 if name in self.over.get(base, {})]
        if found:
            over = self.over[found[0]][name]
            return 'override', over.how, over.default, len(found)
        if decl.how != 'none':
            # a union's undefined default gives way to its alternatives'
            if not (decl.kind == 'num_union' and decl.default is UNDEF):
                return 'keyword', decl.how, decl.default, 0
        if decl.kind == 'three':
            return 'type', 'value', 3, 0
        if decl.kind == 'fresh':
            return 'type', 'class', list, 0
        if decl.kind == 'num_union':
            return 'type', 'value', 42, 0
        return 'none', 'undefined', UNDEF, 0


def expected(how, default):
    if default is UNDEF:
        return None
    if how == 'callable':
        return default.make()
    if how == 'class':
        return default()
    return default


def check_values(ctx, model, cls, obj, others, skip=()):
    for name in sorted(model.names(cls)):
        if name in skip:
            continue
        where, how, default, depth = model.source(cls, name)
        act = getattr(obj, name)
        ctx.count('defaults_checked')
        if where == 'override':
            ctx.count('overrides')
            if depth > 1:
                ctx.count('shadowed_overrides')
        exp = expected(how, default)
        ctx.nontrivial(model.decl(cls, name).kind, where, how, canon(exp))
        ctx.check(canon(act) == canon(exp), 'wrong default for %s.%s' % (
            cls.__name__, name), 'from %s (%s)' % (where, how),
            exp, act, [c.__name__ for c in cls.__mro__])
        if act is None:
            continue
        # nothing mutable is shared with the default or other instances;
        # an instance given as a plain value is that very object
        mine = [v for v in walk(act).values()
                if not isinstance(v, p.HasProperties) or how != 'value']
        theirs = {}
        for other in others:
            theirs.update(walk(getattr(other, name)))
        if how == 'value' and default is not UNDEF:
            theirs.update(walk(default))
        for part in mine:
            ctx.count('freshness')
            if how == 'value' and isinstance(part, p.HasProperties):
                continue
            ctx.check(id(part) not in theirs, 'default is shared between '
                      'instances or with its declaration: %s.%s' % (
                          cls.__name__, name), part)


def ticks(model, cls):
    """Calls made so far of every callable default in the family"""
    out = collections.OrderedDict()
    for table in (model.decls, model.over):
        for owner, decls in table.items():
            for name, decl in decls.items():
                if decl.how == 'callable':
                    out[(owner.__name__, name, id(decl))] = \
                        decl.default.calls
    return out


def used_ticks(model, cls, names):
    return [model.source(cls, n)[2] for n in names
            if model.source(cls, n)[1] == 'callable']


def run_case(ctx):
    rng = ctx.rng
    log = []
    model = Model(rng, log)
    for _ in range(4):
        cls = rng.choice(model.classes)
        names = model.names(cls)
        ctx.note(cls.__name__, [c.__name__ for c in cls.__mro__], {
            n: model.source(cls, n)[:3] for n in names})
        made = []
        for _ in range(2):
            before = ticks(model, cls)
            used = used_ticks(model, cls, names)
            base = {id(t): t.calls for t in used}
            kwargs = {}
            for name in sorted(names):
                kind = model.decl(cls, name).kind
                if kind != 'const' and rng.random() < 0.15:
                    kwargs[name] = values(rng, kind)()
            del log[:]
            obj = cls(**kwargs)
            ctx.count('instances')
            for tick in used:
                ctx.count('callables_counted')
                ctx.check(tick.calls == base[id(tick)] + 1,
                          'a callable default was called %d times for one '
                          'instance' % (tick.calls - base[id(tick)]))
            after = ticks(model, cls)
            total = sum(after.values()) - sum(before.values())
            ctx.check(total == len(used), 'other callable defaults were '
                      'called', total, len(used))
            sets = [e for e in log if e[0] == 'set']
            ctx.check([e[2] for e in sets] == list(kwargs),
                      'applying defaults fired listeners', log, kwargs)
            ctx.check(len([e for e in log if e[0] == 'valid']) ==
                      len(kwargs), 'defaults fired validators', log)
            ctx.count('keyword_sets', len(kwargs))
            for event in sets:
                # keywords replace the default, which is the previous value
                _, how, default, _ = model.source(cls, event[2])
                prev = None if event[3] is UNDEF else event[3]
                ctx.check(canon(prev) == canon(expected(how, default)),
                          'previous value is not the default', event)
            for name in kwargs:
                ctx.check(canon(getattr(obj, name)) == canon(kwargs[name]),
                          'keyword was not kept', name, kwargs[name])
            check_values(ctx, model, cls, obj, made, skip=kwargs)
            made.append(obj)
            # damage every container in place: later instances are unmoved
            for name in names:
                for part in walk(getattr(obj, name)).values():
                    if isinstance(part, list):
                        list.append(part, 777)
                    elif isinstance(part, set):
                        set.add(part, 777)
                    elif isinstance(part, dict):
                        dict.__setitem__(part, 'intruder', 777)
        resets(ctx, rng, model, cls, cls(), log)


def resets(ctx, rng, model, cls, obj, log):
    names = sorted(model.names(cls))
    for _ in range(4 if names else 0):
        name = rng.choice(names)
        kind = model.decl(cls, name).kind
        if kind == 'const':
            try:
                obj._reset(name)
            except AttributeError:
                ctx.count('immutable_resets')
            else:
                ctx.fail('immutable property was reset', name)
            check_values(ctx, model, cls, obj, [],
                         skip=[n for n in names if n != name])
            continue
        prev = getattr(obj, name)
        if rng.random() < 0.5:
            new = values(rng, kind)()
            setattr(obj, name, new)
        elif rng.random() < 0.3:
            delattr(obj, name)
        prev = getattr(obj, name)
        prev_canon = canon(prev)
        others = {n: canon(getattr(obj, n), ids=True)
                  for n in names if n != name}
        del log[:]
        whole = rng.random() < 0.2
        used = used_ticks(model, cls, [
            n for n in (names if whole else [name])
            if model.decl(cls, n).kind != 'const'])
        base = {id(t): t.calls for t in used}
        ctx.note('reset', name, 'all' if whole else '', prev)
        obj._reset(*([] if whole else [name]))
        ctx.count('resets')
        for tick in used:
            ctx.check(tick.calls == base[id(tick)] + 1,
                      'callable default not called anew by reset', name)
        check_values(ctx, model, cls, obj, [], skip=[] if whole else [
            n for n in names if n != name])
        if whole:
            mutable = [n for n in names
                       if model.decl(cls, n).kind != 'const']
            ctx.check(sorted(e[2] for e in log if e[0] == 'set') == mutable,
                      'resetting everything did not set every property',
                      log)
        else:
            ctx.check(others == {n: canon(getattr(obj, n), ids=True)
                                 for n in others},
                      'reset changed another property', others, obj)
        now = getattr(obj, name)
        mine = [e for e in log if e[2] == name]
        want = ['valid', 'set'] if prev_canon == canon(now) else [
            'valid', 'change', 'set']
        ctx.check([e[0] for e in mine] == want and all(
            e[1] == id(obj) for e in mine),
            'reset is not an ordinary notified set', want, mine)
        for event in mine:
            was = None if event[3] is UNDEF else event[3]
            got = None if event[4] is UNDEF else event[4]
            ctx.check(was is prev and got is now,
                      'reset notified wrong values', event, prev, now)
