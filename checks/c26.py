"""C26: Instance properties hold only instances of their class"""
import abc
import datetime
import json
import warnings

import properties as p

from vlib import specs as S
from vlib.canon import canon, equiv
from vlib.shapes import Shape, InstS

RULE = ('A case declares parents whose Instance properties (alone or as '
        'elements of lists, tuples and dictionaries) name recorded classes: '
        'generated property classes, classes with their own constructors, '
        'plain, builtin, abstract and odd ones; offers instances, keyword '
        'dictionaries and arguments, right and wrong, and checks the stored '
        'object, every constructor call, the error and the hook; then '
        'validation, serialization and deserialization through the parent '
        'and the separate default of every parent. Non-trivial: an offered '
        'value, by target class and outcome.')
CASES = {'quick': 3600, 'thorough': 28800}
FLOORS = {'containers': 3554, 'defaults': 5380, 'made': 3304, 'nested_missing':
          419, 'nested_refusals': 102, 'nested_reports': 574, 'rebuilt': 1435,
          'refused': 4159, 'same': 2793, 'serialized': 1435, 'validated': 1350}


ODD_KEYS = ['__class__', '__class__', '__class__', 'uid', '__root__',
            '_singleton_id', 'cls', 'instance', 'value', '']


class Target(object):
    """A class for an Instance property, with what is known about it"""
    label = '?'
    hasprops = False

    def __init__(self):
        self.log = []           # (object, args, kwargs) of every construction
        self.plan = None        # exception the constructor shall raise

    def decide(self, val):
        """'same', 'new' or 'reject' ('any' when not settled)"""
        if isinstance(val, self.cls):
            return 'same'
        return self.construct(val)

    def construct(self, val):
        raise NotImplementedError


class ShapeT(Target):
    """Generated property class"""
    label = 'shape'
    hasprops = True

    def __init__(self, rng, n, registry, pool):
        super(ShapeT, self).__init__()
        extra = {}
        log = self.log
        if rng.random() < 0.6:
            def __init__(self, **kwargs):
                log.append((self, (), dict(kwargs)))
                p.HasProperties.__init__(self, **kwargs)
            extra['__init__'] = __init__
            self.logged = True
        else:
            self.logged = False
        self.hooked = hooked = []
        extra['_error_hook'] = lambda self, tups: hooked.append((self, tups))
        self.verdict = verdict = [None]
        self.judged = judged = []
        if rng.random() < 0.5:
            def judge(self):
                judged.append(self)
                if verdict[0] is not None and verdict[0][1] is not self:
                    return True
                if verdict[0] and verdict[0][0] == 'false':
                    return False
                if verdict[0]:
                    raise p.ValidationError('judged', 'invalid', None, self)
                return True
            extra['judge'] = p.validator(judge)
        self.shape = Shape(rng, 'Target%d' % n, depth=1, json=True,
                           registry=registry, pool=pool, extra=extra,
                           n=rng.randint(1, 3),
                           spec_filter=lambda s: 'AnyS' not in repr(s))
        self.cls = self.shape.cls
        self.spec = InstS(rng, self.shape)

    def good(self, rng):
        roll = rng.random()
        if roll < 0.35:
            return self.shape.instance(rng)
        if roll < 0.45:
            sub = type('Sub' + self.cls.__name__, (self.cls,), {})
            return sub(**self.shape.good_kwargs(rng))
        return self.shape.good_kwargs(rng)

    def bad(self, rng):
        if rng.random() < 0.15:
            # not keywords of any class
            return dict(self.shape.good_kwargs(rng), **{rng.choice(ODD_KEYS):
                        rng.choice([self.cls.__name__, 1, None, {}])})
        return self.spec.near(rng) if rng.random() < 0.7 else \
            S.hostile(rng)

    def construct(self, val):
        try:
            self.expect = self.spec.model(val)
            return 'new'
        except S.Reject:
            return 'reject'
        except S.Unspec:
            return 'any'


class OwnInitT(Target):
    """Property class with a positional constructor argument"""
    label = 'positional'
    hasprops = True
    logged = True

    def __init__(self, rng, n, registry, pool):
        super(OwnInitT, self).__init__()
        log = self.log
        self.hooked = hooked = []
        self.judged = []
        self.verdict = [None]
        self.required = rng.random() < 0.5
        need = self.required

        def __init__(self, *args, **kwargs):
            log.append((self, args, dict(kwargs)))
            if len(args) > 1 or (need and not args and 'x' not in kwargs):
                raise TypeError('arguments')
            p.HasProperties.__init__(self, **kwargs)
            if args:
                self.x = args[0]
        self.cls = type('Own%d' % n, (p.HasProperties,), {
            '_REGISTRY': registry, '__init__': __init__,
            '_error_hook': lambda self, tups: hooked.append((self, tups)),
            'x': p.Integer('number', min=-5, max=5),
            'y': p.String('text', required=False)})

    def good(self, rng):
        return rng.choice([
            lambda: rng.randint(-5, 5), lambda: {'x': rng.randint(-5, 5)},
            lambda: {'x': 2, 'y': 'txt'}, lambda: self.cls(1),
            lambda: self.cls(x=1, y='a'), lambda: 3.0])()

    def bad(self, rng):
        return rng.choice([lambda: 7, lambda: 'txt', lambda: {'x': 6},
                           lambda: {'y': 5}, lambda: {'x': 1, 'z': 1},
                           lambda: {'x': 'a', 'y': 1}, lambda: None,
                           lambda: {'x': 1, rng.choice(ODD_KEYS):
                                    self.cls.__name__},
                           lambda: [1], lambda: {1: 2}, lambda: {}])()

    def construct(self, val):
        def num(arg):
            return isinstance(arg, (int, float)) and arg == int(arg) and \
                -5 <= arg <= 5
        if isinstance(val, dict):
            if not all(isinstance(k, str) for k in val):
                return 'reject'
            if 'z' in val or not isinstance(val.get('y', ''), str):
                return 'reject'
            if set(val) - {'x', 'y'}:
                return 'reject'
            if 'x' not in val:
                return 'reject' if self.required else 'new'
            return 'new' if num(val['x']) else 'reject'
        return 'new' if num(val) else 'reject'


class PlainT(Target):
    """A plain class whose constructor does as told"""
    label = 'plain'
    logged = True

    def __init__(self, rng, n, registry, pool):
        super(PlainT, self).__init__()
        log, env = self.log, self
        self.falsy = rng.random() < 0.2

        class Plain(object):
            def __init__(self, *args, **kwargs):
                log.append((self, args, dict(kwargs)))
                if env.plan:
                    raise env.plan('told to fail')
                self.args, self.kwargs = args, kwargs
        if self.falsy:
            Plain.__len__ = lambda self: 0
        if rng.random() < 0.2:
            Plain.__eq__ = lambda self, other: isinstance(other, Plain)
            Plain.__hash__ = lambda self: 1
        self.cls = Plain

    def good(self, rng):
        self.plan = None
        return rng.choice([
            lambda: self.cls(), lambda: type('Sub', (self.cls,), {})(1),
            lambda: {'a': 1}, lambda: {}, lambda: None, lambda: 5,
            lambda: {rng.choice(ODD_KEYS): 'Plain', 'x': 1},
            lambda: 'text', lambda: [1, 2], lambda: (1, 2), lambda: self.cls,
            lambda: False, lambda: S.DictSub(a=1), lambda: object()])()

    def bad(self, rng):
        val = self.good(rng)
        self.plan = rng.choice([ValueError, TypeError, KeyError,
                                AttributeError])
        return val

    def construct(self, val):
        return 'reject' if self.plan else 'new'


class OddT(Target):
    """A class whose construction gives something else"""
    label = 'odd'
    logged = False

    def __init__(self, rng, n, registry, pool):
        super(OddT, self).__init__()
        env = self

        class Odd(object):
            def __new__(cls, *args, **kwargs):
                env.made = env.make(cls)
                return env.made
        self.cls = Odd
        self.other = Odd2 = type('Other', (object,), {})
        self.makers = [
            (lambda cls: Odd2(), False), (lambda cls: None, False),
            (lambda cls: 5, False), (lambda cls: cls, False),
            (lambda cls: object.__new__(cls), True),
            (lambda cls: object.__new__(type('S', (cls,), {})), True)]
        self.pick(rng)

    def pick(self, rng):
        self.make, self.fits = rng.choice(self.makers)

    def good(self, rng):
        self.pick(rng)
        return rng.choice([{}, {'a': 1}, 5, None, 'x', object.__new__(
            self.cls)])

    bad = good

    def construct(self, val):
        return 'new' if self.fits else 'reject'


class VirtualT(Target):
    """An abstract class with registered and derived classes"""
    label = 'abstract'
    logged = False

    def __init__(self, rng, n, registry, pool):
        super(VirtualT, self).__init__()
        self.cls = abc.ABCMeta('Abs%d' % n, (object,), {
            'work': abc.abstractmethod(lambda self: 1)})
        self.real = type('Real', (self.cls,), {'work': lambda self: 2})
        self.registered = type('Registered', (object,), {})
        self.cls.register(self.registered)

    def good(self, rng):
        return rng.choice([self.real, self.registered])()

    def bad(self, rng):
        return rng.choice([5, None, {}, {'a': 1}, object(), 'x', self.real])

    def construct(self, val):
        return 'reject'


BUILTINS = [int, str, list, dict, set, tuple, float, complex, frozenset,
            datetime.date, object, type, bool]


class BuiltinT(Target):
    """A builtin type"""
    label = 'builtin'
    logged = False

    def __init__(self, rng, n, registry, pool):
        super(BuiltinT, self).__init__()
        self.cls = rng.choice(BUILTINS)

    def sub(self, rng):
        """An instance of a subclass of the builtin type"""
        if self.cls is bool:
            return rng.random() < 0.5
        sub = type('Sub', (self.cls,), {})
        args = {int: (7,), str: ('sub',), list: ([1, 2],), dict: ({'a': 1},),
                set: ({1},), tuple: ((1, 2),), float: (1.5,), complex: (2j,),
                frozenset: ((1,),), datetime.date: (2020, 1, 2), object: (),
                type: ('Made', (), {})}[self.cls]
        return sub(*(args if rng.random() < 0.7 or self.cls in (
            datetime.date, type) else ()))

    def good(self, rng):
        if rng.random() < 0.25:
            return self.sub(rng)
        return rng.choice([
            lambda: 5, lambda: True, lambda: 'text', lambda: '12',
            lambda: [1, 2], lambda: (1, 2), lambda: {1, 2}, lambda: {},
            lambda: {'a': 1}, lambda: {1: 2}, lambda: None, lambda: 1.5,
            lambda: 2j, lambda: datetime.date(2020, 1, 2), lambda: int,
            lambda: {'year': 2020, 'month': 5, 'day': 6},
            lambda: {'year': 2020, 'month': 15, 'day': 6},
            lambda: [[1, 2]], lambda: S.IntSub(4), lambda: object(),
            lambda: {'object': 'x'}, lambda: {'real': 1, 'imag': 2}])()

    bad = good

    def construct(self, val):
        try:
            if isinstance(val, dict):
                self.like = self.cls(**val)
            else:
                self.like = self.cls(val)
            return 'new'
        except (ValueError, TypeError, KeyError, AttributeError):
            return 'reject'


def make_targets(rng):
    registry = {}
    targets, pool = [], []
    for n in range(rng.randint(1, 3)):
        kind = rng.choice([ShapeT, ShapeT, ShapeT, OwnInitT, OwnInitT,
                           PlainT, PlainT, OddT, VirtualT, BuiltinT,
                           BuiltinT])
        target = kind(rng, n, registry, pool)
        targets.append(target)
        if kind is ShapeT:
            pool.append(target.spec)
    return registry, targets


def run_case(ctx):
    rng = ctx.rng
    registry, targets = make_targets(rng)
    declarations(ctx, rng, targets)
    hooks = []
    namespace = {
        '_REGISTRY': registry,
        '_error_hook': lambda self, tups: hooks.append(
            (self, [(t.prop, t.reason, t.instance) for t in tups]))}
    fields = {}
    for i, target in enumerate(targets):
        name = 'field%d' % i
        make = lambda kw, cls=target.cls: p.Instance('one', cls, **kw)
        fields[name] = (target, 'one')
        namespace[name] = make({'required': rng.random() < 0.5})
        if rng.random() < 0.5:
            bare = target.hasprops and rng.random() < 0.5
            elem = target.cls if bare else p.Instance('elem', target.cls)
            form = rng.choice(['list', 'tuple', 'dict'])
            name = 'many%d' % i
            fields[name] = (target, form)
            kw = {'required': False, 'default': p.undefined}
            namespace[name] = {
                'list': lambda: p.List('many', elem, **kw),
                'tuple': lambda: p.Tuple('many', elem, **kw),
                'dict': lambda: p.Dictionary('many', value_prop=elem, **kw),
            }[form]()
    Parent = type('Parent', (p.HasProperties,), namespace)
    ctx.note('targets', [(t.label, t.cls) for t in targets], sorted(
        (k, v[1]) for k, v in fields.items()))
    parents = [Parent(), Parent()]
    for _ in range(rng.randint(4, 12)):
        parent = rng.choice(parents)
        name = rng.choice(sorted(fields))
        target, form = fields[name]
        if form == 'one':
            offer_one(ctx, rng, parent, name, target, hooks)
        else:
            offer_many(ctx, rng, parent, name, target, form)
        if rng.random() < 0.3:
            recursion(ctx, rng, parent, fields, hooks, registry)
    defaults(ctx, rng, targets, registry)


def clear(target):
    """Forget what was recorded"""
    del target.log[:]


def offer_one(ctx, rng, parent, name, target, hooks):
    val = target.good(rng) if rng.random() < 0.6 else target.bad(rng)
    if val is p.undefined:
        return
    want = target.decide(val)
    before = {k: getattr(parent, k) for k in parent._props}
    known = canon(val)
    clear(target)
    del hooks[:]
    how = rng.choice(['set', 'set', 'construct', 'prop'])
    prop = type(parent)._props[name]
    ctx.note(how, name, target.label, target.cls, val, '->', want)
    err = None
    try:
        if how == 'construct':
            parent = type(parent)(**{name: val})
        elif how == 'set':
            setattr(parent, name, val)
        else:
            found = prop.validate(parent, val)
    except ValueError as exc:
        err = exc
    target_log = list(target.log)
    target.plan = None
    if want == 'any':
        return
    ctx.check((err is None) == (want != 'reject'), 'a value is accepted or '
              'refused wrongly', target.cls, val, want, err)
    ctx.nontrivial(target.label, how, want, known)
    ctx.check(canon(val) == known, 'the value offered was modified', known,
              val)
    if err is not None:
        ctx.count('refused')
        if how != 'construct':
            ctx.check(all(getattr(parent, k) is v for k, v in before.items()),
                      'a refused value changed the parent', before)
        if how != 'prop':
            ctx.check(len(hooks) == 1 and [
                t[0] for t in hooks[0][1]] == [name], 'the error hook did '
                      'not hear of the refused value once', hooks)
        tups = getattr(err, 'error_tuples', None)
        ctx.check(tups and [t.prop for t in tups] == [name],
                  'the error does not name the property', tups)
        nested_report(ctx, target, val, err)
        return
    got = found if how == 'prop' else getattr(parent, name)
    if how == 'set' and got is not before[name]:
        ctx.check(all(getattr(parent, k) is v for k, v in before.items()
                      if k != name), 'another property changed', before)
    if how != 'prop':
        ctx.check(hooks == [], 'the error hook was called on success', hooks)
    judge(ctx, target, val, want, got, target_log)


def nested_report(ctx, target, val, err):
    """The failures inside the instance are told by the outer error"""
    if not target.hasprops or not isinstance(val, dict):
        return
    try:
        target.cls(**val)
    except p.ValidationError as inner:
        ctx.count('nested_reports')
        for tup in inner.error_tuples:
            # whatever addresses may be printed
            if ' at 0x' in str(tup.message):
                continue
            ctx.check(str(tup.message) in str(err), 'a failure inside the '
                      'instance is not reported', tup, str(err))
    except (TypeError, AttributeError, KeyError, ValueError):
        pass


def judge(ctx, target, val, want, got, log):
    """got is what val became"""
    ctx.check(isinstance(got, target.cls), 'what is stored is no instance of '
              'the class', target.cls, got)
    if want == 'same':
        ctx.count('same')
        ctx.check(got is val, 'an instance was replaced', val, got)
        ctx.check(not getattr(target, 'logged', False) or not log,
                  'an instance was constructed needlessly', log)
        return
    ctx.count('made')
    ctx.check(got is not val, 'nothing was constructed', val)
    if getattr(target, 'logged', False):
        ctx.check(len(log) == 1 and log[0][0] is got, 'the stored object is '
                  'not what was constructed once', log, got)
        _, args, kwargs = log[0]
        if isinstance(val, dict):
            ctx.check(args == () and list(kwargs) == list(val) and all(
                kwargs[k] is val[k] for k in val), 'the class got other '
                      'keywords', val, args, kwargs)
        else:
            ctx.check(len(args) == 1 and args[0] is val and not kwargs,
                      'the class got other arguments', val, args, kwargs)
    if isinstance(target, ShapeT):
        ctx.check(S.match(target.expect, got), 'the nested instance holds '
                  'other values', target.expect, canon(got))
    elif isinstance(target, OddT):
        ctx.check(got is target.made, 'not the constructed object', got)
    elif isinstance(target, BuiltinT):
        ctx.check(type(got) is type(target.like) and (
            target.cls is object or got == target.like),
                  'not what the class gives', got, target.like)
    elif isinstance(target, OwnInitT):
        x, y = (val.get('x'), val.get('y')) if isinstance(val, dict) else \
            (val, None)
        ctx.check((got.x, got.y) == (x, y), 'the nested instance holds other '
                  'values', val, got.x, got.y)


def offer_many(ctx, rng, parent, name, target, form):
    """Elements of a container"""
    vals = []
    for _ in range(rng.randint(0, 3)):
        val = target.good(rng)
        if val is p.undefined:
            return
        vals.append(val)
    wants = [target.decide(v) for v in vals]
    if 'any' in wants:
        return
    box = {'list': list, 'tuple': tuple,
           'dict': lambda v: dict(enumerate(v))}[form](vals)
    known = canon(box)
    before = getattr(parent, name)
    clear(target)
    ctx.note('set', name, form, target.cls, vals, '->', wants)
    try:
        setattr(parent, name, box)
        ok = True
    except ValueError:
        ok = False
    log = list(target.log)
    ctx.check(ok == ('reject' not in wants), 'elements are accepted or '
              'refused wrongly', target.cls, vals, wants, ok)
    ctx.nontrivial(target.label, form, wants, known)
    ctx.check(canon(box) == known, 'the container offered was modified',
              known, box)
    got = getattr(parent, name)
    if not ok:
        ctx.check(got is before, 'a refused container was stored', got)
        return
    ctx.count('containers')
    items = [got[k] for k in range(len(vals))]
    ctx.check(len(got) == len(vals), 'elements lost or added', vals, got)
    if getattr(target, 'logged', False):
        made = [v for v, w in zip(vals, wants) if w == 'new']
        ctx.check(len(log) == len(made), 'constructor calls for the elements',
                  vals, log)
    for val, want, item in zip(vals, wants, items):
        ctx.check(isinstance(item, target.cls), 'an element is no instance '
                  'of the class', target.cls, item)
        ctx.check((item is val) == (want == 'same'), 'element replaced or '
                  'not constructed', val, item)
        if isinstance(target, ShapeT) and want == 'new':
            ctx.check(S.match(target.spec.model(val), item), 'an element '
                      'holds other values', val, canon(item))


def nested_of(parent, fields):
    """(field, target, nested property instance) directly below parent"""
    for name, (target, form) in sorted(fields.items()):
        val = getattr(parent, name)
        if val is None or not target.hasprops:
            continue
        items = [val] if form == 'one' else \
            list(val.values()) if form == 'dict' else list(val)
        for item in items:
            if isinstance(item, target.cls):
                yield name, target, item


def outcome(obj, hooks, targets):
    del hooks[:]
    for target in targets:
        if target.hasprops:
            del target.hooked[:]
            del target.judged[:]
    try:
        result = obj.validate()
        return result, []
    except p.ValidationError as err:
        return None, [(t.reason, t.prop, t.instance)
                      for t in err.error_tuples]


def has_broken_plain(parent, fields):
    """Odd values whose own type decides on their validity"""
    return any(isinstance(t, BuiltinT) and getattr(parent, n) is not None
               for n, (t, _) in fields.items())


def missing(obj):
    return [n for n, pr in type(obj)._props.items()
            if isinstance(pr, p.Property) and pr.required and
            getattr(obj, n) is None]


def recursion(ctx, rng, parent, fields, hooks, registry):
    """validate, serialize, deserialize of the parent act on the nested"""
    nested = list(nested_of(parent, fields))
    if not nested:
        return
    targets = [t for t, _ in fields.values()]
    for target in targets:
        clear(target)
    name, target, inst = rng.choice(nested)
    own_ok = True
    for _, _, item in nested:
        try:
            item.validate()
        except p.ValidationError:
            own_ok = False
    expect_ok = own_ok and not missing(parent)
    if not has_broken_plain(parent, fields):
        result, tups = outcome(parent, hooks, targets)
        ctx.check((result is True) == expect_ok, 'validation of the parent '
                  'disagrees with its nested instances', parent, nested,
                  own_ok, missing(parent), result, tups)
        ctx.count('validated')
        ctx.check(all(not t.log for t in targets), 'validation constructed '
                  'instances', [t.log for t in targets])
        for where, tgt, item in nested:
            if 'judge' in tgt.cls.__dict__ and expect_ok:
                ctx.check(any(j is item for j in tgt.judged),
                          'a nested instance was not validated', item)
        if expect_ok:
            broken(ctx, rng, parent, name, target, inst, hooks, targets)
    serialized(ctx, rng, parent, fields, nested)


def broken(ctx, rng, parent, name, target, inst, hooks, targets):
    """A valid nested instance made invalid, and right again"""
    if 'judge' in target.cls.__dict__ and rng.random() < 0.6:
        for verdict in ('false', 'raise'):
            target.verdict[0] = (verdict, inst)
            result, tups = outcome(parent, hooks, targets)
            target.verdict[0] = None
            ctx.check(result is None and any(t[2] is inst for t in tups),
                      'the refusal of a nested validator is lost', tups)
            ctx.check(any(h[0] is inst for h in target.hooked),
                      'the nested hook was not called', target.hooked)
        ctx.count('nested_refusals')
    else:
        need = [n for n, pr in type(inst)._props.items()
                if isinstance(pr, p.Property) and pr.required]
        if not need:
            return
        gone = rng.choice(sorted(need))
        value = getattr(inst, gone)
        delattr(inst, gone)
        result, tups = outcome(parent, hooks, targets)
        setattr(inst, gone, value)
        ctx.check(result is None and any(
            t[1] == gone and t[2] is inst and t[0] == 'missing'
            for t in tups), 'what is missing in a nested instance is not '
                  'reported', gone, tups)
        ctx.count('nested_missing')
    result, tups = outcome(parent, hooks, targets)
    ctx.check(result is True, 'the repaired nested instance is still '
              'invalid', tups)


def serialized(ctx, rng, parent, fields, nested):
    if any(not t.hasprops and getattr(parent, n) is not None
           for n, (t, _) in fields.items()):
        clean = type(parent)()
        for name, (target, _) in fields.items():
            if target.hasprops and getattr(parent, name) is not None:
                setattr(clean, name, getattr(parent, name))
        parent = clean
    kwargs = {'include_class': rng.random() < 0.5}
    if rng.random() < 0.3:
        kwargs['other'] = 1
    data = parent.serialize(**kwargs)
    ctx.count('serialized')
    for name, (target, form) in fields.items():
        val = getattr(parent, name)
        if val is None:
            ctx.check(name not in data, 'an unset property is written', data)
            continue
        one = lambda v: v.serialize(**kwargs)
        want = one(val) if form == 'one' else \
            {str(k): one(v) for k, v in val.items()} if form == 'dict' else \
            [one(v) for v in val]
        have = data.get(name)
        if form == 'dict':
            have = {str(k): v for k, v in have.items()}
        elif form == 'tuple':
            have = list(have)
        ctx.check(canon(have, kinds=False) == canon(want, kinds=False),
                  'a nested instance is not written as it writes itself',
                  name, have, want)
    data = {k: v for k, v in data.items() if fields.get(k, (0, 'one'))[1] !=
            'dict'}
    for target, _ in fields.values():
        clear(target)
    again = type(parent).deserialize(
        json.loads(json.dumps(data)), trusted=rng.random() < 0.5,
        assert_valid=False)
    ctx.count('rebuilt')
    for name, (target, form) in fields.items():
        val, new = getattr(parent, name), getattr(again, name)
        if val is None or form == 'dict':
            continue
        pairs = [(val, new)] if form == 'one' else list(zip(val, new))
        for old, item in pairs:
            ctx.check(isinstance(item, target.cls) and item is not old,
                      'a nested instance is not rebuilt', old, item)
            if type(old) is type(item):
                ctx.check(nearly(old, item), 'a nested instance is '
                          'rebuilt with other values', canon(old),
                          canon(item))


def nearly(old, new):
    """Equal as far as a round trip through text keeps values"""
    return all((getattr(old, n) is None) == (getattr(new, n) is None) or
               type(old)._props[n].default is not p.undefined
               for n in type(old)._props) and (
                   equiv(old, new) or p.equal(old, new))


def declarations(ctx, rng, targets):
    """Only classes can be declared"""
    bad = rng.choice([5, 'Target', None, object(), [int], lambda: 1,
                      p.Integer('x')])
    try:
        p.Instance('doc', bad)
        ctx.fail('not a class, but declared', bad)
    except TypeError:
        pass
    target = rng.choice(targets)
    ctx.check(p.Instance('doc', target.cls).instance_class is target.cls,
              'declared class differs', target.cls)


def defaults(ctx, rng, targets, registry):
    """A separate nested instance for every parent"""
    target = rng.choice(targets)
    if not target.hasprops or getattr(target, 'required', False):
        target = PlainT(rng, 9, registry, [])
    clear(target)
    cls = target.cls
    form = rng.choice(['auto', 'class', 'callable', 'dict', 'override',
                       'inherited', 'auto_off', 'elements'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        kw = {'auto': {'auto_create': True}, 'class': {'default': cls},
              'callable': {'default': lambda: cls()},
              'dict': {'default': dict}, 'override': {},
              'inherited': {'default': cls}, 'elements': {},
              'auto_off': {'auto_create': False}}[form]
        prop = p.Instance('auto', cls, **kw)
    namespace = {'_REGISTRY': registry, 'child': prop}
    if form == 'elements':
        namespace['child'] = p.Tuple('several', prop,
                                     default=lambda: ({}, {}))
    if form == 'override':
        namespace['_defaults'] = {'child': cls}
    Auto = type('Auto', (p.HasProperties,), namespace)
    if form == 'inherited' or rng.random() < 0.3:
        Auto = type('AutoSub', (Auto,), {})
    made = 2 if form == 'elements' else 0 if form == 'auto_off' else 1
    ctx.check(not target.log or made, 'constructed at declaration')
    # the class itself may try its default; only what instances hold counts
    clear(target)
    ctx.note('default', form, target.label, cls)
    parents = [Auto() for _ in range(3)]
    held = []
    for parent in parents:
        child = parent.child
        if form == 'auto_off':
            ctx.check(child is None, 'created without being asked', child)
            continue
        held += list(child) if form == 'elements' else [child]
    ctx.count('defaults', len(held))
    ctx.check(all(isinstance(c, cls) for c in held), 'a default of another '
              'class', held)
    ctx.check(len({id(c) for c in held}) == made * 3, 'parents share a '
              'nested instance', held)
    if getattr(target, 'logged', False) and made:
        ctx.check(all(sum(e[0] is c for e in target.log) == 1 for c in held),
                  'a default was not constructed once', target.log, held)
    if form == 'auto_off' or form == 'elements':
        return
    ctx.check(all(pr.child is c for pr, c in zip(parents, held)),
              'the default changes when it is read')
    clear(target)
    parents[0]._reset('child')
    new = parents[0].child
    ctx.check(isinstance(new, cls) and all(new is not c for c in held),
              'reset shares a nested instance', new)
    if target.hasprops and isinstance(target, ShapeT):
        field = next((f for f in target.shape.settable()), None)
        if field:
            states = [canon(pr.child) for pr in parents[1:]]
            for _ in range(3):
                val = field.spec.good(rng)
                try:
                    setattr(new, field.name, val)
                except ValueError:
                    continue
                break
            ctx.check(states == [canon(pr.child) for pr in parents[1:]],
                      'changing one nested instance changes another',
                      field)
    other = Auto(child=new)
    ctx.check(other.child is new, 'an instance was replaced')
    explicit = Auto(child={})
    ctx.check(explicit.child is not new and isinstance(explicit.child, cls),
              'keywords do not give a new instance')
