"""C05: observed containers against plain builtins and a twin instance"""
import operator

import properties as p

from vlib import specs as S
from vlib.canon import base_container, canon, container_kind

RULE = ('A case stores a list, set or dictionary (or a subclass of one) in an '
        'observing property and runs a random sequence of mutating methods, '
        'in-place operators, plain operators, replacements, deletions, vetoed '
        'changes and operations on stale containers; each is replayed on a '
        'plain builtin copy and, as an assignment, on a twin instance whose '
        'listener log must be the same. Non-trivial: every operation.')
CASES = {'quick': 1500, 'thorough': 12000}
FLOORS = {'builtin_errors': 2184, 'inplace': 1635, 'invalid_rejected': 549,
          'mutations': 8554, 'namesakes': 528, 'notifications': 61612,
          'operators': 2462, 'stale_ops': 2256, 'vetoes': 543}

INT = list(range(-6, 7))


class Veto(ValueError):
    """From the test's own listener"""


def some(ctx, elem, bad=0.15):
    """One candidate element, sometimes an invalid one"""
    rng = ctx.rng
    if rng.random() < bad:
        val = elem.bad(rng)
        if elem.accepts(val) is False:
            return val
    for _ in range(30):
        val = elem.good(rng)
        if elem.accepts(val):
            return val
    raise S.Unspec


def list_op(ctx, elem, cur):
    rng = ctx.rng

    def e():
        if cur and rng.random() < 0.4:
            return rng.choice(list(cur))
        return some(ctx, elem)

    def seq():
        return rng.choice([list, tuple, iter_twice])(
            [e() for _ in range(rng.randint(0, 3))])
    i, j = rng.choice(INT), rng.choice(INT)
    step = rng.choice([None, None, 2, -1])
    one, many = e(), seq()
    rev = rng.random() < 0.5
    return rng.choice([
        ('append', lambda c: c.append(one)),
        ('extend', lambda c: c.extend(many)),
        ('insert', lambda c: c.insert(i, one)),
        ('pop', lambda c: c.pop()),
        ('pop at', lambda c: c.pop(i)),
        ('remove', lambda c: c.remove(one)),
        ('reverse', lambda c: c.reverse()),
        ('sort', lambda c: c.sort(key=repr, reverse=rev)),
        ('plain sort', lambda c: c.sort()),
        ('clear', lambda c: c.clear()),
        ('setitem', lambda c: operator.setitem(c, i, one)),
        ('setslice', lambda c: operator.setitem(c, slice(i, j), many)),
        ('setstep', lambda c: operator.setitem(c, slice(i, j, step), many)),
        ('delitem', lambda c: operator.delitem(c, i)),
        ('delslice', lambda c: operator.delitem(c, slice(i, j, step))),
    ])


class iter_twice(list):
    """An iterable that is not one of the builtin containers' own type"""


def list_inplace(ctx, elem, cur):
    rng = ctx.rng
    many = [some(ctx, elem) for _ in range(rng.randint(0, 3))]
    n = rng.choice([0, 1, 2, -1])
    return rng.choice([
        ('+=', operator.iadd, many), ('+=', operator.iadd, tuple(many)),
        ('*=', operator.imul, n), ('+= bad', operator.iadd, 5)])


def list_operator(ctx, elem, cur):
    rng = ctx.rng
    many = [some(ctx, elem) for _ in range(rng.randint(0, 3))]
    n = rng.choice([0, 1, 2, -1])
    i = rng.choice(INT)
    return rng.choice([
        ('+', lambda c: c + many), ('*', lambda c: c * n),
        ('r*', lambda c: n * c), ('copy', lambda c: c.copy()),
        ('+ bad', lambda c: c + 5), ('* bad', lambda c: c * 'a'),
        ('r+', lambda c: many + c), ('len', len), ('==', lambda c: c == many),
        ('slice', lambda c: c[i:]), ('count', lambda c: c.count(
            many[0] if many else 0)), ('item', lambda c: c[i]),
        ('in', lambda c: (many[0] if many else 0) in c),
        ('reversed', lambda c: list(reversed(c)))])


def set_op(ctx, elem, cur):
    rng = ctx.rng

    def e():
        if cur and rng.random() < 0.5:
            return rng.choice(sorted(cur, key=repr))
        return some(ctx, elem)

    def hashable(v):
        try:
            hash(v)
            return True
        except TypeError:
            return False
    one = e()
    many = [v for v in (e() for _ in range(rng.randint(0, 3)))
            if hashable(v)]
    many = rng.choice([set, list, tuple, frozenset])(many)
    return rng.choice([
        ('add', lambda c: c.add(one)), ('discard', lambda c: c.discard(one)),
        ('remove', lambda c: c.remove(one)), ('pop', lambda c: c.pop()),
        ('clear', lambda c: c.clear()), ('update', lambda c: c.update(many)),
        ('update two', lambda c: c.update(many, [one] if hashable(one)
                                          else [])),
        ('difference_update', lambda c: c.difference_update(many)),
        ('intersection_update', lambda c: c.intersection_update(many)),
        ('symmetric_difference_update',
         lambda c: c.symmetric_difference_update(many))])


def set_inplace(ctx, elem, cur):
    rng = ctx.rng
    many = set()
    for _ in range(rng.randint(0, 3)):
        val = rng.choice(sorted(cur, key=repr)) if cur and rng.random() < 0.5 \
            else some(ctx, elem)
        try:
            many.add(val)
        except TypeError:
            pass
    other = rng.choice([many, many, many, list(many)])
    return rng.choice([
        ('|=', operator.ior, other), ('&=', operator.iand, other),
        ('-=', operator.isub, other), ('^=', operator.ixor, other)])


def set_operator(ctx, elem, cur):
    _, _, many = set_inplace(ctx, elem, cur)
    pool = [('len', len), ('==', lambda c: c == many),
            ('copy', lambda c: c.copy()),
            ('isdisjoint', lambda c: c.isdisjoint(many)),
            ('<=', lambda c: c.issubset(many))]
    for name, fun in (('|', operator.or_), ('&', operator.and_),
                      ('-', operator.sub), ('^', operator.xor)):
        pool.append((name, lambda c, f=fun: f(c, many)))
        pool.append(('r' + name, lambda c, f=fun: f(many, c)))
    for name in ('union', 'intersection', 'difference',
                 'symmetric_difference'):
        pool.append((name, lambda c, n=name: getattr(c, n)(many)))
    return ctx.rng.choice(pool)


def dict_parts(ctx, spec, cur):
    rng = ctx.rng

    def k():
        if cur and rng.random() < 0.5:
            return rng.choice(list(cur))
        return some(ctx, spec.key, 0.1)
    key, val = k(), some(ctx, spec.val)
    pairs = []
    for _ in range(rng.randint(0, 3)):
        pairs.append((k(), some(ctx, spec.val)))
    ok = []
    for pair in pairs:
        try:
            hash(pair[0])
            ok.append(pair)
        except TypeError:
            pass
    return key, val, ok


def dict_op(ctx, spec, cur):
    key, val, pairs = dict_parts(ctx, spec, cur)
    return ctx.rng.choice([
        ('setitem', lambda c: operator.setitem(c, key, val)),
        ('setitem', lambda c: operator.setitem(c, key, val)),
        ('delitem', lambda c: operator.delitem(c, key)),
        ('pop', lambda c: c.pop(key)),
        ('pop default', lambda c: c.pop(key, 'gone')),
        ('popitem', lambda c: c.popitem()),
        ('setdefault', lambda c: c.setdefault(key, val)),
        ('update', lambda c: c.update(dict(pairs))),
        ('update pairs', lambda c: c.update(pairs)),
        ('update bad', lambda c: c.update([1, 2])),
        ('clear', lambda c: c.clear())])


def dict_inplace(ctx, spec, cur):
    _, _, pairs = dict_parts(ctx, spec, cur)
    return ctx.rng.choice([('|=', operator.ior, dict(pairs)),
                           ('|=', operator.ior, pairs),
                           ('|= bad', operator.ior, 5)])


def dict_operator(ctx, spec, cur):
    key, val, pairs = dict_parts(ctx, spec, cur)
    more = dict(pairs)
    return ctx.rng.choice([
        ('|', lambda c: c | more), ('r|', lambda c: more | c),
        ('| bad', lambda c: c | 5), ('copy', lambda c: c.copy()),
        ('get', lambda c: c.get(key, 'no')), ('len', len),
        ('items', lambda c: list(c.items())), ('in', lambda c: key in c),
        ('fromkeys', lambda c: c.fromkeys(list(more), val)),
        ('==', lambda c: c == more)])


OPS = {list: (list_op, list_inplace, list_operator),
       set: (set_op, set_inplace, set_operator),
       dict: (dict_op, dict_inplace, dict_operator)}


def attempt(fun, *args):
    try:
        return 'ok', fun(*args)
    except Exception as err:         # pylint: disable=broad-except
        return 'error', err


def plain(val):
    return canon(val, kinds=False)


def compatible(got, want):
    """Same results? Containers by contents and base type"""
    return plain(got) == plain(want)


def run_case(ctx):
    rng = ctx.rng
    if rng.random() < 0.15:
        namesakes(ctx)
    base = rng.choice([list, list, set, dict])
    elem = rng.choice([S.IntS, S.FloatS, S.StringS, S.BoolS, S.ChoiceS,
                       S.StillColorS, S.IntS])(rng)
    if base is dict:
        spec = S.DictS(rng, key=rng.choice([S.StringS, S.IntS, S.ChoiceS])(
            rng), val=elem, observe=True)
        opspec = spec
    else:
        spec = {list: S.ListS, set: S.SetS}[base](
            rng, elem=elem, observe=True, bounded=False)
        opspec = elem
    logs = {}

    def watcher(tag):
        def listen(inst, change):
            if change['mode'] == 'validate' and armed[0]:
                raise Veto('no')
            ctx.count('notifications')
            logs.setdefault(inst, []).append((
                tag, change['name'], change['mode'],
                canon(change['previous']), canon(change['value'])))
        return listen
    armed = [False]
    namespace = {
        'x': spec.build(required=False), 'y': spec.build(required=False),
        '_REGISTRY': {},
        'on_set': p.observer(['x', 'y'])(lambda s, c: watcher('set')(s, c)),
        'on_change': p.observer(['x', 'y'], change_only=True)(
            lambda s, c: watcher('change')(s, c)),
        'on_validate': p.validator(['x', 'y'])(
            lambda s, c: watcher('validate')(s, c)),
    }
    cls = type('Holder', (p.HasProperties,), namespace)
    obj, twin, other = cls(), cls(), cls()
    ctx.note('spec', spec)
    stale = []
    list_, inplace_, operator_ = OPS[base]

    def fresh(name):
        for _ in range(20):
            val = spec.good(rng)
            if spec.accepts(val):
                break
        else:
            raise S.Unspec
        if base_container(val) is base:
            val = rng.choice([type(val), type(val), {
                list: S.ListSub, set: S.SetSub, dict: S.DictSub}[base]])(val)
        setattr(obj, name, val)
        setattr(twin, name, val)
        setattr(other, name, val)

    def settle():
        ctx.check(canon(obj.x) == canon(twin.x) and
                  canon(obj.y) == canon(twin.y), 'contents differ from plain '
                  'assignment', obj.x, twin.x, obj.y, twin.y)
        ctx.check(logs.get(obj, []) == logs.get(twin, []),
                  'notifications differ from those of an assignment',
                  'operation: %r' % (logs.get(obj, []),),
                  'assignment: %r' % (logs.get(twin, []),))
        ctx.check(logs.get(other, []) == [], 'another instance was notified',
                  logs.get(other))
        ctx.check(canon(other.x) == otherx, 'another instance changed')
        logs.clear()
    try:
        fresh('x')
        fresh('y')
    except S.Unspec:
        ctx.count('no_good_value')
        return
    otherx = canon(other.x)
    logs.clear()
    for _ in range(rng.randint(10, 35)):
        name = rng.choice('xxy')
        cur = getattr(obj, name)
        roll = rng.random()
        if cur is None or roll < 0.04:
            if cur is not None:
                stale.append(cur)
            try:
                fresh(name)
            except S.Unspec:
                return
            ctx.note('replace', name, getattr(obj, name))
            otherx = canon(other.x)
            logs.pop(other, None)
            settle()
            continue
        if roll < 0.06:
            stale.append(cur)
            delattr(obj, name)
            delattr(twin, name)
            ctx.note('delete', name)
            settle()
            continue
        if roll < 0.08:
            # the same container on a second property is a separate one
            dst = 'y' if name == 'x' else 'x'
            setattr(obj, dst, cur)
            setattr(twin, dst, cur)
            ctx.check(getattr(obj, name) is cur, 'source container replaced')
            settle()
            continue
        mirror = base(cur)
        snap = canon(cur)
        try:
            if roll < 0.6:
                opname, fun = list_(ctx, opspec, cur)
                other_arg = None
            elif roll < 0.7:
                opname, fun, other_arg = inplace_(ctx, opspec, cur)
            elif roll < 0.85:
                opname, fun = operator_(ctx, opspec, cur)
            else:
                if not stale:
                    continue
                old = rng.choice(stale)
                opname, fun = list_(ctx, opspec, old)
                mirror = base(old)
                want = attempt(fun, mirror)
                if opname == 'pop' and base is set and want[0] == 'ok':
                    continue
                got = attempt(fun, old)
                ctx.note('stale', opname, got)
                ctx.count('stale_ops')
                ctx.check(got[0] == want[0] and (
                    type(got[1]) is type(want[1]) if got[0] == 'error'
                    else compatible(got[1], want[1])),
                    'stale container behaves unlike the builtin', opname,
                    got, want)
                ctx.check(plain(old) == plain(mirror), 'stale container '
                          'contents differ from the builtin', opname, old,
                          mirror)
                settle()
                continue
        except S.Unspec:
            continue
        ctx.nontrivial(base.__name__, opname, snap)
        if roll >= 0.7:
            ctx.count('operators')
            want = attempt(fun, mirror)
            got = attempt(fun, cur)
            ctx.note('operator', name, opname, got)
            ctx.check(got[0] == want[0] and (
                type(got[1]) is type(want[1]) if got[0] == 'error'
                else compatible(got[1], want[1])),
                'operator result differs from the builtin', opname, cur, got,
                want)
            ctx.check(getattr(obj, name) is cur and canon(cur) == snap,
                      'an operator changed the stored container', opname)
            if got[0] == 'ok' and base_container(got[1]) is base:
                stale.append(got[1])
                ctx.check(got[1] is not cur, 'operator returned the stored '
                          'container', opname)
            settle()
            continue
        veto = rng.random() < 0.07
        if roll < 0.6:
            ctx.count('mutations')
            want = attempt(fun, mirror)
            armed[0] = veto
            got = attempt(fun, cur)
            armed[0] = False
            if base is set and opname == 'pop' and got[0] == 'ok' and \
                    not veto:
                ctx.check(got[1] in cur, 'popped something else', got[1])
                mirror = base(cur)
                mirror.discard(got[1])
                want = got
        else:
            ctx.count('inplace')

            def on_attr():
                setattr(obj, name, fun(getattr(obj, name), other_arg))
            want = attempt(fun, mirror, other_arg)
            armed[0] = veto
            got = attempt(on_attr)
            armed[0] = False
            if want[0] == 'ok':
                mirror = want[1]
        ctx.note('mutate', name, opname, got, 'veto' if veto else '')
        if want[0] == 'error':
            ctx.count('builtin_errors')
            ctx.check(got[0] == 'error' and type(got[1]) is type(want[1]),
                      'error differs from the builtin', opname, snap, got,
                      want)
            ctx.check(getattr(obj, name) is cur and canon(cur) == snap,
                      'failed operation changed the value', opname, snap,
                      getattr(obj, name))
            settle()
            continue
        try:
            exp = spec.model(mirror)
        except S.Reject:
            exp = None
        except S.Unspec:
            ctx.count('unspecified')
            armed[0] = False
            setattr(twin, name, getattr(obj, name))
            logs.clear()
            continue
        if exp is None or veto:
            ctx.count('vetoes' if veto else 'invalid_rejected')
            ctx.check(got[0] == 'error' and isinstance(got[1], ValueError),
                      'an invalid or vetoed change went through', opname,
                      snap, got, getattr(obj, name))
            ctx.check(getattr(obj, name) is cur and canon(cur) == snap,
                      'a rejected change altered the stored value', opname,
                      snap, getattr(obj, name))
            # a failed attempt tells the validation listeners at most
            ctx.check(all(e[0] == 'validate' for e in logs.get(obj, [])),
                      'observers heard of a rejected change', logs)
            logs.clear()
            continue
        ctx.check(got[0] == 'ok', 'a valid operation failed', opname, snap,
                  got)
        if roll < 0.6:
            ctx.check(compatible(got[1], want[1]), 'result differs from the '
                      'builtin', opname, snap, got, want)
        now = getattr(obj, name)
        ctx.check(S.match(S.Cont(base, exp.items), _as(base, now)),
                  'contents differ from the builtin', opname, snap, now,
                  exp)
        ctx.check(container_kind(now) == container_kind(cur),
                  'the container class changed', opname, type(now))
        if now is not cur:
            stale.append(cur)
        setattr(twin, name, type(cur)(mirror))
        settle()
        stale = stale[-6:]


def namesake(base, rng):
    """A container class of its own, whose name others have too"""
    def kind(self):
        return mark
    mark = object()
    return type(rng.choice(['Box', base.__name__]), (base,),
                {'kind': kind, 'mark': mark}), mark


def namesakes(ctx):
    """Container classes of one name are different classes"""
    rng = ctx.rng
    base = rng.choice([list, set, dict])
    prop = {list: lambda: p.List('', p.Integer(''), observe_mutations=True),
            set: lambda: p.Set('', p.Integer(''), observe_mutations=True),
            dict: lambda: p.Dictionary('', observe_mutations=True)}[base]()
    cls = type('Holder', (p.HasProperties,), {'_REGISTRY': {}, 'x': prop})
    objs = [cls(), cls()]
    kinds = [namesake(base, rng) for _ in range(rng.randint(2, 4))]
    kinds.append((base, None))
    for _ in range(rng.randint(3, 6)):
        kind, mark = rng.choice(kinds)
        obj = rng.choice(objs)
        val = kind({1: 2} if base is dict else [1, 2])
        obj.x = val
        ctx.count('namesakes')
        ctx.check(isinstance(obj.x, kind) and obj.x is not val and
                  getattr(obj.x, 'mark', None) is mark and
                  (mark is None or obj.x.kind() is mark),
                  'the stored container is of another class', kind,
                  type(obj.x).__mro__)
        if base is list:
            obj.x.append(3)
        elif base is set:
            obj.x.add(3)
        else:
            obj.x[3] = 4
        ctx.check(3 in obj.x and type(obj.x) is not kind and
                  getattr(obj.x, 'mark', None) is mark,
                  'the mutated container is of another class', kind,
                  type(obj.x).__mro__)


def _as(base, val):
    return base(val)
