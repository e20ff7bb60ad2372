"""C11: copies are equal and independent; equality is structural"""
import numpy as np

import properties as p

from vlib import shapes, specs as S
from vlib.canon import canon, equiv, state, stored_names, walk

RULE = ('A case copies instances of nested class families, mutates every '
        'reachable mutable object of one side while watching the other, and '
        'compares pairs that are the same, differ in exactly one place '
        '(value, unset, class, tolerance) or contain themselves, in both '
        'directions. Non-trivial: by class structure, values and the '
        'difference made.')
CASES = {'quick': 1260, 'thorough': 12000}
FLOORS = {'array_limits_different': 880, 'array_limits_equal': 1585,
          'clusters_different': 1171, 'clusters_equal': 1336, 'copies': 1890,
          'declared_again': 463, 'different_pairs': 18853, 'equal_pairs':
          14029, 'invalid_originals': 57, 'mutations': 7462, 'not_instances':
          6744, 'other_class': 1124, 'self_containing': 630, 'tolerance': 93,
          'untyped_different': 1587, 'untyped_equal': 866, 'web_different':
          10650, 'web_equal': 1829}


def compare(ctx, one, two, want, why):
    before = canon(one, ids=True), canon(two, ids=True)
    for a, b in ((one, two), (two, one)):
        got = p.equal(a, b)
        ctx.check(got is want or (
            isinstance(got, (bool, np.bool_)) and bool(got) is want),
            'equality is wrong: expected %s for %s' % (want, why),
            got, state(a) if isinstance(a, p.HasProperties) else a,
            state(b) if isinstance(b, p.HasProperties) else b)
    ctx.check((canon(one, ids=True), canon(two, ids=True)) == before,
              'comparing changed an instance', before, one, two)
    ctx.count('equal_pairs' if want else 'different_pairs')


def is_plain(val):
    return not isinstance(val, (p.HasProperties, list, tuple, set, dict))


def mutate(ctx, rng, obj, by_cls):
    """Change one mutable object in place; False if it cannot be changed"""
    if isinstance(obj, np.ndarray):
        if obj.size == 0 or not obj.flags.writeable:
            return False
        flat = obj.reshape(-1)
        if not np.shares_memory(flat, obj):
            return False
        flat[0] = not flat[0] if obj.dtype.kind == 'b' else (
            5 if flat[0] != 5 else 6)
        return True
    if isinstance(obj, p.HasProperties):
        shape = by_cls.get(type(obj))
        if shape is None:
            return False
        field = rng.choice(shape.settable() or [None])
        if field is None:
            return False
        if getattr(obj, field.name) is not None and rng.random() < 0.5:
            setattr(obj, field.name, p.undefined)
        else:
            setattr(obj, field.name, field.spec.good(rng))
        return True
    # raw in-place mutation of the stored container, observed or not
    if isinstance(obj, list):
        list.append(obj, 'intruder') if not obj or rng.random() < 0.5 else \
            list.pop(obj)
    elif isinstance(obj, set):
        set.add(obj, 'intruder')
    elif isinstance(obj, dict):
        dict.__setitem__(obj, 'intruder', 1)
    else:
        return False
    return True


def copies(ctx, rng, shape, by_cls):
    obj = shape.instance(rng, prob=rng.choice([0.4, 0.9]))
    if any(isinstance(v, np.ndarray) and v.size == 0
           for v in walk(obj).values()):
        return
    before = canon(obj, ids=True)
    try:
        obj.validate()
        kwargs = rng.choice([{}, {}, {'include_class': True},
                             {'trusted': True}, {'option': 5}])
    except ValueError:
        kwargs = {}
        ctx.count('invalid_originals')
    cls = type(obj)
    again = rng.random() < 0.25 and not any(
        part is not obj and isinstance(part, cls)
        for part in walk(obj).values())
    if again:
        # the name is taken by another class meanwhile
        held = dict(cls._REGISTRY)
        type(cls.__name__, (rng.choice([p.HasProperties, cls]),),
             {'_REGISTRY': cls._REGISTRY})
        ctx.count('declared_again')
    try:
        new = p.copy(obj, **kwargs)
    finally:
        if again:
            cls._REGISTRY.clear()
            cls._REGISTRY.update(held)
    ctx.count('copies')
    ctx.nontrivial('copy', shape, canon(obj))
    ctx.note('copy of', state(obj))
    ctx.check(canon(obj, ids=True) == before, 'copying changed the original',
              before, state(obj))
    ctx.check(type(new) is type(obj) and new is not obj,
              'copy is not a new instance of the class', new)
    ctx.check(equiv(obj, new), 'copy differs', state(obj), state(new))
    compare(ctx, obj, new, True, 'a copy')
    ours, theirs = walk(obj), walk(new)
    shared = [v for k, v in ours.items() if k in theirs]
    ctx.check(not shared, 'copy shares an object with the original', shared)
    for _ in range(4):
        src, other, parts = (obj, new, ours) if rng.random() < 0.5 else (
            new, obj, theirs)
        snap = canon(other)
        part = rng.choice(list(parts.values()))
        try:
            done = mutate(ctx, rng, part, by_cls)
        except ValueError:
            continue
        if not done:
            continue
        ctx.count('mutations')
        ctx.note('mutate', part)
        ctx.check(canon(other) == snap,
                  'changing one of original and copy changed the other',
                  part, snap, state(other))


def pairs(ctx, rng, shape, others):
    kwargs = shape.good_kwargs(rng, full=True,
                               prob=rng.choice([0.4, 0.9]))
    kwargs.pop('const', None)
    one = shape.cls(**kwargs)
    two = shape.cls(**kwargs)
    compare(ctx, one, one, True, 'the same object')
    for key, field in shape.fields.items():
        if field.kind == 'uuid':
            # identifiers always differ, and so do the instances
            compare(ctx, one, two, False, 'different identifiers')
            return
    # defaults that are instances or callables are equal, not identical
    clear = canon(one, kinds=False) == canon(two, kinds=False)
    if not clear:
        return
    compare(ctx, one, two, True, 'the same keywords')
    for _ in range(4):
        if not shape.settable():
            break
        field = rng.choice(shape.settable())
        old = getattr(two, field.name)
        roll = rng.random()
        if roll < 0.25:
            setattr(two, field.name, p.undefined)
            want = old is None
            why = 'unset %s' % field.name
        elif isinstance(field.spec, S.FloatS) and isinstance(old, float) \
                and 1e-3 < abs(old) < 1e3 and roll < 0.8:
            delta, want = rng.choice([(1e-10, True), (1e-7, False)])
            try:
                setattr(two, field.name, old + delta)
            except ValueError:
                continue
            if getattr(two, field.name) != old + delta:
                continue
            ctx.count('tolerance')
            why = '%s differs by %g' % (field.name, delta)
        else:
            try:
                setattr(two, field.name, field.spec.good(rng))
            except ValueError:
                continue
            new = getattr(two, field.name)
            why = 'changed %s' % field.name
            if canon(new, kinds=False) == canon(old, kinds=False):
                want = True
            elif not equiv(old, new) and not equiv(new, old) and not (
                    # alternatives may compare True with 1.0
                    'UnionS' in repr(field.spec) and
                    "bool" in repr((canon(old), canon(new)))):
                want = False
            else:
                setattr(two, field.name, p.undefined if old is None else old)
                continue
        ctx.nontrivial('pair', shape, canon(one), why, canon(two))
        compare(ctx, one, two, want, why)
        setattr(two, field.name, p.undefined if old is None else old)
        compare(ctx, one, two, True, 'restored ' + field.name)
    # other classes, however alike
    sub = type(shape.cls.__name__, (shape.cls,), {'_REGISTRY': {}})
    three = sub(**kwargs)
    ctx.count('other_class')
    compare(ctx, one, three, False, 'a subclass with the same values')
    for thing in (None, 5, {}, kwargs, shape.cls, object()):
        ctx.count('not_instances')
        compare(ctx, one, thing, False, 'not an instance')
    for left, right in ((1, 1), ('a', 'b'), ([1], [1])):
        ctx.check(p.equal(left, right) == (left == right),
                  'plain values compare by ==', left, right)


def node_class(rng):
    namespace = {
        '_REGISTRY': {}, 'num': p.Integer('n', required=False),
        'child': p.Instance('any', p.HasProperties, required=False),
        'many': p.List('any', p.Instance('', p.HasProperties),
                       required=False),
        'table': p.Dictionary('any', key_prop=p.String(''),
                              value_prop=p.Instance('', p.HasProperties),
                              required=False),
        'either': p.Union('u', [p.Integer(''), p.HasProperties],
                          required=False)}
    return type('Node', (p.HasProperties,), namespace)


def put(rng, node, child):
    how = rng.choice(['child', 'many', 'table', 'either'])
    if how == 'many':
        node.many = (node.many or []) + [child]
    elif how == 'table':
        node.table = dict(node.table or {}, **{'k%d' % rng.randint(0, 3):
                                              child})
    else:
        setattr(node, how, child)


def cyclic(ctx, rng):
    """Two distinct instances that contain themselves are never equal"""
    cls = node_class(rng)
    ring = rng.randint(1, 3)

    def build(seed):
        import random
        r = random.Random(seed)
        nodes = [cls(num=i) for i in range(ring)]
        for i, node in enumerate(nodes):
            put(r, node, nodes[(i + 1) % ring])
        return nodes
    seed = rng.random()
    left, right = build(seed), build(seed)
    ctx.count('self_containing')
    ctx.nontrivial('cycle', ring, canon(left[0]))
    compare(ctx, left[0], right[0], False, 'distinct self-containing')
    compare(ctx, left[0], left[0], True, 'identical self-containing')
    if ring > 1:
        compare(ctx, left[0], left[1], False, 'nodes of one cycle')
    top_one, top_two = cls(num=9), cls(num=9)
    put(rng, top_one, left[0])
    compare(ctx, top_one, top_two, False, 'only one contains a cycle')
    # after cutting the cycles they are ordinary instances again
    for nodes in (left, right):
        for name in ('child', 'many', 'table', 'either'):
            setattr(nodes[-1], name, p.undefined)
    compare(ctx, left[0], right[0], True, 'cycles cut')
    # diamonds are not cycles
    leaf = cls(num=1)
    both = [cls(child=leaf, many=[leaf, leaf]) for _ in range(2)]
    compare(ctx, both[0], both[1], True, 'shared child')
    compare(ctx, both[0], cls(child=cls(num=1),
                              many=[cls(num=1), cls(num=1)]),
            True, 'equal children')


def alike(one, two, active=()):
    """Equality of nodes with the same numbers, as the property states"""
    if one is two:
        return True
    if one is None or two is None:
        return False
    if one in active or two in active:
        return False
    active = active + (one, two)
    if one.num != two.num or (one.many is None) != (two.many is None) or \
            len(one.many or []) != len(two.many or []):
        return False
    if (one.child is None) != (two.child is None):
        return False
    return (one.child is None or alike(one.child, two.child, active)) and all(
        alike(a, b, active) for a, b in zip(one.many or [], two.many or []))


def webs(ctx, rng):
    """Nodes that look the same and lead to one another"""
    cls = node_class(rng)
    nodes = [cls(num=1 if rng.random() < 0.95 else 2)
             for _ in range(rng.randint(2, 5))]
    lists = rng.random() < 0.3
    for node in nodes:
        if rng.random() < 0.85:
            node.child = rng.choice(nodes)
        if lists:
            node.many = [rng.choice(nodes) for _ in range(rng.randint(0, 2))]
    shape = [(nodes.index(n.child) if n.child else None, [
        nodes.index(m) for m in n.many or []]) for n in nodes]
    ctx.note('web', shape)
    ctx.nontrivial('web', shape, [n.num for n in nodes])
    for i, one in enumerate(nodes):
        for two in nodes[i + 1:]:
            want = alike(one, two)
            ctx.count('web_equal' if want else 'web_different')
            for a, b in ((one, two), (two, one)):
                got = p.equal(a, b)
                ctx.check(got is want, 'equality of nodes of a graph is '
                          'wrong', nodes.index(a), nodes.index(b), got)


def clusters(ctx, rng):
    """Containers of numbers that are equal within the tolerance"""
    elem = rng.choice([p.Float, p.Complex])
    form = rng.choice([p.Set, p.Set, p.List, p.Tuple, p.Dictionary])
    kw = {'observe_mutations': True} if form is not p.Tuple and \
        rng.random() < 0.4 else {}
    prop = form('many', key_prop=p.Integer(''), value_prop=elem(''), **kw) \
        if form is p.Dictionary else form('many', elem(''), **kw)
    cls = type('Many', (p.HasProperties,), {'_REGISTRY': {}, 'vals': prop})
    centres = [rng.choice([0.0, 1.0, -1.0, 0.5]) + i * 7
               for i in range(rng.randint(1, 3))]

    def draw(picks):
        vals = [centres[i] + rng.choice([0, 0, 1, 2, -1]) * 1e-10
                for i in picks]
        if elem is p.Complex:
            vals = [v + rng.choice([0, 1e-10]) * 1j for v in vals]
        return vals
    picks = [rng.randrange(len(centres)) for _ in range(rng.randint(0, 4))]
    other = list(picks)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        act = rng.choice(['add', 'drop', 'change'])
        if act == 'add':
            other.insert(rng.randint(0, len(other)),
                         rng.randrange(len(centres)))
        elif other and act == 'drop':
            other.pop(rng.randrange(len(other)))
        elif other:
            other[rng.randrange(len(other))] = rng.randrange(len(centres))
    one, two = draw(picks), draw(other)
    if form is p.Set:
        one, two = set(one), set(two)
        near = [[min(range(len(centres)), key=lambda i: abs(v - centres[i]))
                 for v in vals] for vals in (one, two)]
        want = sorted(near[0]) == sorted(near[1])
    elif form is p.Dictionary:
        one, two = dict(enumerate(one)), dict(enumerate(two))
        if rng.random() < 0.5:
            two = dict(reversed(list(two.items())))
        if two and rng.random() < 0.2:
            two[99] = two.pop(max(two))
        near = [{k: min(range(len(centres)), key=lambda i: abs(
            v - centres[i])) for k, v in vals.items()} for vals in (one, two)]
        want = near[0] == near[1]
    else:
        want = picks == other
        one, two = (one, two) if form is p.List else (tuple(one), tuple(two))
    ctx.count('clusters_equal' if want else 'clusters_different')
    ctx.nontrivial('clusters', form, elem, one, two)
    compare(ctx, cls(vals=one), cls(vals=two), want, 'equal within tolerance '
            'one by one' if want else 'different items')


def array_limits(ctx, rng):
    """Arrays that differ by about the tolerance: the order cannot matter"""
    kind = rng.choice([p.Array, p.Array, p.Vector2, p.Vector3,
                       p.Vector3Array])
    size = {p.Array: rng.randint(1, 4), p.Vector2: 2, p.Vector3: 3,
            p.Vector3Array: 3}[kind]
    cls = type('Row', (p.HasProperties,), {
        '_REGISTRY': {}, 'val': kind(''),
        'any': p.Union('', [kind(''), p.String('')], required=False),
        'many': p.List('', kind(''), required=False)})
    one = [rng.choice([0.0, 1.0, -1.0, 3e-9, 250.0, -0.25, 1e6, float('nan'),
                       float('inf')]) for _ in range(size)]
    scale = 10. ** rng.randint(-6, -3)
    two = list(one)
    for i in rng.sample(range(size), rng.randint(0, size)):
        two[i] = one[i] * (1 + rng.choice([1, -1]) * scale * rng.choice(
            [1, 1.00005, 1.000105, 1.0005, 1.001, .99999, 1.0002])) + \
            rng.choice([0, 0, 1e-9, -1e-9, 5e-10])
    if kind is p.Vector3Array:
        one, two = [one, [1, 2, 3]], [two, [1, 2, 3]]
    form = rng.choice(['val', 'any', 'many'])
    wrap = (lambda v: [v]) if form == 'many' else (lambda v: v)
    a, b = cls(**{form: wrap(one)}), cls(**{form: wrap(two)})
    ctx.nontrivial('array limits', kind, form, repr(one), repr(two))
    got = p.equal(a, b)
    ctx.check(isinstance(got, (bool, np.bool_)), 'equality is no truth value',
              got)
    ctx.count('array_limits_equal' if got else 'array_limits_different')
    ctx.check(bool(got) == bool(p.equal(b, a)), 'equality of arrays depends '
              'on their order', kind, form, one, two, got)
    ctx.check(p.equal(a, p.copy(a)) and p.equal(p.copy(a), a),
              'an array differs from its copy', one)


ROWS = [np.ones(1), np.ones(3), np.ones((1, 3)), np.ones((3, 1)),
        np.ones((3, 3)), np.zeros(3), np.array(1.), np.array(1), np.array([]),
        np.zeros((0, 3)), np.zeros((3, 0)), np.array([1, 1, 1]),
        np.array([1., 1., 2.]), np.array([True] * 3), np.array(['a', 'b']),
        np.array(['a', 'c']), np.array([[1., 1., 1.]] * 2)]
PLAIN = [0, 1, -1, 1.5, 'a', '', 'ab', (1, 2), (1, 3), [1, 2], [1, 2, 3], [],
         {'a': 1}, {'a': 2}, {}, {1, 2}, {1}, b'a', 2 + 3j, frozenset({1})]


def untyped(ctx, rng):
    """Values of an untyped property: arrays by shape and content, others
    by =="""
    cls = type('Any', (p.HasProperties,), {
        '_REGISTRY': {}, 'val': p.Property('anything', required=False),
        'vals': p.List('many', p.Property(''), required=False),
        'table': p.Dictionary('', value_prop=p.Property(''),
                              required=False)})
    if rng.random() < 0.6:
        one = rng.choice(ROWS).copy()
        two = rng.choice(ROWS).copy()
        if rng.random() < 0.3:
            two = one.copy()
        want = one.shape == two.shape and bool(np.all(one == two))
    else:
        one, two = rng.choice(PLAIN), rng.choice(PLAIN)
        if rng.random() < 0.3:
            two = one
        want = one == two
    form = rng.choice(['val', 'vals', 'table'])
    wrap = {'val': lambda v: v, 'vals': lambda v: [v, 'end'],
            'table': lambda v: {'k': v}}[form]
    ctx.nontrivial('untyped', form, repr(one), repr(two))
    ctx.count('untyped_equal' if want else 'untyped_different')
    compare(ctx, cls(**{form: wrap(one)}), cls(**{form: wrap(two)}), want,
            'untyped values %r and %r' % (one, two))
    compare(ctx, cls(**{form: wrap(one)}), cls(), False, 'set and unset')
    for thing in (None, 5, cls, {}, [cls()], object()):
        try:
            p.copy(thing)
        except ValueError:
            continue
        ctx.fail('copied something else than an instance', thing)


def run_case(ctx):
    rng = ctx.rng
    registry = {}
    family = shapes.family(rng, json=True, depth=rng.choice([1, 2]),
                           uuids=True, registry=registry)
    if rng.random() < 0.4:
        family[0].derive(rng, 'Sub0', registry, json=True)
    by_cls = {s.cls: s for sh in family for s in [sh] + sh.subs}
    for _ in range(3):
        copies(ctx, rng, rng.choice(family), by_cls)
    family = shapes.family(
        rng, depth=rng.choice([1, 2]), uuids=rng.random() < 0.2,
        spec_filter=lambda s: 'AnyS' not in repr(s))
    for _ in range(2):
        pairs(ctx, rng, rng.choice(family), family)
    cyclic(ctx, rng)
    for _ in range(4):
        untyped(ctx, rng)
        webs(ctx, rng)
        array_limits(ctx, rng)
        clusters(ctx, rng)
