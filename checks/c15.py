"""C15: self-referencing objects - termination and recovery"""
import random

import properties as p

from vlib.canon import equiv
from vlib.core import StepLimit, step_limit

RULE = ('A case builds a random graph of up to five instances joined through '
        'instance, list, tuple, set, dictionary and union properties, with '
        'cycles, sharing and broken nodes; runs validation, equality, '
        'serialization and copying under a bound on library steps; injects '
        'exceptions into user callbacks at chosen calls and requires the '
        'same objects to give the right answers afterwards. Non-trivial: a '
        'graph with a cycle or a fault that fired.')
CASES = {'quick': 450, 'thorough': 7000}
FLOORS = {'acyclic_graphs': 376, 'comparisons': 36022, 'copied': 4116,
          'cyclic_graphs': 285, 'equal': 12622, 'faults_fired': 1223, 'graphs':
          675, 'invalid': 1403, 'mutated_again': 338, 'self_reference': 2436,
          'serialized': 4116, 'unequal': 23359, 'valid': 5311, 'validations':
          6726}
STEPS = step_limit(4000000)     # of one operation


class Boom(RuntimeError):
    pass


class Halt(BaseException):
    pass


class Fault(object):
    """Raises at the n-th call of one site"""

    def __init__(self):
        self.site, self.left, self.make, self.fired = None, 0, None, 0

    def arm(self, site, left, make):
        self.site, self.left, self.make, self.fired = site, left, make, 0

    def clear(self):
        self.site = None

    def hit(self, site):
        if self.site == site:
            if self.left == 0:
                self.fired += 1
                self.site = None
                raise self.make()
            self.left -= 1


FAULT = Fault()
SITES = ['validator', 'listener', 'serializer', 'deserializer', 'validate',
         'equal', 'getter', 'hook', 'observer']
SLOTS = ['child', 'many', 'pair', 'table', 'either', 'bag', 'watched', 'deep']


class Num(p.Integer):
    def validate(self, instance, value):
        FAULT.hit('validate')
        return super(Num, self).validate(instance, value)

    def equal(self, value_a, value_b):
        FAULT.hit('equal')
        return super(Num, self).equal(value_a, value_b)


def out(value, **kwargs):
    FAULT.hit('serializer')
    return value


def back(value, **kwargs):
    FAULT.hit('deserializer')
    return value


class Base(p.HasProperties):
    _REGISTRY = {}


class Node(Base):
    num = Num('number', serializer=out, deserializer=back)
    child = p.Instance('one', Base, required=False)
    many = p.List('list', p.Instance('', Base), required=False)
    pair = p.Tuple('tuple', p.Instance('', Base), required=False)
    table = p.Dictionary('dict', key_prop=p.String(''), value_prop=p.Instance(
        '', Base), required=False)
    either = p.Union('union', [p.Integer(''), Base],
                     required=False)
    bag = p.Set('set', p.Instance('', Base), required=False)
    watched = p.List('watched', Base, required=False,
                     observe_mutations=True)
    deep = p.Dictionary('deep', value_prop=p.List('', p.Union('', [
        p.Integer(''), Base])), key_prop=p.String(''),
        required=False)
    bad = p.Boolean('makes this node invalid', required=False)

    @p.Integer('computed')
    def twice(self):
        FAULT.hit('getter')
        return 2 * self.num if self.num is not None else None

    @p.validator
    def fine(self):
        FAULT.hit('validator')
        return not self.bad

    @p.validator('num')
    def listen(self, change):
        FAULT.hit('listener')

    @p.observer(p.everything)
    def watch(self, change):
        FAULT.hit('observer')

    def _error_hook(self, error_tuples):
        FAULT.hit('hook')


class Other(Node):
    pass


def children(node):
    res = []
    if node.child is not None:
        res.append(node.child)
    res += list(node.many or [])
    res += list(node.pair or [])
    res += [v for _, v in sorted((node.table or {}).items())]
    if isinstance(node.either, p.HasProperties):
        res.append(node.either)
    res += list(node.bag or [])
    res += list(node.watched or [])
    for _, val in sorted((node.deep or {}).items()):
        res += [v for v in val if isinstance(v, p.HasProperties)]
    return res


def link(rng, node, child, slot=None):
    slot = slot or rng.choice(SLOTS)
    key = 'k%d' % rng.randint(0, 2)
    if slot in ('child', 'either'):
        setattr(node, slot, child)
    elif slot in ('many', 'watched'):
        if slot == 'watched' and node.watched is not None:
            node.watched.append(child)
        else:
            setattr(node, slot, (getattr(node, slot) or []) + [child])
    elif slot == 'pair':
        node.pair = (node.pair or ()) + (child,)
    elif slot == 'bag':
        node.bag = set(node.bag or ()) | {child}
    elif slot == 'table':
        node.table = dict(node.table or {}, **{key: child})
    else:
        node.deep = dict(node.deep or {}, **{key: rng.choice([
            [child], [1, child], [child, 5]])})
    return slot


def reachable(node):
    seen, todo = {}, [node]
    while todo:
        cur = todo.pop()
        if id(cur) not in seen:
            seen[id(cur)] = cur
            todo += children(cur)
    return seen


def has_cycle(node, stack=(), done=None):
    done = set() if done is None else done
    if id(node) in stack:
        return True
    if id(node) in done:
        return False
    if any(has_cycle(c, stack + (id(node),), done) for c in children(node)):
        return True
    done.add(id(node))
    return False


def slots_equal(one, two, eq):
    if one.num != two.num or one.bad != two.bad:
        return False
    for name in SLOTS:
        a, b = getattr(one, name), getattr(two, name)
        if (a is None) != (b is None):
            return False
        if a is None:
            continue
        if name in ('child', 'either'):
            pairs = [(a, b)]
        elif name in ('many', 'pair', 'watched'):
            if len(a) != len(b):
                return False
            pairs = list(zip(a, b))
        elif name == 'table':
            if sorted(a) != sorted(b):
                return False
            pairs = [(a[k], b[k]) for k in a]
        elif name == 'deep':
            if sorted(a) != sorted(b) or any(
                    len(a[k]) != len(b[k]) for k in a):
                return False
            pairs = [(x, y) for k in a for x, y in zip(a[k], b[k])]
        else:
            if len(a) != len(b):
                return False
            rest = list(b)
            for x in a:
                for y in rest:
                    if eq(x, y):
                        rest.remove(y)
                        break
                else:
                    return False
            continue
        for x, y in pairs:
            if isinstance(x, int) or isinstance(y, int):
                if x is not y and x != y:
                    return False
            elif not eq(x, y):
                return False
    return True


def equal_strict(one, two, pairs=()):
    """Refuses only the same pair met again"""
    if one is two:
        return True
    if type(one) is not type(two):
        return False
    pair = frozenset((id(one), id(two)))
    if pair in pairs:
        return False
    return slots_equal(one, two, lambda a, b: equal_strict(
        a, b, pairs + (pair,)))


def equal_loose(one, two, stack=()):
    """Refuses an instance met again against another"""
    if one is two:
        return True
    if type(one) is not type(two):
        return False
    if id(one) in stack or id(two) in stack:
        return False
    return slots_equal(one, two, lambda a, b: equal_loose(
        a, b, stack + (id(one), id(two))))


def plain(node):
    """What an acyclic graph serializes to, sets as sorted text"""
    res = {'__class__': type(node).__name__}
    if node.num is not None:
        res['num'] = node.num
    if node.bad is not None:
        res['bad'] = node.bad
    for name in SLOTS:
        val = getattr(node, name)
        if val is None:
            continue
        if name in ('child', 'either'):
            res[name] = val if isinstance(val, int) else plain(val)
        elif name == 'table':
            res[name] = {k: plain(v) for k, v in val.items()}
        elif name == 'deep':
            res[name] = {k: [x if isinstance(x, int) else plain(x)
                             for x in v] for k, v in val.items()}
        elif name == 'bag':
            res[name] = sorted(repr(norm(plain(v))) for v in val)
        else:
            res[name] = [plain(v) for v in val]
    return res


def norm(data, key=None):
    """Order-free form of serialized data"""
    if isinstance(data, dict):
        return sorted((k, norm(v, k)) for k, v in data.items())
    if isinstance(data, list):
        if key == 'bag':
            return sorted(v if isinstance(v, str) else repr(norm(v))
                          for v in data)
        return [norm(v) for v in data]
    return data


class Graph(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.nodes = []
        size = rng.randint(1, 5)
        for _ in range(size):
            cls = Other if rng.random() < 0.15 else Node
            node = cls(num=rng.randint(0, 1))
            if rng.random() < 0.08:
                node.bad = True
            elif rng.random() < 0.06:
                node.num = p.undefined
            self.nodes.append(node)
        if rng.random() < 0.35:
            edges = [(i, j) for i in range(size) for j in range(i + 1, size)]
        else:
            edges = [(i, j) for i in range(size) for j in range(size)]
        rng.shuffle(edges)
        self.edges = []
        for i, j in edges[:rng.randint(0, size + 2)]:
            slot = link(rng, self.nodes[i], self.nodes[j])
            self.edges.append((i, slot, j))
        ctx.note('graph', [(type(n).__name__, n.num, n.bad)
                           for n in self.nodes], self.edges)

    def twin(self, flip):
        """A second graph of the same structure, perhaps with a difference"""
        rng = self.rng
        nodes = [type(n)(num=n.num) if n.num is not None else type(n)()
                 for n in self.nodes]
        for old, new in zip(self.nodes, nodes):
            if old.bad is not None:
                new.bad = old.bad
        where = {id(n): i for i, n in enumerate(self.nodes)}

        def move(val):
            if not isinstance(val, p.HasProperties):
                return val
            if flip and rng.random() < 0.15:
                return val            # shared with the first graph
            return nodes[where[id(val)]]
        for old, new in zip(self.nodes, nodes):
            for name in SLOTS:
                val = getattr(old, name)
                if val is None:
                    continue
                if name in ('child', 'either'):
                    setattr(new, name, move(val))
                elif name == 'table':
                    new.table = {k: move(v) for k, v in val.items()}
                elif name == 'deep':
                    new.deep = {k: [move(x) for x in v]
                                for k, v in val.items()}
                else:
                    setattr(new, name, type(val)(move(v) for v in val)
                            if name != 'watched' else
                            [move(v) for v in val])
        if flip and rng.random() < 0.4:
            rng.choice(nodes).num = rng.randint(0, 2)
        return nodes


def bounded(ctx, what, func):
    STEPS.steps = 0
    try:
        return func()
    except StepLimit:
        ctx.fail('%s does not terminate' % what)
    except RecursionError:
        ctx.fail('%s recurses without bound' % what)


def outcome(func):
    try:
        return True, func()
    except Exception as err:       # pylint: disable=broad-except
        return False, err


def check_validate(ctx, node):
    want = not any(n.bad or n.num is None for n in reachable(node).values())
    ok, res = bounded(ctx, 'validate', lambda: outcome(node.validate))
    ctx.count('validations')
    ctx.count('valid' if want else 'invalid')
    if want:
        ctx.check(ok and res is True, 'a valid graph does not validate', res)
    else:
        ctx.check(not ok and isinstance(res, p.ValidationError),
                  'an invalid graph validates', res)


def check_serialize(ctx, node):
    cyclic = has_cycle(node)
    ok, res = bounded(ctx, 'serialize', lambda: outcome(node.serialize))
    if cyclic:
        ctx.count('self_reference')
        ctx.check(not ok and isinstance(res, p.SelfReferenceError),
                  'serializing a self-containing instance did not raise '
                  'SelfReferenceError', res)
        ok, res = bounded(ctx, 'copy', lambda: outcome(lambda: p.copy(node)))
        ctx.check(not ok and isinstance(res, p.SelfReferenceError),
                  'copying a self-containing instance did not raise '
                  'SelfReferenceError', res)
        return
    ctx.count('serialized')
    ctx.check(ok, 'an acyclic instance was not serialized', res)
    ctx.check(norm(res) == norm(plain(node)), 'wrong serialization',
              norm(res), norm(plain(node)))
    ok, res = bounded(ctx, 'copy', lambda: outcome(lambda: p.copy(node)))
    ctx.count('copied')
    ctx.check(ok, 'an acyclic instance was not copied', res)
    ctx.check(equal_loose(node, res) and type(res) is type(node),
              'the copy differs', plain(node), plain(res))


def check_equal(ctx, one, two):
    ok, left = bounded(ctx, 'equal', lambda: outcome(
        lambda: p.equal(one, two)))
    ok2, right = bounded(ctx, 'equal', lambda: outcome(
        lambda: p.equal(two, one)))
    ctx.count('comparisons')
    ctx.check(ok and ok2 and isinstance(left, bool) and
              isinstance(right, bool), 'equality gave no answer', left, right)
    ctx.check(left == right, 'equality is not symmetric', left, right,
              one, two)
    want = equal_strict(one, two)
    if want == equal_loose(one, two):
        ctx.count('equal' if want else 'unequal')
        ctx.check(left == want, 'wrong equality', want, left)
    else:
        ctx.count('open_comparisons')


def check_all(ctx, nodes, others):
    for node in nodes:
        check_validate(ctx, node)
        check_serialize(ctx, node)
        check_equal(ctx, node, node)
        for other in nodes + others:
            check_equal(ctx, node, other)


def graph_size(nodes):
    return [len(children(n)) for n in nodes]


def faulty(ctx, rng, nodes, others):
    """One operation with a fault somewhere inside"""
    node = rng.choice(nodes)
    site = rng.choice(SITES)
    make = rng.choice([
        Boom, Halt, lambda: ValueError('v'), lambda: KeyError('k'),
        lambda: TypeError('t'), lambda: AttributeError('a'),
        lambda: p.ValidationError('e', 'invalid', 'num', node), Boom])
    FAULT.arm(site, rng.choice([0, 0, 0, 1, 2, 4]), make)
    name, func = rng.choice({
        'validator': [('validate', node.validate)],
        'listener': [('validate', node.validate), (
            'set', lambda: setattr(node, 'num', 1))],
        'serializer': [('serialize', node.serialize),
                       ('copy', lambda: p.copy(node))],
        'deserializer': [('copy', lambda: p.copy(node))],
        'validate': [('validate', node.validate), (
            'set', lambda: setattr(node, 'num', 0))],
        'equal': [('equal', lambda: p.equal(node, rng.choice(others))),
                  ('validate', node.validate)],
        'getter': [('equal', lambda: p.equal(node, rng.choice(others)))],
        'hook': [('validate', node.validate), (
            'set', lambda: setattr(node, 'num', 'text'))],
        'observer': [('set', lambda: link(rng, node, rng.choice(nodes)))],
    }[site])
    err = None
    try:
        bounded(ctx, name, func)
    except Exception as exc:       # pylint: disable=broad-except
        err = exc
    except Halt as exc:
        err = exc
    fired = FAULT.fired
    FAULT.clear()
    if fired:
        ctx.count('faults_fired')
        ctx.nontrivial('fault', site, name, repr(err), graph_size(nodes))
        ctx.note('fault', site, name, repr(err))
        if make in (Boom, Halt):
            ctx.check(isinstance(err, make), 'an error raised by a callback '
                      'was lost', site, name, err)


def run_case(ctx):
    with STEPS:
        graphs(ctx, ctx.rng)


def graphs(ctx, rng):
    for _ in range(3):
        FAULT.clear()
        graph = Graph(ctx, rng)
        nodes = graph.nodes
        twins = graph.twin(rng.random() < 0.6)
        ctx.count('graphs')
        if any(has_cycle(n) for n in nodes):
            ctx.count('cyclic_graphs')
            ctx.nontrivial('cycle', graph.edges, [n.num for n in nodes])
        else:
            ctx.count('acyclic_graphs')
        check_all(ctx, nodes, twins)
        for _ in range(4):
            faulty(ctx, rng, nodes, twins)
            node = rng.choice(nodes)
            check_validate(ctx, node)
            check_serialize(ctx, node)
            check_equal(ctx, node, rng.choice(twins))
        if rng.random() < 0.5:
            # cut or add edges: the same objects answer for the new graph
            ctx.count('mutated_again')
            for _ in range(rng.randint(1, 3)):
                node = rng.choice(nodes)
                slot = rng.choice(SLOTS)
                if rng.random() < 0.6:
                    setattr(node, slot, p.undefined)
                else:
                    link(rng, node, rng.choice(nodes), slot)
        check_all(ctx, nodes, twins)
