"""C20: identifiers: graphs round-trip and identifiers stay unique"""
import copy as pycopy
import json
import random

import properties as p
from properties.extras import HasUID, Pointer

RULE = ('A case builds random object graphs (sharing, cycles, containers, '
        'plain nodes between, pointers) over several generated classes with '
        'their own registry, serializes from random roots with random '
        'options, compares with a model, and rebuilds them (registry empty, '
        'or with some nodes alive); then runs histories of creating, '
        'renaming, refusing and deserializing identifiers against a '
        'registry model, and pointer assignments against an acceptance '
        'model. Non-trivial: a serialized graph of more than one node, a '
        'refused identifier or a pointer decision, by shape and values.')
CASES = {'quick': 780, 'thorough': 9000}
FLOORS = {'created': 1852, 'cyclic': 733, 'default_uids': 584, 'deserialized':
          913, 'entries': 2636, 'kept_alive': 179, 'linked_live': 362,
          'missing_entries': 76, 'multi_node': 613, 'odd_accepted': 393,
          'odd_refused': 363, 'other_root': 144, 'pointer_accepted': 1527,
          'pointer_data': 313, 'pointer_loaded': 1286, 'pointer_refused': 2120,
          'pointers': 1069, 'rebuilt': 1618, 'rebuilt_graphs': 627,
          'refused_data': 1381, 'renamed': 863, 'strict_refusals': 121,
          'taken': 901, 'validated_graphs': 360, 'vetoed': 115, 'wrong_types':
          679}


def base(rng):
    ns = {'_REGISTRY': {}, '_INSTANCES': {},
          'name': p.String('', required=False)}
    if rng.random() < 0.2:
        ns['uid'] = p.String('', default=HasUID._props['uid'].default,
                             change_case='upper')
    return type('Base', (HasUID,), ns)


NODE_KINDS = ('one', 'many', 'tup', 'by', 'group', 'union', 'deep', 'plain',
              'ptr', 'ptrs')


def classes(rng):
    """Several classes, each with a few referring properties"""
    top = base(rng)
    plain_cls = type('Plain', (p.HasProperties,), {
        '_REGISTRY': {}, 'to': p.Instance('', top, required=False),
        'num': p.Integer('', required=False)})
    out, made = [], [top]
    for i in range(rng.randint(1, 4)):
        parent = rng.choice(made)
        ns, kinds = {}, {}
        kinds.update(getattr(parent, 'KINDS', {}))
        for j in range(rng.randint(1, 4)):
            kind = rng.choice(NODE_KINDS)
            name = 'p%d%d' % (i, j)
            to = top if rng.random() < 0.5 else rng.choice(made)
            inst = p.Instance('', to, required=False)
            if kind == 'one':
                prop = inst
            elif kind == 'many':
                prop = p.List('', inst, required=False, default=list)
            elif kind == 'tup':
                prop = p.Tuple('', inst, required=False)
            elif kind == 'by':
                prop = p.Dictionary('', key_prop=p.String(''),
                                    value_prop=inst, required=False)
            elif kind == 'group':
                prop = p.Set('', inst, required=False)
            elif kind == 'union':
                prop = p.Union('', [p.Integer(''), inst], required=False)
            elif kind == 'deep':
                prop = p.List('', p.List('', inst), required=False)
            elif kind == 'plain':
                prop = p.Instance('', plain_cls, required=False)
            elif kind == 'ptr':
                prop = Pointer('', to, required=False,
                               load=rng.random() < 0.3)
            else:
                prop = p.List('', Pointer('', to), required=False)
            if kind == 'plain':
                to = top
            ns[name] = prop
            kinds[name] = (kind, to)
        ns['KINDS'] = kinds
        if rng.random() < 0.3:
            ns['count'] = p.Integer('', default=rng.randint(0, 9))
        if rng.random() < 0.3:
            ns['const'] = p.GettableProperty('', default=5)
        made.append(type('Node%d' % i, (parent,), ns))
        out.append(made[-1])
    return top, plain_cls, made


class Graph(object):
    """Nodes built together with a model of their references"""

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.top, self.plain_cls, self.made = classes(rng)
        self.nodes = []
        upper = getattr(self.top._props['uid'], 'change_case', '') == 'upper'
        for i in range(rng.choice([2, 3, 4, 5, 8])):
            kw = {}
            if rng.random() < 0.7:
                kw['uid'] = ('N%d' if upper else 'n%d') % i
            if rng.random() < 0.4:
                kw['name'] = 'name %d' % i
            pool = self.made[1:] if rng.random() < 0.9 else self.made
            self.nodes.append(rng.choice(pool)(**kw))
        self.refs = {}
        for node in self.nodes:
            self.fill(node)

    def target(self, to):
        pool = [n for n in self.nodes if isinstance(n, to)]
        return self.rng.choice(pool) if pool else None

    def targets(self, to, least=0):
        pool = [n for n in self.nodes if isinstance(n, to)]
        if not pool:
            return []
        return [self.rng.choice(pool)
                for _ in range(self.rng.randint(least, 3))]

    def fill(self, node):
        rng = self.rng
        model = self.refs[id(node)] = {}
        for name, (kind, to) in getattr(node, 'KINDS', {}).items():
            if rng.random() < 0.15:
                continue
            if kind == 'one':
                val = self.target(to)
                raw = val
            elif kind == 'many':
                val = self.targets(to)
                raw = list(val)
            elif kind == 'tup':
                val = tuple(self.targets(to))
                raw = val
            elif kind == 'by':
                val = {'k%d' % i: n for i, n in enumerate(self.targets(to))}
                raw = dict(val)
            elif kind == 'group':
                val = set(self.targets(to))
                raw = set(val)
            elif kind == 'union':
                val = rng.choice([7, self.target(to)])
                raw = val
            elif kind == 'deep':
                val = [self.targets(to) for _ in range(rng.randint(0, 2))]
                raw = [list(v) for v in val]
            elif kind == 'plain':
                goal = self.target(to)
                kw = {} if goal is None else {'to': goal}
                if rng.random() < 0.5:
                    kw['num'] = rng.randint(0, 5)
                val = raw = self.plain_cls(**kw)
            elif kind == 'ptr':
                val = self.target(to)
                if val is not None and rng.random() < 0.3 and not \
                        node._props[name].load:
                    val = val.uid
                raw = val
            else:
                val = self.targets(to)
                val = [v.uid if rng.random() < 0.3 else v for v in val]
                raw = list(val)
            if val is None:
                continue
            setattr(node, name, raw)
            model[name] = val

    def edges(self, node):
        """Instances the node refers to, with those behind plain nodes"""
        out = []

        def walk(val):
            if isinstance(val, HasUID):
                out.append(val)
            elif isinstance(val, self.plain_cls):
                walk(val.to)
            elif isinstance(val, dict):
                for item in val.values():
                    walk(item)
            elif isinstance(val, (list, tuple, set)):
                for item in val:
                    walk(item)
        for val in self.refs[id(node)].values():
            walk(val)
        return out

    def reach(self, root, pointers=True):
        seen, todo = {}, [root]
        while todo:
            node = todo.pop()
            if id(node) in seen:
                continue
            seen[id(node)] = node
            if pointers:
                todo += self.edges(node)
            else:
                todo += self.strong(node)
        return list(seen.values())

    def strong(self, node):
        keep = self.refs[id(node)]
        kinds = getattr(node, 'KINDS', {})
        weak = {k for k in keep if kinds[k][0] in ('ptr', 'ptrs')}
        self.refs[id(node)] = {k: v for k, v in keep.items()
                               if k not in weak}
        try:
            return self.edges(node)
        finally:
            self.refs[id(node)] = keep

    # ---- what each entry must be

    def flat(self, val, include_class):
        if isinstance(val, HasUID):
            return val.uid
        if isinstance(val, self.plain_cls):
            out = {'__class__': 'Plain'} if include_class else {}
            if val.to is not None:
                out['to'] = val.to.uid
            if val.num is not None:
                out['num'] = val.num
            return out
        if isinstance(val, dict):
            return {k: self.flat(v, include_class) for k, v in val.items()}
        if isinstance(val, set):
            return {'set': sorted(self.flat(v, include_class) for v in val)}
        if isinstance(val, (list, tuple)):
            return [self.flat(v, include_class) for v in val]
        return val

    def entry(self, node, include_class):
        out = {'uid': node.uid}
        if include_class:
            out['__class__'] = type(node).__name__
        for name in ('name', 'count', 'const'):
            val = getattr(node, name, None)
            if val is not None:
                out[name] = val
        kinds = getattr(node, 'KINDS', {})
        for name, (kind, _) in kinds.items():
            if kind == 'many':
                out[name] = []
        for name, val in self.refs[id(node)].items():
            out[name] = self.flat(val, include_class)
        return out

    def expected(self, root, include_class):
        out = {'__root__': root.uid}
        for node in self.reach(root):
            out[node.uid] = self.entry(node, include_class)
        return out

    def tidy(self, data):
        """Serialized sets are lists in any order"""
        out = dict(data)
        for node in self.nodes:
            sets = [k for k, v in self.refs[id(node)].items()
                    if isinstance(v, set)]
            if isinstance(out.get(node.uid), dict) and sets:
                out[node.uid] = dict(out[node.uid])
                for key in sets:
                    if isinstance(out[node.uid].get(key), list):
                        out[node.uid][key] = {
                            'set': sorted(out[node.uid][key])}
        return out


def same_graph(ctx, graph, root, result, alive=()):
    """The rebuilt graph is isomorphic to the original one"""
    pairs, back = {}, {}
    todo = [(root, result, 'root')]
    while todo:
        old, new, where = todo.pop()
        if old in alive:
            ctx.check(old is new, 'a living instance was not reused', where)
            continue
        if id(old) in pairs:
            ctx.check(pairs[id(old)] is new, 'sharing was lost at', where)
            continue
        ctx.check(id(new) not in back, 'two instances became one', where)
        ctx.check(type(new) is type(old), 'a rebuilt instance has another '
                  'class', type(new), type(old), where)
        ctx.check(new is not old, 'deserializing gave the original')
        pairs[id(old)] = new
        back[id(new)] = old
        ctx.check(new.uid == old.uid, 'an identifier changed', old.uid,
                  new.uid)
        ctx.check(type(new).load(old.uid) is new,
                  'an instance is not found by its identifier', old.uid)
        ctx.count('rebuilt')
        for name in ('name', 'count', 'const'):
            ctx.check(getattr(new, name, None) == getattr(old, name, None),
                      'a value changed', name)
        for name, (kind, _) in getattr(old, 'KINDS', {}).items():
            want, got = getattr(old, name), getattr(new, name)
            compare(ctx, kind, want, got, todo, (where, name))
    return pairs


def compare(ctx, kind, want, got, todo, where):
    if want is None:
        ctx.check(got is None, 'an unset property came back set', where, got)
        return
    if kind in ('ptr', 'ptrs'):
        wants = want if kind == 'ptrs' else [want]
        gots = got if kind == 'ptrs' else [got]
        ctx.check(len(wants) == len(gots), 'a pointer was lost', where)
        for one, two in zip(wants, gots):
            one = one.uid if isinstance(one, HasUID) else one
            two = two.uid if isinstance(two, HasUID) else two
            ctx.check(one == two, 'a pointer leads elsewhere', one, two)
            ctx.count('pointers')
        return
    if isinstance(want, HasUID):
        ctx.check(isinstance(got, HasUID), 'a reference was not rebuilt',
                  where, got)
        todo.append((want, got, where))
    elif isinstance(want, p.HasProperties):
        ctx.check(type(want) is type(got) and want.num == got.num,
                  'a plain instance was not rebuilt', where, got)
        compare(ctx, 'one', want.to, got.to, todo, (where, 'to'))
    elif isinstance(want, dict):
        ctx.check(set(want) == set(got), 'dictionary keys changed', where)
        for key in want:
            compare(ctx, kind, want[key], got[key], todo, (where, key))
    elif isinstance(want, (set, frozenset)):
        ctx.check(len(want) == len(got) and
                  {v.uid for v in want} == {v.uid for v in got},
                  'a set changed', where)
        for one in want:
            two = [v for v in got if v.uid == one.uid]
            compare(ctx, kind, one, two[0], todo, where)
    elif isinstance(want, (list, tuple)):
        ctx.check(isinstance(got, type(want)) and len(got) == len(want),
                  'a list changed', where)
        for i, (one, two) in enumerate(zip(want, got)):
            compare(ctx, kind, one, two, todo, (where, i))
    else:
        ctx.check(want == got, 'a value changed', where, want, got)


def graphs(ctx, rng):
    graph = Graph(ctx, rng)
    root = rng.choice(graph.nodes)
    include = rng.random() < 0.8
    kw = {} if include and rng.random() < 0.5 else {'include_class': include}
    live = dict(graph.top._INSTANCES)
    for node in graph.nodes:
        ctx.check(graph.top.load(node.uid) is node, 'a new instance is not '
                  'registered')
    data = root.serialize(**kw)
    want = graph.expected(root, include)
    size = len(want) - 1
    ctx.note('graph', sorted(want), root.uid)
    ctx.check(graph.tidy(data) == graph.tidy({
        k: v for k, v in want.items()}), 'wrong serialized graph', data,
              want)
    json.dumps(data)
    ctx.count('entries', size)
    if size > 1:
        ctx.count('multi_node')
        ctx.nontrivial('graph', sorted(
            (type(n).__name__, sorted(graph.refs[id(n)]),
             len(graph.edges(n))) for n in graph.nodes), include)
    if any(n in graph.reach(n) and any(
            n in graph.reach(m) for m in graph.edges(n))
           for n in graph.nodes):
        ctx.count('cyclic')
    again = root.serialize(**kw)
    ctx.check(graph.tidy(again) == graph.tidy(data), 'serializing twice '
              'differs')
    ctx.check(graph.top._INSTANCES == live, 'serializing changed the '
              'registry')
    given = {}
    ctx.check(root.serialize(registry=given, **kw) is given and
              graph.tidy(given) == graph.tidy(data),
              'a given registry was not filled')
    if not include:
        return
    text = json.dumps(data)
    # alive: used identifiers are refused, nothing changes
    before = snapshot(graph)
    try:
        graph.top.deserialize(pycopy.deepcopy(data), trusted=True)
    except ValueError:
        ctx.count('refused_data')
    else:
        ctx.fail('data with identifiers in use was deserialized')
    check_unchanged(ctx, graph, before, live)
    # into an empty registry, or with some nodes alive that data leaves out
    data = json.loads(text)
    kept = []
    start = root
    options = {}
    if rng.random() < 0.3 and size > 1:
        start = rng.choice(graph.reach(root, pointers=False))
        options['root'] = start.uid
        ctx.count('other_root')
    strong = graph.reach(start, pointers=False)
    if rng.random() < 0.3 and len(strong) > 1:
        kept = [n for n in strong if n is not start and rng.random() < 0.5]
        for node in kept:
            del data[node.uid]
        ctx.count('kept_alive', len(kept))
    graph.top._INSTANCES.clear()
    for node in kept:
        graph.top._INSTANCES[node.uid] = node
    need = rebuilt_nodes(graph, start, kept)
    if rng.random() < 0.2 and len(need) > 1:
        # an entry is missing
        gone = rng.choice([n for n in need if n is not start])
        bad = {k: v for k, v in data.items() if k != gone.uid}
        live = dict(graph.top._INSTANCES)
        try:
            graph.top.deserialize(bad, trusted=True, **options)
        except ValueError:
            ctx.count('missing_entries')
        else:
            ctx.fail('a missing entry went unnoticed', gone.uid)
        for uid, node in live.items():
            ctx.check(graph.top._INSTANCES.get(uid) is node,
                      'a refused graph replaced a live instance')
        graph.top._INSTANCES.clear()
        graph.top._INSTANCES.update(live)
    if rng.random() < 0.2:
        # strict refuses data no class asked for
        odd = rng.choice(need)
        bad = pycopy.deepcopy(data)
        bad[odd.uid]['zz_unknown'] = 5
        live = dict(graph.top._INSTANCES)
        try:
            graph.top.deserialize(bad, trusted=True, strict=True, **options)
        except ValueError:
            ctx.count('strict_refusals')
        else:
            ctx.fail('unknown data of an entry went unnoticed', odd.uid)
        graph.top._INSTANCES.clear()
        graph.top._INSTANCES.update(live)
    if rng.random() < 0.3:
        options['strict'] = True
    # validation follows every path through the graph
    small = sum(len(graph.edges(n)) for n in strong) <= 9
    if small and rng.random() < 0.4:
        options['assert_valid'] = True
    # strict wants the very class the method is called on; trust relaxes it
    given = pycopy.deepcopy(data)
    result = graph.top.deserialize(given, trusted=True, **options)
    ctx.check(given == data, 'deserializing changed its input')
    ctx.count('rebuilt_graphs')
    same_graph(ctx, graph, start, result, kept)
    if small:
        ctx.check(result.validate(), 'a rebuilt graph is not valid')
        ctx.count('validated_graphs')
    if not kept:
        back = result.serialize()
        weak = any(k in ('ptr', 'ptrs') for n in strong
                   for k, _ in getattr(n, 'KINDS', {}).values())
        again = graph.tidy(back)
        want = graph.tidy(graph.expected(start, True))
        if weak:
            for uid in again:
                ctx.check(again[uid] == want[uid], 'a rebuilt graph '
                          'serializes differently', uid)
        else:
            ctx.check(again == want, 'a rebuilt graph serializes '
                      'differently', again, want)
    # and its identifiers are now taken
    live = dict(graph.top._INSTANCES)
    try:
        graph.top.deserialize(pycopy.deepcopy(data), trusted=True, **options)
    except ValueError:
        ctx.count('refused_data')
    else:
        ctx.fail('a graph was deserialized twice')
    for node in need:
        ctx.check(graph.top._INSTANCES[node.uid] is live[node.uid],
                  'a refused graph replaced a live instance')


def rebuilt_nodes(graph, start, kept):
    seen, todo = [], [start]
    while todo:
        node = todo.pop()
        if node in seen or node in kept:
            continue
        seen.append(node)
        todo += graph.strong(node)
    return seen


def snapshot(graph):
    out = []
    for node in graph.nodes:
        out.append((node, {k: getattr(node, k) for k in node._props}))
    return out


def check_unchanged(ctx, graph, before, live):
    for node, vals in before:
        for key, val in vals.items():
            ctx.check(getattr(node, key) is val, 'a refused identifier '
                      'changed a value', key)
    for uid, node in live.items():
        ctx.check(graph.top._INSTANCES.get(uid) is node, 'a refused '
                  'identifier changed the registry', uid)


# ------------------------------------------------------------- histories

class History(object):
    """Identifiers over time, in two independent registries"""

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.tops = [base(rng), base(rng)]
        self.kinds = []
        for top in self.tops:
            sub = type('Sub', (top,), {
                'num': p.Integer('', default=1, min=0),
                'to': p.Instance('', top, required=False)})
            veto = type('Veto', (sub,), {
                'no_x': p.validator('uid')(self.veto)})
            self.kinds.append([top, sub, sub, veto])
        self.live = [[], []]    # [object, uid]
        self.names = 0

    @staticmethod
    def veto(obj, change):
        if change['value'].lower().startswith('x'):
            raise p.ValidationError('no x', 'invalid', 'uid', obj)

    def fresh(self, which):
        self.names += 1
        text = self.rng.choice(['id%d', 'x%d', 'id%d', '\u00e9%d']) % \
            self.names
        if self.upper(which):
            return text.upper()
        return text

    def upper(self, which):
        return getattr(self.tops[which]._props['uid'], 'change_case',
                       '') == 'upper'

    def check(self, why):
        ctx = self.ctx
        for which, top in enumerate(self.tops):
            seen = {}
            for obj, uid in self.live[which]:
                ctx.check(obj.uid == uid, 'an identifier changed after ' +
                          why, uid, obj.uid)
                ctx.check(uid not in seen, 'two instances share an '
                          'identifier after ' + why, uid)
                seen[uid] = obj
                ctx.check(top.load(uid) is obj, 'an instance is not found '
                          'by its identifier after ' + why, uid)
                ctx.check(type(obj).load(uid) is obj, 'a class does not '
                          'find an instance after ' + why)
                other = self.tops[1 - which].load(uid)
                ctx.check(other is not obj, 'registries are not separate')

    def step(self):
        ctx, rng = self.ctx, self.rng
        which = rng.randrange(2)
        live = self.live[which]
        roll = rng.random()
        cls = rng.choice(self.kinds[which])
        if roll < 0.25 or not live:
            uid = self.fresh(which) if rng.random() < 0.7 else None
            kw = {} if uid is None else {
                'uid': uid.lower() if self.upper(which) and
                rng.random() < 0.5 else uid}
            bad = uid is not None and cls.__name__ == 'Veto' and \
                uid.lower().startswith('x')
            try:
                if rng.random() < 0.3:
                    random.seed(1)
                obj = cls(**kw)
            except ValueError:
                ctx.check(bad, 'a free identifier was refused', uid)
                ctx.count('vetoed')
                ctx.check(self.tops[which].load(uid) is None, 'a refused '
                          'identifier was registered', uid)
                return self.check('a veto')
            ctx.check(not bad, 'a validator was ignored', uid)
            if uid is None:
                uid = obj.uid
                ctx.check(isinstance(uid, str) and uid not in [
                    u for _, u in live], 'a default identifier is used')
                ctx.count('default_uids')
            live.append([obj, uid])
            ctx.count('created')
            return self.check('creation')
        item = rng.choice(live)
        obj, uid = item
        if roll < 0.45:
            # taken by another
            taken = rng.choice(live)
            name = taken[1]
            if self.upper(which) and rng.random() < 0.5:
                name = name.lower()
            ctx.count('taken')
            before = self.registry()
            how = rng.random()
            ctx.note('take', uid, name, cls)
            ctx.nontrivial('take', cls.__name__, how < 0.5,
                           taken is item, len(live))
            vals = {k: getattr(obj, k) for k in obj._props}
            if how < 0.4:
                if taken is item:
                    obj.uid = name          # its own: nothing happens
                    return self.check('keeping an identifier')
                try:
                    obj.uid = name
                except ValueError:
                    pass
                else:
                    ctx.fail('a used identifier was taken by renaming')
            elif how < 0.7:
                kw = {'uid': name}
                if rng.random() < 0.4 and cls is not self.tops[which]:
                    kw['num'] = rng.choice([5, -1, 'text'])
                if rng.random() < 0.4:
                    kw['name'] = 'other'
                try:
                    cls(**kw)
                except ValueError:
                    pass
                else:
                    ctx.fail('a used identifier was taken by creating', kw)
            elif how < 0.85:
                holder = rng.choice(live)[0]
                if 'to' not in holder._props:
                    return
                old = holder.to
                try:
                    holder.to = {'uid': name}
                except ValueError:
                    pass
                else:
                    ctx.fail('a used identifier was taken by nesting')
                ctx.check(holder.to is old, 'a refused value was stored')
            else:
                free = self.fresh(which)
                data = rng.choice([
                    {'__root__': name, name: {'uid': name}},
                    {'__root__': free, free: {'uid': name}},
                    {'__root__': name, name: {'uid': free}},
                    {'__root__': name, name: {}},
                ]) if not self.upper(which) else {
                    '__root__': uid, uid: {'uid': uid}}
                try:
                    cls.deserialize(data)
                except ValueError:
                    pass
                else:
                    ctx.fail('a used identifier was deserialized', data)
                after = self.registry()
                for key, val in before.items():
                    ctx.check(after.get(key) is val, 'a refused identifier '
                              'changed the registry', key)
                ctx.count('refused_data')
                return self.check('refused data')
            ctx.check(self.registry() == before, 'a refused identifier '
                      'changed the registry', name)
            for key, val in vals.items():
                ctx.check(getattr(obj, key) is val, 'a refused identifier '
                          'changed a value', key)
            return self.check('a refusal')
        if roll < 0.65:
            name = self.fresh(which)
            bad = type(obj).__name__ == 'Veto' and \
                name.lower().startswith('x')
            ctx.note('rename', uid, name)
            try:
                obj.uid = name.lower() if self.upper(which) and \
                    rng.random() < 0.5 else name
            except ValueError:
                ctx.check(bad, 'a free identifier was refused', name)
                ctx.check(self.tops[which].load(name) is None, 'a refused '
                          'identifier was registered', name)
                ctx.count('vetoed')
                return self.check('a veto')
            ctx.check(not bad, 'a validator was ignored', name)
            item[1] = name
            ctx.count('renamed')
            return self.check('renaming')
        if roll < 0.8:
            bad = rng.choice([5, None, b'bytes', ['a'], {}, 1.5])
            before = self.registry()
            if bad is None or bad == b'bytes':
                bad = 17
            try:
                obj.uid = bad
            except ValueError:
                ctx.count('wrong_types')
            else:
                ctx.fail('an identifier which is no text was accepted', bad)
            ctx.check(self.registry() == before, 'a refused identifier '
                      'changed the registry')
            return self.check('a wrong type')
        # deserialize something new, perhaps linked to living instances
        free = self.fresh(which)
        data = {'__root__': free, free: {
            'uid': free, '__class__': 'Sub', 'num': 3}}
        how = rng.random()
        second = None
        if how < 0.4:
            data[free]['to'] = uid
        elif how < 0.7:
            second = self.fresh(which)
            data[free]['to'] = second
            data[second] = {'uid': second, '__class__': 'Sub', 'to': free}
        ctx.note('data', data)
        obj2 = self.tops[which].deserialize(data, trusted=True)
        live.append([obj2, free])
        ctx.check(type(obj2) is self.kinds[which][1], 'wrong class')
        if how < 0.4:
            ctx.check(obj2.to is obj, 'a living instance was not linked')
            ctx.count('linked_live')
        elif second:
            live.append([obj2.to, second])
            ctx.check(obj2.to.to is obj2, 'a cycle was not rebuilt')
        ctx.count('deserialized')
        self.check('deserializing')

    def registry(self):
        return {(i, k): v for i, top in enumerate(self.tops)
                for k, v in top._INSTANCES.items()}


# -------------------------------------------------------------- pointers

def pointers(ctx, rng):
    """Pointer values decided one by one against an acceptance model"""
    log = []
    uid_prop = rng.choice(['uid', 'uid', 'key'])
    style = rng.choice(['any', 'upper', 'choice', 'regex', 'strip'])
    prop = {'any': p.String(''), 'upper': p.String('', change_case='upper'),
            'choice': p.StringChoice('', {'aa': ['x', 'y'], 'bb': []}),
            'regex': p.String('', regex='^[a-c]+$'),
            'strip': p.String('', strip=' ')}[style]

    def coerce(text):
        """The identifier stored, or None"""
        if style == 'upper':
            return text.upper()
        if style == 'strip':
            return text.strip(' ')
        if style == 'regex':
            return text if text and all(c in 'abc' for c in text) else None
        if style == 'choice':
            if text.lower() in ('aa', 'x', 'y'):
                return 'aa'
            return 'bb' if text.lower() == 'bb' else None
        return text
    has_prop = rng.random() < 0.7
    has_check = rng.random() < 0.5
    loads = rng.choice([None, 'found', 'none', 'wrong', 'some'])
    ns = {'_REGISTRY': {}, 'num': p.Integer('', required=False)}
    prop.required = False
    if has_prop:
        ns[uid_prop] = prop
    if has_check:
        def validate_uid(cls, uid):
            log.append(('check', uid))
            if 'b' in uid.lower():
                raise p.ValidationError('no b')
        ns['validate_uid'] = classmethod(validate_uid)
    if loads:
        def load(cls, uid):
            log.append(('load', uid))
            if loads == 'found' or loads == 'some' and 'a' in uid.lower():
                return found
            if loads == 'wrong':
                return 5
            return None
        ns['load'] = classmethod(load)
    cls = type('Pointed', (p.HasProperties,), ns)
    sub = type('SubPointed', (cls,), {'extra': p.String('', required=False)})
    found = rng.choice([cls, sub])()
    load_on = rng.random() < 0.6
    kw = {'load': True} if load_on else {}
    if uid_prop != 'uid':
        kw['uid_prop'] = uid_prop
    pointer = Pointer('', cls, required=False, **kw)
    holder_ns = {'_REGISTRY': {}, 'ptr': pointer,
                 'many': p.List('', Pointer('', cls, **kw), required=False)}
    holder = type('Holder', (p.HasProperties,), holder_ns)()
    old = cls()
    for _ in range(8):
        if rng.random() < 0.7:
            val = rng.choice(['a', 'b', 'aa', 'bb', 'X', 'cab', ' a ', '',
                              'zz', 'ABC', 'a b'])
            kind = 'text'
        else:
            val, kind = rng.choice([
                (cls(), 'inst'), (sub(), 'inst'), ({'num': 5}, 'data'),
                ({}, 'data'), ({'num': 'bad'}, 'bad'), ({'none': 1}, 'bad'),
                (5, 'bad'), (None, 'bad'), ([], 'bad'), (p.HasProperties(),
                                                         'bad'),
                (b'a', 'bad'), (cls, 'bad')])
        many = rng.random() < 0.3
        name = 'many' if many else 'ptr'
        before = [old] if many else old
        setattr(holder, name, before)
        before = getattr(holder, name)
        want, calls = None, []
        ok = kind in ('inst', 'data', 'text')
        if kind == 'text':
            uid = coerce(val) if has_prop else val
            if uid is None:
                ok = False
            else:
                if has_check:
                    calls.append(('check', uid))
                    ok = 'b' not in uid.lower()
                want = uid
                if ok and load_on and loads:
                    calls.append(('load', uid))
                    if loads == 'wrong':
                        ok = False
                    elif loads == 'found' or loads == 'some' and \
                            'a' in uid.lower():
                        want = found
        del log[:]
        ctx.note('pointer', name, style, has_prop, has_check, loads, load_on,
                 kind, val)
        ctx.nontrivial('pointer', style, has_prop, has_check, loads,
                       load_on, kind, val if kind == 'text' else '', many)
        try:
            setattr(holder, name, [val] if many else val)
        except ValueError as err:
            ctx.check(not ok, 'a valid pointer value was refused', val, err)
            got = getattr(holder, name)
            ctx.check(got is before, 'a refused pointer changed the value')
            ctx.count('pointer_refused')
            continue
        ctx.check(ok, 'an invalid pointer value was accepted', val)
        ctx.count('pointer_accepted')
        got = getattr(holder, name)
        got = got[0] if many else got
        if kind == 'text':
            ctx.check(log == calls, 'wrong calls to check or load an '
                      'identifier', log, calls)
            if want is found:
                ctx.check(got is found, 'the loaded instance was not stored',
                          got)
                ctx.count('pointer_loaded')
            else:
                ctx.check(isinstance(got, str) and got == want, 'wrong '
                          'identifier stored', got, want)
        elif kind == 'inst':
            ctx.check(got is val, 'another instance was stored')
        else:
            ctx.check(type(got) is cls and got.num == val.get('num'),
                      'wrong instance constructed', got)
        ctx.check(holder.validate(), 'a stored pointer is not valid')
    # an identifier or data may be deserialized as well
    uid = 'aa' if style in ('choice', 'regex') else 'A' if \
        style == 'upper' else 'c'
    if loads != 'wrong' and not (has_check and 'b' in uid):
        del log[:]
        new = type(holder).deserialize({'ptr': uid, 'many': [uid, {}]})
        got = new.ptr
        loaded = load_on and (loads == 'found' or loads == 'some' and
                              'a' in uid.lower())
        ctx.check(got is found if loaded else got == uid, 'a pointer was '
                  'deserialized wrongly', got)
        ctx.check(type(new.many[1]) is cls, 'pointer data was deserialized '
                  'wrongly', new.many)
        ctx.count('pointer_data')


def registered_pointers(ctx, rng):
    """Pointers to registered instances load exactly those"""
    top = base(rng)
    other = type('Other', (top,), {})
    holder = type('Holder', (p.HasProperties,), {
        '_REGISTRY': {}, 'ptr': Pointer('', other, load=True),
        'raw': Pointer('', other)})()
    upper = getattr(top._props['uid'], 'change_case', '') == 'upper'
    names = ['A1', 'B2', 'C3'] if upper else ['a1', 'b2', 'c3']
    insts = {n: rng.choice([top, other, other])(uid=n)
             for n in names if rng.random() < 0.7}
    ctx.check(late_pointer(lambda top: (
        Pointer('', top, load=True), 'later')), 'a pointer became invalid '
        'when its instance was registered')
    for _ in range(6):
        name = rng.choice(names)
        inst = insts.get(name)
        given = name.lower() if rng.random() < 0.5 else name
        try:
            holder.ptr = given
        except ValueError:
            ctx.check(inst is not None and not isinstance(inst, other),
                      'a registered instance was refused', name)
            ctx.count('pointer_refused')
        else:
            if inst is None:
                ctx.check(holder.ptr == name, 'wrong pointer')
            else:
                ctx.check(holder.ptr is inst, 'the registered instance was '
                          'not loaded', holder.ptr)
                ctx.count('pointer_loaded')
        holder.raw = given
        ctx.check(holder.raw == name, 'a pointer was loaded unasked')
        free = other()
        holder.raw = free
        ctx.check(holder.raw is free, 'a pointer was replaced')


def odd_data(ctx, rng):
    """Data whose keys are not the identifiers, and classes that are never
    valid"""
    top = base(rng)
    valid = rng.random() < 0.6
    ns = {'to': p.Instance('', top, required=False),
          'num': p.Integer('', required=False)}
    if not valid:
        ns['validate'] = lambda self: False
    cls = type('Odd', (top,), ns)
    alive = [rng.choice([top, cls])(uid=n) for n in ('U1', 'U9')
             if rng.random() < 0.4]
    held = dict(top._INSTANCES)
    data = {'__root__': 'K1', 'K1': {
        '__class__': 'Odd', 'uid': rng.choice(['U1', 'U1', 'K1']), 'num': 3}}
    if rng.random() < 0.5:
        data['K1']['to'] = 'K2'
        data['K2'] = {'__class__': rng.choice(['Odd', 'Base']),
                      'uid': rng.choice(['U2', 'U9', 'K2'])}
    uids = [d['uid'] for k, d in data.items() if k != '__root__']
    kw = {'trusted': True} if rng.random() < 0.8 else {}
    if rng.random() < 0.6:
        kw['assert_valid'] = True
    given = pycopy.deepcopy(data)
    ctx.nontrivial('odd data', data, sorted(held), kw, valid)
    try:
        result = cls.deserialize(given, **kw)
    except ValueError:
        ctx.check(any(u in held for u in uids) or not valid and
                  'assert_valid' in kw, 'data was refused', data, held)
        ctx.count('odd_refused')
        result = None
    ctx.check(given == data, 'deserializing changed its input', given)
    for uid, inst in held.items():
        ctx.check(top.load(uid) is inst and inst.uid == uid, 'a live '
                  'instance lost its identifier', uid, data)
    if result is None:
        return
    ctx.check(not any(u in held for u in uids), 'used identifiers taken',
              data, held)
    ctx.check(valid or 'assert_valid' not in kw, 'an invalid instance was '
              'returned', data, kw)
    ctx.check(result.uid == data['K1']['uid'], 'wrong identifier')
    for inst in [result, result.to]:
        if inst is not None:
            ctx.check(top.load(inst.uid) is inst, 'an instance is not '
                      'found by its identifier', inst.uid)
    for used in uids:
        try:
            top(uid=used)
        except ValueError:
            continue
        ctx.fail('a used identifier was taken', used, data)
    ctx.count('odd_accepted')


def late_pointer(make):
    top = type('Base', (HasUID,), {'_REGISTRY': {}, '_INSTANCES': {}})
    prop, val = make(top)
    holder = type('Holder', (p.HasProperties,), {
        '_REGISTRY': {}, 'ptr': prop})()
    holder.ptr = val
    holder.validate()
    top(uid='later')
    try:
        return holder.validate() and holder.ptr == val
    except ValueError:
        return False


def findings(ctx):
    yield ('pointer-list-loaded-later', not late_pointer(lambda top: (
        p.List('', Pointer('', top, load=True)), ['later'])),
        'a list of loading pointers that kept an unknown identifier is no '
        'longer valid once an instance with that identifier is registered')


def run_case(ctx):
    rng = ctx.rng
    graphs(ctx, rng)
    graphs(ctx, rng)
    hist = History(ctx, rng)
    for _ in range(14):
        hist.step()
    pointers(ctx, rng)
    registered_pointers(ctx, rng)
    odd_data(ctx, rng)
    odd_data(ctx, rng)
