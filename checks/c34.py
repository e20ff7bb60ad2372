"""C34: operations that read leave no trace"""
import copy
import random
import re

import properties as p

from checks import c31
from checks.c31 import LOCAL, compare
from vlib.canon import canon, walk

RULE = ('A case draws classes and a random program of writing operations '
        '(construction, assignments, observed containers, links, disabled '
        'listeners, identifiers, singletons, deserialization) and runs it '
        'twice, the second time with bursts of reading operations in '
        'between, valid and failing ones: get, serialize, validate, compare, '
        'copy, load, the methods of single properties, documentation, '
        'container reading, construction and deserialization of other '
        'instances. Values, notifications, errors and results of the writing '
        'operations must be the same; each reading operation must leave all '
        'values and their identity, must not notify, must answer the same '
        'when asked again, and gives data of its own. Non-trivial: a reading '
        'operation, by kind, state and outcome.')
CASES = {'quick': 700, 'thorough': 9000}
FLOORS = {'entries': 24159, 'failed_reads': 1573, 'plain': 66, 'programs': 350,
          'reads': 6694}

EXPECTED = (ValueError, TypeError, AttributeError, KeyError, IndexError)


class Program(c31.Program):
    """A program, with or without reading in between"""

    def __init__(self, seed, me, size, ctx=None, reading=0):
        super(Program, self).__init__(seed, me, size)
        self.ctx, self.reading = ctx, reading
        self.side = random.Random('%s reading' % seed)
        self.heard = []
        self.kept = []

    def op_new(self):
        super(Program, self).op_new()
        self.listen(self.objs[-1])

    def listen(self, obj):
        p.observer(obj, sorted(obj._props), lambda this, change:
                   self.heard.append((change['mode'], change['name'])))

    def op_node(self):
        """Identified instances that stay"""
        name = 'kept %d' % len(self.kept)
        kind = self.rng.choice([self.world.node, self.world.uid])
        obj = kind(uid=name, num=self.rng.randint(0, 9))
        if kind is self.world.node and self.kept:
            obj.to = self.rng.choice(
                [o for o in self.kept if isinstance(o, self.world.uid)] or
                [None])
        self.listen(obj)
        self.kept.append(obj)

    def op_named(self):
        """A singleton that stays"""
        obj = self.world.single('name %d' % self.rng.randint(0, 2))
        obj.num = self.rng.randint(0, 4)
        if obj.made is None:
            obj.made = [1]
        if obj not in self.kept:
            self.kept.append(obj)

    def everything(self):
        return self.objs + self.kept

    def snapshot(self):
        memo = {}
        return ([canon(o, ids=True, memo=memo) for o in self.everything()],
                sorted(self.world.registry),
                sorted((k, id(v)) for k, v in
                       self.world.uid._INSTANCES.items()),
                sorted((k, id(v)) for k, v in
                       self.world.single._SINGLETONS.items()))

    def step(self):
        """Called after each writing operation"""
        for obj in self.kept:
            c31.log('kept', canon(obj))
        if not self.reading:
            return
        mine, LOCAL.log = LOCAL.log, []
        try:
            for _ in range(self.side.randint(0, self.reading)):
                self.read()
        finally:
            LOCAL.log = mine

    def read(self):
        ctx, rng = self.ctx, self.side
        if not self.everything():
            return
        name = rng.choice(READS)
        seed = rng.random()
        ctx.note('read', name, seed)
        before = self.snapshot()
        memory = globals_of(self.world)
        answers = []
        for _ in range(2):
            self.again = random.Random(seed)
            self.heard = []
            try:
                answers.append(getattr(self, 'read_' + name)())
            except EXPECTED as err:
                answers.append(('error', type(err).__name__, re.sub(
                    '0x[0-9a-f]+', '', c31.words(err))))
            ctx.check(not self.heard, 'a reading operation notified',
                      name, self.heard, answers[-1])
            after = self.snapshot()
            ctx.check(before == after, 'a reading operation changed '
                      'something', name, seed, answers[-1],
                      [(a, b) for a, b in zip(before[0], after[0]) if a != b]
                      or (before[1:], after[1:]))
        ctx.check(globals_of(self.world) == memory, 'a reading operation '
                  'changed the settings of a class', name)
        ctx.check(answers[0] == answers[1], 'a reading operation gives '
                  'another answer the second time', name, answers)
        ctx.count('reads')
        ctx.count('failed_reads', isinstance(answers[0], tuple) and
                  answers[0][:1] == ('error',))
        ctx.nontrivial((name, repr(before[0])[-300:], repr(answers[0])))

    # ------------------------------------------------- the reading operations

    def one(self):
        obj = self.again.choice(self.everything())
        if self.again.random() < 0.3:
            inner = [o for o in walk(obj).values()
                     if isinstance(o, p.HasProperties)]
            obj = self.again.choice(inner)
        return obj

    def prop(self):
        obj = self.one()
        return obj, obj._props[self.again.choice(sorted(obj._props))]

    def read_get(self):
        obj = self.one()
        out = []
        for name in sorted(obj._props):
            val = getattr(obj, name)
            out.append(canon(val))
            if name != 'total':
                self.ctx.check(getattr(obj, name) is val or isinstance(
                    val, tuple), 'reading twice gives two objects', name)
            out.append(canon(obj._get(name)) if self.again.random() < 0.3
                       else None)
        return out

    def read_missing(self):
        return getattr(self.one(), self.again.choice(
            ['nothing', '_nothing', 'on_nothing']))

    def read_serialize(self):
        obj = self.one()
        kw = {}
        if self.again.random() < 0.6:
            kw['include_class'] = self.again.random() < 0.5
        if self.again.random() < 0.6:
            kw['save_dynamic'] = self.again.random() < 0.5
        if self.again.random() < 0.2:
            kw['unknown_option'] = 3
        data = obj.serialize(**kw)
        out = canon(data)
        spoil(data)
        return out

    def read_validate(self):
        return self.one().validate()

    def read_equal(self):
        one = self.one()
        other = self.again.choice([one, self.one(), 5, None, p.copy(one)])
        return (p.equal(one, other), one == other, one != other,
                type(one).equal(one, other))

    def read_copy(self):
        obj = self.again.choice(self.objs)
        twin = p.copy(obj)
        out = canon(twin)
        for part in list(walk(twin).values()):
            if isinstance(part, (list, dict, set)):
                try:
                    part.clear()
                except EXPECTED:
                    pass
        twin.num = 77
        for name in list(twin._props):
            try:
                delattr(twin, name)
            except EXPECTED:
                pass
        return out

    def read_words(self):
        obj = self.one()
        repr(obj), str(obj), hash(obj), dir(obj), bool(obj)
        return (len(repr(obj)) > 0, hash(obj), sorted(
            n for n in dir(obj) if n in obj._props))

    def read_filter(self):
        obj = self.one()
        data = {'num': 5, 'other': [1], 'old': 2, 'total': 3}
        keep = copy.deepcopy(data)
        out = p.filter_props(self.again.choice([obj, type(obj)]), data,
                             self.again.random() < 0.5)
        self.ctx.check(data == keep, 'filter_props changed its argument')
        final = canon(out)
        for part in out:
            part.clear()
        self.ctx.check(data == keep, 'filter_props gave its argument')
        return final

    def read_prop_validate(self):
        """What a property makes of a value, for an instance"""
        obj, prop = self.prop()
        other = self.again.choice(self.everything())
        val = self.again.choice([
            5, 'a', [1, 2], [1, 'x'], {'a': 1}, {'a'}, None, 2.5,
            getattr(other, prop.name, None), getattr(obj, prop.name, None),
            getattr(obj, prop.name, None)])
        if isinstance(obj, self.world.uid) and isinstance(val, dict):
            return None     # describes a new identified instance
        keep = canon(val, ids=True)
        try:
            out = prop.validate(obj, val)
        finally:
            self.ctx.check(canon(val, ids=True) == keep,
                           'validating changed the value', prop, val)
        return canon(out) if not isinstance(out, p.HasProperties) else None

    def read_prop_assert(self):
        obj, prop = self.prop()
        if self.again.random() < 0.5:
            return prop.assert_valid(obj)
        return prop.assert_valid(obj, self.again.choice(
            [5, 'a', [1], (), getattr(obj, prop.name, None)]))

    def read_prop_json(self):
        obj, prop = self.prop()
        val = getattr(obj, prop.name, None)
        data = prop.serialize(val, include_class=self.again.random() < 0.5)
        out = [canon(data)]
        if isinstance(obj, self.world.uid):
            return out
        keep = copy.deepcopy(data)
        back = prop.deserialize(data, trusted=True)
        self.ctx.check(canon(keep) == canon(data), 'deserializing changed '
                       'its data', prop, keep, data)
        spoil(data)
        return out + [canon(back)]

    def read_prop_equal(self):
        obj, prop = self.prop()
        mine = getattr(obj, prop.name, None)
        others = [getattr(o, prop.name, None) for o in self.everything()]
        return [bool(prop.equal(mine, o)) for o in others
                if mine is not None and o is not None]

    def read_prop_words(self):
        obj, prop = self.prop()
        return [re.sub('0x[0-9a-f]+', '', str(t)) for t in (
            prop.info, prop.doc, prop.sphinx(), getattr(
                prop, 'terms', None), type(obj).__doc__)]

    def read_container(self):
        parts = [v for o in self.everything() for v in walk(o).values()
                 if isinstance(v, (list, dict, set))]
        if not parts:
            return None
        part = self.again.choice(parts)
        out = [len(part), bool(part), repr(part) is not None, 5 in list(part),
               part == part, part != part]
        fresh = [copy.copy(part), part.copy()]
        if isinstance(part, list):
            fresh += [part[:], part[0:1], part + [1], part * 2,
                      list(reversed(part))]
            if part:
                out += [part.index(part[0]), part.count(part[0])]
                canon(part[-1])
            out.append(part < part)
            part.index('nothing')
        elif isinstance(part, dict):
            fresh += [list(part.items()), list(part.keys()),
                      list(part.values()), dict(part)]
            out.append(canon(part.get('nothing', 4)))
            part['nothing']
        else:
            fresh += [part | {1}, part & {1}, part - {1}, part ^ {1},
                      part.union([5])]
            out += [part.issubset(part), part.isdisjoint([1])]
        for one in fresh:
            self.ctx.check(one is not part, 'a container gave itself')
            if type(one) in (list, set, dict):
                one.clear()
        return [canon(o) for o in out]

    def read_others(self):
        """Other instances, made well or not"""
        world = self.world
        kw = world.main.good_kwargs(self.again)
        if self.again.random() < 0.5:
            kw.update(self.again.choice([
                {'num': 'x'}, {'nothing': 1}, {'seq': [1, 'x']},
                {'num': 13}]))
        keep = canon(kw, ids=True)
        try:
            obj = world.cls(**kw)
        finally:
            self.ctx.check(canon(kw, ids=True) == keep,
                           'construction changed its arguments')
        obj.seq = [7, 8]
        obj.seq.append(9)
        obj.num = 50
        obj._reset()
        return None

    def read_shared_values(self):
        """Instances made from the values of others; those are not changed"""
        if not self.objs:
            return None
        obj = self.again.choice(self.objs)
        name = self.again.choice(['seq', 'names', 'tab', 'made'])
        other = self.world.cls()
        val = getattr(obj, name)
        if val is None:
            return None
        setattr(other, name, val)
        mine = getattr(other, name)
        self.ctx.check(mine is not val, 'two instances hold one container',
                       name)
        mine.clear()
        return None

    def read_json(self):
        """JSON read by a class, well or not"""
        world = self.world
        data = self.again.choice(self.objs).serialize()
        if self.again.random() < 0.6:
            data.update(self.again.choice([
                {'num': 'x'}, {'nothing': 1}, {'seq': [1, 'x']},
                {'num': 13}, {'__class__': 'Nowhere'}]))
        keep = canon(data)
        try:
            obj = world.cls.deserialize(
                data, trusted=self.again.random() < 0.3,
                strict=self.again.random() < 0.3,
                assert_valid=self.again.random() < 0.3)
        finally:
            self.ctx.check(canon(data) == keep, 'deserializing changed its '
                           'data', data)
        spoil(data)
        return canon(obj)

    def read_load(self):
        return canon(self.world.uid.load(self.again.choice(
            sorted(self.world.uid._INSTANCES) + ['nowhere', '', 5])))

    def read_name_again(self):
        """A singleton asked for by its name"""
        names = sorted(self.world.single._SINGLETONS)
        if not names:
            return None
        name = self.again.choice(names)
        obj = self.world.single(name)
        self.ctx.check(obj is self.world.single._SINGLETONS[name],
                       'another singleton of the same name')
        return None

    def read_taken(self):
        """An identifier that is taken is refused"""
        names = sorted(self.world.uid._INSTANCES)
        if not names:
            return None
        self.world.uid(uid=self.again.choice(names), num=99)

    def read_contexts(self):
        obj = self.one()
        with p.listeners_disabled():
            with p.validators_disabled():
                canon(obj)
        with p.observers_disabled():
            obj.serialize()
        return None

    def read_link_and_unlink(self):
        if len(self.objs) < 2:
            return None
        one, two = self.again.sample(self.objs, 2)
        link = self.again.choice([p.link, p.directional_link])(
            (one, 'num'), (two, 'num'))
        link.unlink()
        return None

    def read_unbound(self):
        """Functions of the library that refuse their arguments"""
        obj = self.one()
        how = self.again.choice(['validate', 'json', 'reset', 'observer',
                                 'link', 'set', 'quiet'])
        if how == 'json':
            return canon(type(obj).deserialize(self.again.choice(
                [5, 'a', [1], {'num': {}}])))
        if how == 'reset':
            return obj._reset('nothing')
        if how == 'observer':
            return p.observer(obj, 5, None)
        if how == 'link':
            return p.link((obj, 'num'), (obj, 'nothing'))
        if how == 'set':
            obj.num = 'nothing'
        if how == 'quiet':
            return p.listeners_disabled('nothing').__enter__()
        return None


def globals_of(world):
    """Settings of the classes: what their properties say of themselves"""
    out = {}
    for name, cls in world.registry.items():
        for key, prop in cls._props.items():
            out[name, key] = (
                id(prop), prop.name, prop.doc, re.sub(
                    '0x[0-9a-f]+', '', str(prop.info)),
                getattr(prop, 'required', None),
                canon(getattr(prop, 'min_length', None)),
                sorted((str(k), id(v)) for k, v in prop.meta.items()),
                [id(v) for v in prop.terms.args],
                sorted((k, id(v)) for k, v in prop.terms.kwargs.items()),
                id(prop.default))
    return out


def spoil(data):
    """Data belongs to the caller, who may do anything with it"""
    if isinstance(data, dict):
        for val in list(data.values()):
            spoil(val)
        data.clear()
    elif isinstance(data, list):
        for val in data:
            spoil(val)
        del data[:]


READS = sorted(n[5:] for n in vars(Program) if n.startswith('read_'))
WRITES = sorted(name[3:] for name in dir(Program) if name.startswith('op_'))
WRITES = [w for w in WRITES if w not in ('shared', 'define')]
WRITES += ['new', 'set', 'num', 'quiet', 'mutate', 'mutate', 'node']


def plain_case(ctx):
    """Data made of instances of plain classes belongs to the caller"""
    rng = ctx.rng

    def tree(depth=0):
        roll = rng.random()
        if depth > 2 or roll < 0.3:
            return rng.choice([1, 2.5, 'x', None, True])
        if roll < 0.65:
            return [tree(depth + 1) for _ in range(rng.randint(1, 3))]
        return {'k%d' % i: tree(depth + 1) for i in range(rng.randint(1, 3))}

    def own(kind):
        val = tree()
        while not isinstance(val, kind):
            val = tree()
        return val
    kind = rng.choice([dict, list])
    inst = lambda: p.Instance('', kind)
    cls = type('Plain', (p.HasProperties,), {
        '_REGISTRY': {}, 'one': inst(), 'many': p.List(
            '', inst(), observe_mutations=rng.random() < 0.5),
        'pair': p.Tuple('', inst()),
        'table': p.Dictionary('', key_prop=p.String(''), value_prop=inst()),
        'either': p.Union('', [p.Integer(''), inst()])})
    obj = cls(one=own(kind), many=[own(kind)], pair=(own(kind), own(kind)),
              table={'a': own(kind)}, either=own(kind))
    before = canon(obj, ids=True)
    data = obj.serialize()
    good = canon(data)
    ctx.count('plain')
    ctx.nontrivial('plain', kind.__name__, good)
    spoil(data)
    ctx.check(canon(obj, ids=True) == before, 'data given out is still part '
              'of the instance', data, obj.serialize())
    ctx.check(canon(obj.serialize()) == good, 'an instance is serialized '
              'differently the second time', good, obj.serialize())


def run_case(ctx):
    rng = ctx.rng
    if rng.random() < 0.2:
        plain_case(ctx)
    base = rng.random()
    while c31.World(base).shared:
        base = rng.random()
    seed, size = rng.random(), rng.randint(4, 12)
    logs = []
    for reading in (0, 4):
        prog = Program(seed, 'main', size, ctx, reading)
        pick = random.Random('%s ops' % seed)
        prog.ops = [(pick.choice(WRITES), pick.random())
                    for _ in range(size)]
        world = c31.World(base)
        logs.append(prog.run(world))
    ctx.count('programs')
    ctx.count('entries', len(logs[0]))
    compare(ctx, logs[0], logs[1], 'a program with reading in between', [])
