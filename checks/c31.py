"""C31: threads that use different instances do not interfere"""
import random
import re
import sys
import threading

import properties as p
from properties.extras import HasUID, Pointer, Singleton

from vlib import shapes
from vlib.canon import canon, walk
from vlib.sched import Schedule

RULE = ('A case draws classes and, for two or three threads, random programs '
        'on instances of their own (construction, valid and invalid '
        'assignments, disabled listeners, validation, JSON, copies, '
        'comparison, observed containers, links, dynamic and renamed '
        'properties, identifiers, singletons, new classes); the programs run '
        'alone, then in threads that are switched at random lines of the '
        'library; results, notifications, errors and values of every thread '
        'must be those of its program run alone, also for programs run '
        'afterwards. Non-trivial: an interleaving, by the places of its '
        'switches.')
CASES = {'quick': 220, 'thorough': 2500}
FLOORS = {'entries': 13281, 'schedules': 330, 'shared': 25, 'switches': 501260}

LOCAL = threading.local()


def log(*entry):
    LOCAL.log.append(entry)


def words(err):
    """Message of an error without the representation of values"""
    text = re.sub(r'An invalid value of .*? was specified', '...', str(err),
                  flags=re.DOTALL)
    return re.sub(r'0x[0-9a-f]+', '', text)


class World(object):
    """The classes of a run, the same for the same seed"""

    def __init__(self, seed):
        rng = random.Random(seed)
        self.registry = {}

        def plain(spec):
            # random colors, and sets of instances, are not repeatable
            return not any(word in repr(spec) for word in (
                'ColorS', 'AnyS', 'SetS'))
        self.quiet = [p.listeners_disabled(), p.observers_disabled(),
                      p.validators_disabled(),
                      p.listeners_disabled('observe_change')]

        def listen(this, change):
            log('event', change['mode'], change['name'],
                canon(change['previous']), canon(change['value']))

        def veto(this, change):
            log('veto?', change['name'], canon(change['value']))
            if change['value'] == 13:
                raise p.ValidationError('unlucky', 'invalid', change['name'],
                                        this)

        def tidy(this, change):
            # an equal value takes the place of the one given
            if isinstance(change['value'], list):
                change['value'] = list(change['value'])

        def hook(this, entries):
            log('hook', [(e.reason, e.prop) for e in entries])

        def total(this):
            return sum(this.seq) if this.seq else None

        def put(this, value):
            this.seq = [value]
        put.__name__ = 'total'
        dyn = p.Integer('computed')(total)
        dyn.setter(put)
        extra = {
            'seq': p.List('', p.Integer(''), required=False,
                          observe_mutations=True),
            'names': p.Set('', p.String(''), required=False,
                           observe_mutations=True),
            'tab': p.Dictionary('', value_prop=p.Integer(''), required=False,
                                observe_mutations=True),
            'num': p.Integer('', default=3),
            'made': p.List('', p.Integer(''), default=list),
            'either': p.Union('', [
                p.Integer('', min=0), p.List('', p.Float('', max=5)),
                p.Dictionary('', value_prop=p.StringChoice(
                    '', {'ab': ['a', 'b'], 'c': 'd'}))], required=False),
            'old': p.Renamed('num', warn=False),
            'total': dyn,
            '_error_hook': hook,
            'on_any': p.observer(p.everything)(listen),
            'on_num': p.observer(['num', 'seq'], change_only=True)(
                lambda this, change: listen(this, change)),
            'check_num': p.validator('num')(veto),
            'check_made': p.validator('made')(tidy),
        }
        self.shapes = shapes.family(rng, json=True, depth=1, uuids=False,
                                    registry=self.registry,
                                    spec_filter=plain)
        self.shapes[-1] = shapes.Shape(
            rng, 'Main', depth=1, json=True, extra=extra,
            registry=self.registry, spec_filter=plain,
            pool=[shapes.InstS(rng, s) for s in self.shapes[:-1]])
        self.main = self.shapes[-1]
        # a default value may be an instance that all instances share
        self.shared = any(
            isinstance(part, p.HasProperties)
            for shape in self.shapes for field in shape.fields.values()
            if field.default
            for part in walk(field.default[0]).values())
        self.cls = self.main.cls
        ident = {'_REGISTRY': {}, '_INSTANCES': {}, 'num': p.Integer(''),
                 'on': p.observer(p.everything)(lambda this, change: log(
                     'uid event', change['name'], change['mode'],
                     canon(change['value'])))}
        self.uid = type('Ident', (HasUID,), ident)
        self.node = type('Node', (self.uid,), {
            'to': Pointer('', self.uid, required=False)})
        self.single = type('Single', (Singleton,), {
            '_REGISTRY': {}, '_SINGLETONS': {}, 'num': p.Integer(''),
            'made': p.List('', p.Integer(''), default=list)})
        self.same = {}
        self.mine = [type('List%d' % i, (list,), {}) for i in range(2)]


class Program(object):
    """The operations of one thread"""

    def __init__(self, seed, me, size):
        self.me = me
        rng = random.Random(seed)
        self.ops = [(rng.choice(OPS), rng.random()) for _ in range(size)]

    def run(self, world):
        LOCAL.log = []
        self.world, self.objs, self.made = world, [], 0
        # the first instances are made under the schedule, too
        for name, seed in [('new', 0), ('new', 1)] + self.ops:
            self.rng = random.Random('%s %s' % (name, seed))
            log('op', name)
            try:
                getattr(self, 'op_' + name)()
            except (ValueError, TypeError, AttributeError, KeyError,
                    IndexError) as err:
                log('error', type(err).__name__, words(err),
                    [(e.reason, e.prop, e.instance.__class__.__name__)
                     for e in getattr(err, 'error_tuples', [])])
            for obj in self.objs:
                log('state', canon(obj))
            self.step()
        return LOCAL.log

    def step(self):
        """Called after each operation"""

    def pick(self):
        return self.rng.choice(self.objs)

    def op_new(self):
        kw = self.world.main.good_kwargs(self.rng)
        if self.rng.random() < 0.3:
            kw['num'] = self.rng.choice([13, 5, 'x'])
        if self.rng.random() < 0.3:
            kw['seq'] = [1, 2]
        obj = self.world.cls(**kw)
        self.objs = (self.objs + [obj])[-4:]

    def op_set(self):
        obj = self.pick()
        field = self.rng.choice(list(self.world.main.settable()))
        bad = self.rng.random() < 0.3
        val = field.spec.bad(self.rng) if bad else field.spec.good(self.rng)
        setattr(obj, field.name, val)

    def op_num(self):
        obj = self.pick()
        val = self.rng.choice([1, 3, 4, 13, 'no', 2.5, True])
        setattr(obj, self.rng.choice(['num', 'old', 'total']), val)

    def op_either(self):
        obj = self.pick()
        for _ in range(3):
            val = self.rng.choice([4, -4, [1.5, 2], [1, 9.5], {'k': 'a'},
                                   {'k': 'x', 'l': 'd'}, 'no', 2.5])
            try:
                obj.either = val
            except ValueError as err:
                log('refused', words(err))

    def op_delete(self):
        obj = self.pick()
        names = [f.name for f in self.world.main.settable()] + ['num', 'seq']
        delattr(obj, self.rng.choice(names))

    def op_reset(self):
        self.pick()._reset()

    def op_quiet(self):
        obj = self.pick()
        how = self.rng.choice([
            self.world.quiet[self.rng.randrange(4)],
            p.listeners_disabled(), p.observers_disabled(),
            p.validators_disabled()])
        with how:
            obj.num = self.rng.choice([13, 1, 2])
            if self.rng.random() < 0.5:
                with p.observers_disabled():
                    obj.seq = [self.rng.randint(0, 3)]
            obj.num = 8
        obj.num = self.rng.choice([9, 13])

    def op_mutate(self):
        obj = self.pick()
        roll = self.rng.random()
        if roll < 0.5:
            if obj.seq is None:
                obj.seq = self.rng.choice(self.world.mine + [list])([4])
            obj.seq.append(self.rng.choice([1, 2, 'x']))
            obj.seq += [5]
            log('popped', obj.seq.pop())
        elif roll < 0.8:
            if obj.names is None:
                obj.names = {'a'}
            obj.names.add(self.rng.choice(['b', 'a', 7]))
            obj.names |= {'c'}
        else:
            if obj.tab is None:
                obj.tab = {'a': 1}
            obj.tab['b'] = self.rng.choice([1, 2, 'x'])
            log('popped', obj.tab.pop('b'))

    def op_validate(self):
        log('valid', self.pick().validate())

    def op_json(self):
        obj = self.pick()
        data = obj.serialize(save_dynamic=self.rng.random() < 0.5)
        log('json', canon(data))
        back = self.world.cls.deserialize(
            data, trusted=self.rng.random() < 0.5)
        log('back', canon(back), p.equal(back, obj))
        back.num = 2

    def op_copy(self):
        obj = self.pick()
        twin = p.copy(obj)
        log('twin', p.equal(twin, obj), canon(twin))
        twin.num = 6
        log('unlike', p.equal(twin, obj))

    def op_equal(self):
        log('equal', p.equal(self.pick(), self.pick()))

    def op_link(self):
        if len(self.objs) < 2:
            return
        one, two = self.rng.sample(self.objs, 2)
        both = p.link((one, 'num'), (two, 'num'))
        one.num = self.rng.choice([21, 22])
        two.num = 23
        both.unlink()
        one.num = 24

    def op_define(self):
        name = 'Kind_%s_%d' % (self.me, self.made)
        self.made += 1
        cls = type(name, (self.world.cls,), {
            'further': p.String('', default='f'),
            '_defaults': {'num': 5}})
        obj = cls()
        data = obj.serialize()
        back = self.world.cls.deserialize(data, trusted=True)
        log('class', type(back) is cls, canon(data),
            re.sub('0x[0-9a-f]+', '', cls.__doc__))
        obj.further = 'g'

    def op_uid(self):
        name = 'id %s %d' % (self.me, self.made)
        self.made += 1
        obj = self.world.node(uid=name, num=4)
        obj.to = self.world.uid(uid=name + ' to', num=5)
        data = obj.serialize()
        log('uid', canon(data), self.world.node.load(name) is obj,
            len(self.world.node().uid))
        for key in (name, name + ' to'):
            self.world.node._INSTANCES.pop(key)
        back = self.world.node.deserialize(data)
        log('uid back', back.uid, back.to.uid, back.to.num)
        try:
            self.world.uid(uid=name)
        except ValueError:
            log('used')

    def op_single(self):
        name = 'single %s %d' % (self.me, self.made)
        self.made += self.rng.randint(0, 1)
        obj = self.world.single(name, num=3)
        obj.num = self.rng.randint(0, 4)
        log('single', self.world.single(name) is obj, canon(obj.serialize()),
            self.world.single.deserialize(obj.serialize()) is obj)

    def op_shared(self):
        name = self.rng.choice(['one', 'two'])
        obj = self.world.single(name)
        self.world.same.setdefault(name, []).append(obj)
        log('shared', obj.name)

    def op_error(self):
        kw = {'num': self.rng.choice(['x', 13]), 'seq': 'no',
              'tab': self.rng.choice([{'a': 'x'}, {}])}
        self.world.cls(**kw)


OPS = sorted(name[3:] for name in vars(Program) if name.startswith('op_'))
OPS += ['new', 'set', 'num', 'quiet', 'quiet', 'mutate']


def compare(ctx, want, got, what, trace):
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            ops = [e[1] for e in got[:i + 1] if e[0] == 'op']
            ctx.fail('%s differs from the program run alone' % what,
                     'operation %d: %s' % (len(ops), ops[-1:]),
                     'alone: %r' % (a,), 'now: %r' % (b,),
                     'last switches: %r' % (trace[-6:],))
    ctx.check(len(want) == len(got), '%s did more or less than the program '
              'run alone' % what, want[len(got):][:3], got[len(want):][:3])


def run_case(ctx):
    rng = ctx.rng
    base = rng.random()
    while World(base).shared:
        base = rng.random()
    n = rng.choice([2, 2, 2, 3])
    programs = [Program('%s %d' % (base, i), i, rng.randint(4, 9))
                for i in range(n)]
    after = Program('%s after' % base, 'after', 6)
    want, length = [], 0
    meter = Schedule(rng)
    world = World(base)
    for prog in programs:
        want.append(None)

        def alone(k=len(want) - 1, prog=prog):
            want[k] = prog.run(world)
        err = meter.run([alone])[0]
        if err is not None:
            raise err
    want_after = after.run(World(base))
    for log_ in want:
        ctx.count('entries', len(log_))
    length = meter.lines
    before = sys.getswitchinterval()
    for _ in range(3):
        if rng.random() < 0.5:
            sched = Schedule(rng, gap=rng.choice([1, 2, 5, 15, 50, 200]))
        else:
            sched = Schedule(rng, points=[rng.randint(1, length)
                                          for _ in range(rng.randint(1, 6))])
        world = World(base)
        got = [None] * n

        def main(k):
            got[k] = programs[k].run(world)
        errors = sched.run([lambda k=k: main(k) for k in range(n)])
        ctx.note('schedule', n, 'threads', sched.gap, len(sched.trace),
                 'switches', sched.lines, 'lines', sched.trace[:8])
        ctx.count('schedules')
        ctx.count('switches', len(sched.trace))
        if sched.hung or sched.stalled:
            ctx.count('stalled')
        if sched.hung:
            ctx.fail('threads wait for each other', sched.trace[-6:])
        if sched.trace:
            ctx.nontrivial(sched.trace)
        for err in errors:
            if err is not None:
                raise err
        for k in range(n):
            compare(ctx, want[k], got[k], 'a thread', sched.trace)
        for name, objs in world.same.items():
            ctx.count('shared', len(objs) > 1)
            ctx.check(all(o is objs[0] for o in objs), 'threads asking for '
                      'the same name got different singletons', name,
                      sched.trace[-6:])
        # nothing remains
        compare(ctx, want_after, after.run(World(base)), 'a later program',
                sched.trace)
    assert sys.getswitchinterval() == before
