"""C32: exceptions from user code pass through and leave everything usable"""
import random

import properties as p
from properties.extras import BaseInput, BaseOutput, BaseTask, HasUID, \
    Pointer, Singleton

from vlib.canon import canon, stored_names

RULE = ('A case draws classes that call user code everywhere (property '
        'types, defaults, serializers, getters, setters, listeners of all '
        'modes, class validators, error hooks, constructors, comparison and '
        'hashing of values, link transforms, identifier hooks, tasks), runs '
        'a random history, then one call in which the k-th piece of user '
        'code raises; the exception must arrive, values must be the old or '
        'the intended ones, and everything done afterwards must go exactly '
        'as on instances rebuilt from the values. Non-trivial: a fault that '
        'fired, by call, place, depth and kind of exception.')
CASES = {'quick': 700, 'thorough': 10000}
FLOORS = {'callbacks': 2097, 'escaped': 71, 'faults': 1011, 'later_calls':
          9681, 'refused': 40, 'values': 27370, 'without_callbacks': 20}


class Boom(Exception):
    """An exception that means nothing to the library"""


class Halt(BaseException):
    """Like KeyboardInterrupt"""


KINDS = [Boom, Boom, Halt, Halt, ValueError, TypeError, AttributeError,
         KeyError, IndexError, StopIteration, RecursionError, OSError,
         lambda: p.ValidationError('broken', 'broken')]


class Fault(object):
    """Raises at the k-th call of user code"""

    def __init__(self):
        self.calls, self.at, self.error, self.on = [], None, None, False

    def arm(self, at=None, error=None):
        self.calls, self.at, self.error, self.on = [], at, error, True

    def touch(self, place):
        if not self.on:
            return
        self.calls.append(place)
        if self.at == len(self.calls):
            raise self.error


class Odd(object):
    """A value whose comparison and hash are user code"""
    canon_state = True

    def __init__(self, num):
        self.num = num

    def __eq__(self, other):
        Odd.touch('compare')
        return isinstance(other, Odd) and other.num == self.num

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        Odd.touch('hash')
        return self.num

    touch = staticmethod(lambda place: None)


class Slow(list):
    """A list whose iteration is user code"""

    def __iter__(self):
        for val in list.__iter__(self):
            Odd.touch('iterate')
            yield val


class World(object):

    def __init__(self, seed):
        rng = random.Random(seed)
        self.fault = fault = Fault()
        touch = fault.touch
        Odd.touch = staticmethod(touch)
        self.log = []
        self.objs = []
        self.names = 0
        self.vague = False     # may comparison look like validation?
        self.seen = []         # objects that user code has been given
        world, show = self, self.show

        class Tick(p.Property):
            """Small numbers; every method is user code"""
            class_info = 'a small number'

            def validate(self, instance, value):
                touch('validate')
                if not isinstance(value, int) or value > 50:
                    self.error(instance, value)
                return value

            def equal(self, value_a, value_b):
                touch('equal')
                return value_a == value_b

            @staticmethod
            def to_json(value, **kwargs):
                touch('to_json')
                return value

            @staticmethod
            def from_json(value, **kwargs):
                touch('from_json')
                return value

        def make_default():
            touch('default')
            return 7

        def pack(value, **kwargs):
            touch('serializer')
            return {'packed': value}

        def unpack(value, **kwargs):
            touch('deserializer')
            return value['packed']

        def listen(this, change):
            world.see(this)
            touch('%s event %s' % (type(this).__name__, change['mode']))
            world.log.append((change['mode'], change['name'],
                              show(change['previous']),
                              show(change['value'])))

        def check(this, change):
            world.see(this)
            touch('check')
            if change['value'] == 13:
                raise p.ValidationError('unlucky', 'unlucky', change['name'],
                                        this)

        def hook(this, entries):
            world.see(this)
            touch('hook')
            world.log.append(('hook', [(e.reason, e.prop) for e in entries]))

        def whole(this):
            world.see(this)
            touch('whole')
            return this.num != 42

        def total(this):
            touch('getter')
            return this.num

        def put(this, value):
            touch('setter')
            this.num = value
            touch('setter end')
        put.__name__ = 'total'

        def drop(this):
            touch('deleter')
            del this.num
        drop.__name__ = 'total'

        class Plain(object):
            """Made by Instance properties"""
            canon_state = True

            def __init__(self, num=0):
                touch('constructor')
                self.num = num

        registry = {}
        kid = {'_REGISTRY': registry, 'tick': Tick('', default=make_default),
               'name': p.String('', required=False),
               '_error_hook': hook, 'check_whole': p.validator(
                   lambda this: touch('whole')),
               'on': p.observer(p.everything)(listen)}
        self.Kid = type('Kid', (p.HasProperties,), kid)
        dyn = p.Integer('computed')(total)
        dyn.setter(put)
        dyn.deleter(drop)
        body = {
            '_REGISTRY': registry,
            'num': p.Integer('', default=make_default),
            'old': p.Renamed('num', warn=False),
            'tick': Tick('', default=make_default),
            'seq': p.List('', Tick(''), observe_mutations=True,
                          required=False),
            'two': p.Tuple('', Tick(''), required=False, max_length=3),
            'bag': p.Set('', p.Property(''), observe_mutations=True,
                         required=False),
            'tab': p.Dictionary('', value_prop=Tick(''), required=False,
                                observe_mutations=True),
            'alt': p.Union('', [Tick(''), p.List('', Tick('')), self.Kid],
                           required=False),
            'raw': p.Property('', required=False, serializer=pack,
                              deserializer=unpack),
            'odd': p.Property('', required=False, serializer=lambda v: v.num,
                              deserializer=Odd),
            'kid': p.Instance('', self.Kid, default=self.Kid),
            'kids': p.List('', self.Kid, required=False),
            'plain': p.Instance('', Plain, required=False,
                                serializer=lambda v: v.num,
                                deserializer=Plain),
            'total': dyn,
            '_error_hook': hook,
            'on_all': p.observer(p.everything)(listen),
            'on_change': p.observer(
                rng.sample(['num', 'seq', 'tick', 'odd', 'tab'], 3),
                change_only=True)(lambda this, change: listen(this, change)),
            'check_num': p.validator('num')(check),
            'check_tick': p.validator(['tick', 'seq'])(
                lambda this, change: check(this, change)),
            'check_whole': p.validator(whole),
        }
        names = [n for n in body if not n.startswith('_')]
        rng.shuffle(names)
        self.Node = type('Node', (p.HasProperties,), dict(
            [(n, body[n]) for n in names], _REGISTRY=registry,
            _error_hook=hook))

        def validate_uid(cls, uid):
            touch('validate_uid')
            return True

        def load(cls, uid):
            touch('load')
            return cls._INSTANCES.get(uid)

        self.Ident = type('Ident', (HasUID,), {
            '_REGISTRY': {}, '_INSTANCES': {}, 'tick': Tick(''),
            'kids': p.List('', self.Kid, required=False),
            'validate_uid': classmethod(validate_uid),
            'load': classmethod(load)})
        self.Ident.next = None
        self.Holder = type('Holder', (self.Ident,), {
            'to': Pointer('', self.Ident, load=rng.random() < 0.5,
                          required=False),
            'on': p.observer(['to', 'tick'])(listen)})
        self.Single = type('Single', (Singleton,), {
            '_REGISTRY': {}, '_SINGLETONS': {}, 'tick': Tick(''),
            'kid': p.Instance('', self.Kid),
            'on': p.observer(['tick', 'kid'])(listen)})
        self.Plain = Plain

        self.Input = type('Input', (BaseInput,), {
            '_REGISTRY': registry, 'tick': Tick(''),
            'check': p.validator(lambda this: touch('whole'))})
        self.Output = type('Output', (BaseOutput,), {
            '_REGISTRY': registry, 'tick': Tick('')})

        def run(this, given):
            touch('run')
            return self.Output(tick=given.tick)
        self.Task = type('Task', (BaseTask,), {
            'Input': self.Input, 'Output': self.Output, 'run': run,
            '_REGISTRY': {}})
        self.task = self.Task()
        self.quiet = [p.listeners_disabled(), p.observers_disabled(),
                      p.validators_disabled()]

        def transform(value):
            touch('transform')
            return value
        ends = [self.Node(), self.Node()]
        self.objs += ends
        self.links = [
            p.directional_link((ends[0], 'num'), (ends[1], 'num'),
                               transform=transform),
            p.link((ends[0], 'tick'), (ends[1], 'tick'))]
        self.log[:] = []

    def see(self, obj):
        """User code may keep what it is given"""
        if self.fault.on and isinstance(obj, (self.Node, self.Kid)) and \
                not any(obj is o for o in self.seen):
            self.seen.append(obj)

    # ------------------------------------------------ state and its transfer

    def state(self):
        out = {}
        for i, obj in enumerate(self.objs):
            for name in stored_names(obj):
                out[i, name] = canon(getattr(obj, name))
        for name, obj in self.Single._SINGLETONS.items():
            for prop in stored_names(obj):
                out[name, prop] = canon(getattr(obj, prop))
        return out

    def clone(self, val, memo):
        """The same value of this world's classes"""
        if id(val) in memo:
            return memo[id(val)]
        if isinstance(val, p.HasProperties):
            cls = getattr(self, type(val).__name__)
            if isinstance(val, Singleton):
                out = cls(val._singleton_id)
            elif isinstance(val, HasUID):
                out = cls(uid=val.uid)
            else:
                out = cls()
            memo[id(val)] = out
            self.fill(val, out, memo)
            return out
        if isinstance(val, Odd):
            return Odd(val.num)
        if type(val).__name__ == 'Plain':
            return self.Plain(val.num)
        if isinstance(val, dict):
            return {k: self.clone(v, memo) for k, v in val.items()}
        if isinstance(val, (list, tuple, set)):
            base = [b for b in (Slow, list, tuple, set)
                    if isinstance(val, b)][0]
            return base([self.clone(v, memo) for v in val])
        return val

    def fill(self, obj, out, memo):
        with p.listeners_disabled():
            for name in stored_names(obj):
                val = getattr(obj, name)
                if name == 'uid':
                    continue
                if val is None:
                    delattr(out, name)
                else:
                    setattr(out, name, self.clone(val, memo))

    def take(self, other):
        """Become what another world looks like"""
        memo = {}
        for a, b in zip(other.objs, self.objs):
            memo[id(a)] = b
            self.fill(a, b, memo)
        for obj in other.objs[len(self.objs):]:
            self.objs.append(self.clone(obj, memo))
        for obj in other.Single._SINGLETONS.values():
            self.clone(obj, memo)
        self.names = other.names
        self.log[:] = []

    # --------------------------------------------------------------- calls

    def node(self):
        return self.rng.choice([o for o in self.objs
                                if isinstance(o, self.Node)])

    def value(self, name):
        rng = self.rng
        num = rng.choice([1, 2, 7, 13, 13, 99, 'no'])
        many = [rng.randint(0, 4) for _ in range(rng.randint(0, 3))]
        if rng.random() < 0.15:
            many.append('no')
        return {
            'num': lambda: num, 'tick': lambda: num, 'old': lambda: num,
            'total': lambda: num,
            'seq': lambda: rng.choice([list, Slow])(many),
            'two': lambda: tuple(many),
            'bag': lambda: {Odd(v) for v in many if v != 'no'},
            'tab': lambda: dict(zip('abc', many)),
            'alt': lambda: rng.choice([num, many, {'tick': num}, Slow(many)]),
            'raw': lambda: rng.choice([num, 'text']),
            'odd': lambda: Odd(rng.randint(0, 2)),
            'kid': lambda: rng.choice([{'tick': num}, self.Kid(name='a')]),
            'kids': lambda: [{'tick': v} for v in many],
            'plain': lambda: rng.choice([num, self.Plain(3), {'num': 4}]),
        }[name]()

    def call(self, op, seed):
        """Prepares a call: what is done before user code may fail"""
        self.rng = random.Random('%s %s' % (op, seed))
        return getattr(self, 'op_' + op)()

    def op_set(self):
        obj, name = self.node(), self.rng.choice(NAMES)
        val = self.value(name)
        self.vague = name in ('num', 'tick', 'old', 'total', 'alt')
        return lambda: setattr(obj, name, val)

    op_again = op_set

    def op_delete(self):
        obj, name = self.node(), self.rng.choice(NAMES)
        return lambda: delattr(obj, name)

    def op_reset(self):
        obj = self.node()
        name = self.rng.choice(NAMES[:-2] + [None, None])
        return lambda: obj._reset(name)

    def op_read(self):
        obj = self.node()
        return lambda: (obj.total, obj.old)

    def op_quiet(self):
        obj, name, how = self.node(), self.rng.choice(NAMES), \
            self.rng.choice(self.quiet)
        val, more = self.value(name), self.rng.choice(self.quiet)

        def func():
            with how:
                with more:
                    setattr(obj, name, val)
                self.fault.touch('body')
        return func

    def op_mutate(self):
        obj, rng = self.node(), self.rng
        num = rng.choice([1, 2, 'no'])
        was = self.fault.on
        self.fault.on = False
        kind = rng.choice(['seq', 'seq', 'tab', 'bag'])
        if kind == 'seq':
            if not obj.seq or obj.seq == 13:
                obj.seq = [3, 4]
            box = obj.seq
            func = rng.choice([
                lambda: box.append(num), lambda: box.extend([num, 3]),
                lambda: box.pop(), lambda: box.__setitem__(0, num),
                lambda: box.insert(0, num), lambda: box.reverse(),
                lambda: setattr(obj, 'seq', box + [num]),
                lambda: box.__delitem__(0), lambda: box.sort(),
                lambda: box.extend(Slow([1, num]))])
        elif kind == 'tab':
            if not obj.tab:
                obj.tab = {'a': 1}
            box = obj.tab
            func = rng.choice([
                lambda: box.update(a=num), lambda: box.pop('a', None),
                lambda: box.__setitem__('z', num),
                lambda: box.setdefault('y', num), lambda: box.popitem(),
                lambda: box.clear()])
        else:
            if not obj.bag:
                obj.bag = {Odd(1), Odd(2)}
            box = obj.bag
            func = rng.choice([
                lambda: box.add(Odd(3)), lambda: box.discard(Odd(1)),
                lambda: box.update([Odd(4)]), lambda: box.clear(),
                lambda: setattr(obj, 'bag', box | {Odd(5)})])
        self.fault.on = was
        return func

    def op_validate(self):
        obj = self.rng.choice(self.objs)
        return obj.validate

    def op_newest(self):
        obj = self.objs[-1]

        def func():
            self.log.append(obj._validate_props())
            return obj.validate()
        return func

    def op_serialize(self):
        obj, dyn = self.rng.choice(self.objs), self.rng.random() < 0.5
        return lambda: obj.serialize(save_dynamic=dyn)

    def op_deserialize(self):
        obj = self.node()
        data = self.asleep(obj.serialize)
        kw = {'trusted': self.rng.random() < 0.5,
              'assert_valid': self.rng.random() < 0.5}
        return lambda: self.keep(self.Node.deserialize(data, **kw))

    def op_copy(self):
        obj = self.node()
        return lambda: self.keep(p.copy(obj))

    def op_equal(self):
        one, two = self.node(), self.node()
        if self.rng.random() < 0.6:
            two = self.asleep(lambda: p.copy(one))
        return lambda: p.equal(one, two)

    def op_new(self):
        names = self.rng.sample(NAMES[:-1], self.rng.randint(0, 4))
        kw = {n: self.value(n) for n in names}
        return lambda: self.keep(self.Node(**kw))

    def op_uid(self):
        self.names += 1
        kw = {'uid': 'id %d' % self.names, 'tick': self.rng.choice([1, 99])}
        if self.rng.random() < 0.5:
            kw['kids'] = [{'tick': 3}]
        return lambda: self.keep(self.Holder(**kw))

    def op_pointer(self):
        self.names += 1
        name = 'id %d' % self.names
        made = self.asleep(lambda: self.Ident(uid=name, tick=3))
        holders = [o for o in self.objs if isinstance(o, self.Holder)]
        if not holders:
            holders = [self.asleep(lambda: self.Holder(uid=name + ' holder',
                                                       tick=4))]
            self.objs += holders
        obj = self.rng.choice(holders)
        val = self.rng.choice([name, made, 'missing'])
        return lambda: setattr(obj, 'to', val)

    def op_uid_back(self):
        self.names += 1
        name = 'id %d' % self.names
        obj = self.asleep(lambda: self.Holder(
            uid=name, tick=2, kids=[{'tick': 1}]))
        data = self.asleep(obj.serialize)
        self.Holder._INSTANCES.pop(name)
        return lambda: self.show(self.Holder.deserialize(data))

    def op_single(self):
        name = self.rng.choice('abc')
        kw = {'tick': self.rng.choice([1, 2, 99])}
        if self.rng.random() < 0.5:
            kw['kid'] = self.rng.choice([{'tick': 3}, {'tick': 99}])
        return lambda: self.show(self.Single(name, **kw))

    def op_single_back(self):
        name = self.rng.choice('abcd')
        data = {'_singleton_id': name, 'tick': self.rng.choice([4, 99]),
                '__class__': 'Single', 'kid': {'tick': 2}}
        valid = self.rng.random() < 0.5
        return lambda: self.show(self.Single.deserialize(
            data, assert_valid=valid))

    def op_task(self):
        num = self.rng.choice([1, 99])
        return lambda: self.task(tick=num)

    def op_relink(self):
        which = self.rng.choice(self.links)

        def func():
            which.unlink()
            which.relink()
        return func

    def op_link(self):
        one, two = self.node(), self.node()
        name = self.rng.choice(['num', 'seq', 'odd', 'tick'])
        now = self.rng.random() < 0.7

        def func():
            p.link((one, name), (two, name), update_now=now).unlink()
        # a property that holds None is not told from an unset one
        return func if getattr(one, name) is not None else one.validate

    def op_poke(self):
        ends = self.objs[:2]
        self.rng.shuffle(ends)

        def func():
            for num, end in zip((20, 22), ends):
                end.num = num
                end.tick = num + 1
                end.seq = [num]
                end.seq.append(1)
            return [(end.num, end.tick, end.validate()) for end in ends]
        return func

    def op_define(self):
        def make_default():
            self.fault.touch('default')
            return 5
        num = self.rng.choice([make_default, 6, 99])

        def func():
            cls = type('Sub', (self.Node,), {
                '_REGISTRY': {}, '_defaults': {'tick': num}})
            return self.show(cls().tick)
        return func

    def asleep(self, func):
        was, self.fault.on = self.fault.on, False
        mark = len(self.log)
        try:
            return func()
        finally:
            self.fault.on = was
            del self.log[mark:]

    def show(self, val):
        was, self.fault.on = self.fault.on, False
        try:
            return canon(val)
        finally:
            self.fault.on = was

    def keep(self, obj):
        self.objs.append(obj)
        if len(self.objs) > 5:
            del self.objs[2]
        return self.show(obj)

    def step(self, op, seed):
        """Runs a call without faults; its complete outcome"""
        self.log[:] = []
        try:
            out = ('returns', canon(self.call(op, seed)()))
        except (ValueError, TypeError, AttributeError, KeyError,
                IndexError) as err:
            out = ('raises', type(err).__name__, [
                (e.reason, e.prop) for e in getattr(err, 'error_tuples', [])])
        return out, list(self.log)


NAMES = ['num', 'tick', 'seq', 'two', 'bag', 'tab', 'alt', 'raw', 'odd',
         'kid', 'kids', 'plain', 'old', 'total']
OPS = sorted(n[3:] for n in vars(World)
             if n.startswith('op_') and n not in ('op_poke', 'op_newest'))
OPS += ['set', 'set', 'new', 'mutate', 'delete', 'deserialize', 'link']
READING = {'read', 'validate', 'serialize', 'deserialize', 'copy', 'equal',
           'new', 'uid', 'uid_back', 'single', 'single_back', 'task',
           'relink', 'define'}
BEFORE = ('validate', 'check', 'hook', 'constructor', 'load', 'default')
AFTER = ('equal', 'compare', 'Node event observe_set',
         'Node event observe_change')


def describe(op, places, k, err):
    return '%s, call %d of %d (%s) raising %s' % (
        op, k, len(places), places[k - 1], type(err).__name__)


def run_case(ctx):
    rng = ctx.rng
    base = rng.random()
    prefix = [(rng.choice(OPS), rng.random())
              for _ in range(rng.randint(0, 3))]
    op, seed = rng.choice(OPS), rng.random()
    suffix = [(op, seed)] + [(rng.choice(OPS), rng.random())
                             for _ in range(4)] + [
        ('poke', rng.random()), ('validate', 1), ('equal', 2),
        ('single', 4)]
    if rng.random() < 0.5:
        suffix.insert(0, ('poke', rng.random()))

    def start():
        world = World(base)
        for name, s in prefix:
            world.step(name, s)
        world.log[:] = []
        return world
    ref = start()
    func = ref.call(op, seed)
    pre = ref.state()
    ref.fault.arm()
    failed = None
    try:
        func()
    except (ValueError, TypeError, AttributeError, KeyError,
            IndexError) as err:
        failed = err
    ref.fault.on = False
    places = ref.fault.calls
    done = ref.state()
    ctx.count('callbacks', len(places))
    if not places:
        ctx.count('without_callbacks')
        return
    for k in sorted(rng.sample(range(1, len(places) + 1),
                               min(4, len(places)))):
        error = rng.choice(KINDS)()
        what = describe(op, places, k, error)
        ctx.note('history', [n for n, _ in prefix], what)
        world = start()
        func = world.call(op, seed)
        world.fault.arm(k, error)
        caught = None
        try:
            func()
        except BaseException as err:          # pylint: disable=broad-except
            caught = err
        world.fault.on = False
        ctx.count('faults')
        ctx.nontrivial((op, places[k - 1], k, type(error).__name__,
                        failed is None))
        if world.fault.calls[:k] != places[:k]:
            ctx.fail('the same call runs other user code', what,
                     places[:k], world.fault.calls[:k])
        if isinstance(error, (Boom, Halt)):
            ctx.check(caught is error, 'an exception of user code does not '
                      'arrive', what, repr(caught)[:200])
        elif op in ('set', 'delete', 'reset') and places[k - 1] in (
                'Node event observe_set', 'Node event observe_change',
                'setter', 'deleter', 'setter end'):
            ctx.check(caught is error, 'an exception of user code does not '
                      'arrive', what, repr(caught)[:200])
        # values: old ones or the intended ones
        now = world.state()
        if caught is not None:
            for key in pre:
                ctx.count('values')
                allowed = {repr(pre[key])}
                if op not in READING:
                    allowed.add(repr(done.get(key)))
                ctx.check(repr(now.get(key)) in allowed, 'a failed call left '
                          'a value that is neither old nor intended', what,
                          key, pre[key], now.get(key), done.get(key))
            ctx.check(set(now) == set(pre), 'a failed call left something '
                      'behind', what, set(now) ^ set(pre))
            if (op in ('set', 'mutate') and not world.vague and
                    places[k - 1] in BEFORE):
                if not any(where in AFTER for where in places[:k]):
                    ctx.count('refused')
                    ctx.check(now == pre, 'a value changed although user '
                              'code failed before', what)
        # an object that was being made may have been kept by user code
        escaped = [o for o in world.seen
                   if not any(o is held for held in world.objs)]
        if caught is not None and escaped and len(world.objs) < 5:
            world.objs.append(escaped[-1])
            ctx.count('escaped')
            now = world.state()
        # everything goes on as on instances rebuilt from the values
        twin = World(base)
        twin.take(world)
        ctx.check(twin.state() == now, 'rebuilding failed', what,
                  [(k2, now.get(k2), twin.state().get(k2)) for k2 in now
                   if now.get(k2) != twin.state().get(k2)][:2])
        tail = [('newest', 1)] + suffix if escaped else suffix
        for i, (name, s) in enumerate(tail):
            Odd.touch = staticmethod(world.fault.touch)
            got = world.step(name, s)
            Odd.touch = staticmethod(twin.fault.touch)
            want = twin.step(name, s)
            ctx.count('later_calls')
            if got != want:
                ctx.fail('later calls go wrong after an exception', what,
                         'call %d after it: %s' % (i + 1, name),
                         'rebuilt: %r' % (want,), 'now: %r' % (got,))
            a, b = world.state(), twin.state()
            if a != b:
                ctx.fail('later values are wrong after an exception', what,
                         'call %d after it: %s' % (i + 1, name),
                         [(key, a.get(key), b.get(key)) for key in b
                          if a.get(key) != b.get(key)][:3])
