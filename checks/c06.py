"""C06: notifications compared, event by event, with a reference interpreter"""
import properties as p

from vlib import shapes as H
from vlib import specs as S
from vlib.canon import canon, equiv

RULE = ('A case makes a class hierarchy with random class-level listeners '
        '(single names, lists, everything; all three modes) plus listeners '
        'registered on single instances at random times; listeners log, veto, '
        'replace the value, tamper with the notification or set another '
        'property. A reference interpreter predicts the whole event log of '
        'each set, delete and reset. Non-trivial: operations that should '
        'produce at least one event.')
CASES = {'quick': 3600, 'thorough': 28800}
FLOORS = {'changed_names': 1713, 'events': 46512, 'instance_listeners': 3171,
          'invalid_sets': 2091, 'nested_sets': 8764, 'operations': 18188,
          'replaced': 1507, 'unchanged_sets': 8608, 'vetoed': 1033}

ANY = '<any>'     # what later validators see of a tampered notification


def same_event(seen, want):
    return len(seen) == len(want) and all(
        w is ANY or s == w for s, w in zip(seen, want))


MODES = ['validate', 'observe_change', 'observe_set']


class Veto(ValueError):
    """From a listener"""


class Listener(object):
    """One listener: what it does and what it saw"""

    def __init__(self, tag, mode, names, action, world):
        self.tag, self.mode, self.names = tag, mode, names
        self.action, self.world = action, world

    def fire(self, inst, change):
        world = self.world
        world.seen.append((
            self.tag, world.label(inst), change['mode'], change['name'],
            canon(change['previous']), canon(change['value']),
            canon(getattr(inst, change['name']))))
        kind = self.action[0]
        if kind == 'veto' and change['name'] == self.action[1]:
            raise Veto('vetoed')
        if kind == 'replace' and change['name'] == self.action[1]:
            change['value'] = self.action[2]
        if kind == 'tamper' and self.mode == 'validate':
            change['previous'] = 'tampered'
            change['mode'] = 'tampered'
        if kind == 'set' and not world.busy:
            world.busy = True
            try:
                setattr(inst, self.action[1], self.action[2])
            finally:
                world.busy = False

    def method(self):
        def listen(inst, change):
            self.fire(inst, change)
        return listen


class World(object):
    """What really happened, and the interpreter of what should"""

    def __init__(self, shape):
        self.seen, self.want = [], []
        self.shape = shape
        self.objs = []
        self.values = []          # model values per instance
        self.listeners = []       # per instance, in registration order
        self.busy = False
        self.mbusy = False
        self.replaced = False

    def label(self, inst):
        for i, obj in enumerate(self.objs):
            if obj is inst:
                return i
        return '?'

    def run(self, ctx, i, name, value):
        """Predict the events of storing an accepted value; raises the Veto"""
        prev = self.values[i].get(name, p.undefined)
        mine = [li for li in self.listeners[i]
                if name in li.names]
        change = {'value': value, 'previous': prev}
        tampered = False
        for li in mine:
            if li.mode != 'validate':
                continue
            if tampered:
                shown_prev = shown_mode = ANY
            else:
                shown_prev, shown_mode = canon(prev), 'validate'
            self.want.append((
                li.tag, i, shown_mode, name, shown_prev,
                canon(change['value']), self.visible(i, name)))
            kind = li.action[0]
            if kind == 'veto' and li.action[1] == name:
                ctx.count('vetoed')
                raise Veto('model')
            if kind == 'replace' and li.action[1] == name:
                change['value'] = li.action[2]
                ctx.count('replaced')
            if kind == 'tamper':
                tampered = True
            if kind == 'set' and not self.mbusy:
                self.mbusy = True
                ctx.count('nested_sets')
                try:
                    self.run(ctx, i, li.action[1], li.action[2])
                finally:
                    self.mbusy = False
        new = change['value']
        if new is p.undefined:
            self.values[i].pop(name, None)
        else:
            self.values[i][name] = new
        both = prev is not p.undefined and new is not p.undefined
        changed = not (prev is p.undefined and new is p.undefined) and not (
            both and equiv(prev, new))
        if not changed:
            ctx.count('unchanged_sets')
        for mode in ('observe_change', 'observe_set'):
            if mode == 'observe_change' and not changed:
                continue
            for li in mine:
                if li.mode != mode:
                    continue
                self.want.append((li.tag, i, mode, name, canon(prev),
                                  canon(new), self.visible(i, name)))
                kind = li.action[0]
                if kind == 'set' and not self.mbusy:
                    self.mbusy = True
                    ctx.count('nested_sets')
                    try:
                        self.run(ctx, i, li.action[1], li.action[2])
                    finally:
                        self.mbusy = False

    def visible(self, i, name):
        return canon(self.values[i].get(name))


def good(rng, spec):
    """A value that is stored exactly as given"""
    for _ in range(60):
        val = spec.good(rng)
        try:
            exp = spec.model(val)
        except (S.Reject, S.Unspec):
            continue
        if isinstance(exp, S.Same):
            exp = exp.obj
        if isinstance(exp, S.Exp):
            stored = spec.build().validate(None, val)
            try:
                if S.match(exp, stored) and S.match(spec.model(stored),
                                                    stored):
                    return stored
            except (S.Reject, S.Unspec):
                pass
            continue
        if exp is not None:
            return exp
    raise S.Unspec


def draw_spec(rng, pool):
    return rng.choice([
        lambda: S.IntS(rng), lambda: S.FloatS(rng), lambda: S.StringS(rng),
        lambda: S.BoolS(rng), lambda: S.ComplexS(rng),
        lambda: S.StillColorS(rng), lambda: S.ChoiceS(rng),
        lambda: S.DateTimeS(rng),
        lambda: S.ListS(rng, elem=S.IntS(rng), observe=False),
        lambda: S.TupleS(rng, elem=S.FloatS(rng)),
        lambda: S.SetS(rng, elem=S.IntS(rng), observe=False),
        lambda: S.DictS(rng, val=S.FloatS(rng), observe=False),
        lambda: S.ArrayS(rng), lambda: rng.choice(pool),
    ])()


def run_case(ctx):
    rng = ctx.rng
    inner = H.Shape(rng, 'Inner', n=2, depth=0, spec_filter=lambda s:
                    isinstance(s, (S.IntS, S.StringS, S.BoolS)))
    pool = [H.InstS(rng, inner)]
    world = World(None)
    registry = {}
    names = rng.sample(H.NAMES, rng.randint(2, 4))
    specs = {n: draw_spec(rng, pool) for n in names}
    values = {}
    try:
        for n in names:
            values[n] = [good(rng, specs[n]) for _ in range(3)]
    except S.Unspec:
        ctx.count('skipped')
        return

    def action(mode, where):
        roll = rng.random()
        if mode == 'validate':
            if roll < 0.12:
                return ('veto', rng.choice(where))
            if roll < 0.27:
                n = rng.choice(where)
                return ('replace', n, rng.choice(
                    values[n] + [p.undefined]))
            if roll < 0.33:
                return ('tamper',)
        if roll < 0.45:
            n = rng.choice(names)
            return ('set', n, rng.choice(values[n]))
        return ('log',)

    spoiled = []

    def spoil():
        """Lists of names belong to the caller, who changes them later"""
        for given in spoiled:
            given[:] = rng.sample(names, rng.randint(0, len(names)))
            ctx.count('changed_names')
        del spoiled[:]

    def listener(tag, available, chatty=True):
        mode = rng.choice(MODES)
        style = rng.random()
        if style < 0.2:
            where, spoken = list(available), p.everything
        elif style < 0.5:
            where = rng.sample(available, rng.randint(1, len(available)))
            spoken = rng.choice([list, list, tuple])(where)
            if isinstance(spoken, list):
                spoiled.append(spoken)
        else:
            where = [rng.choice(available)]
            spoken = where[0]
        return Listener(tag, mode, where, action(mode, where), world), spoken

    def deco(li, spoken):
        if li.mode == 'validate':
            return p.validator(spoken)
        return p.observer(spoken, change_only=li.mode == 'observe_change')
    # a chain of classes; names declared gradually
    split = rng.randint(1, len(names))
    order = []
    parent = p.HasProperties
    levels = [names[:split]] + ([names[split:]] if split < len(names) else
                                [[]])
    declared = []
    for depth, level in enumerate(levels):
        namespace = {'_REGISTRY': registry}
        for n in level:
            namespace[n] = specs[n].build(required=False)
            declared.append(n)
        for k in range(rng.randint(0, 3)):
            li, spoken = listener('class%d.%d' % (depth, k), declared)
            if spoken is p.everything:
                li.names = list(names)
            order.append(li)
            namespace['listen_%d_%d' % (depth, k)] = deco(
                li, spoken)(li.method())
            ctx.note('class listener', li.tag, li.mode, spoken, li.action)
        parent = type('Level%d' % depth, (parent,), namespace)
        spoil()
    ctx.note('specs', specs)
    for i in range(rng.randint(1, 3)):
        world.objs.append(parent())
        world.values.append({})
        world.listeners.append(list(order))
    ctx.check(world.seen == [], 'listeners fired for a bare instance',
              world.seen)
    for step in range(rng.randint(6, 18)):
        i = rng.randrange(len(world.objs))
        obj = world.objs[i]
        if rng.random() < 0.15:
            li, spoken = listener('inst%d.%d' % (i, step), names)
            ctx.note('instance listener', i, li.mode, spoken, li.action)
            if li.mode == 'validate':
                p.validator(obj, spoken, li.method())
            else:
                p.observer(obj, spoken, li.method(),
                           change_only=li.mode == 'observe_change')
            spoil()
            world.listeners[i].append(li)
            ctx.count('instance_listeners')
            continue
        n = rng.choice(names)
        roll = rng.random()
        world.seen, world.want = [], []
        ctx.count('operations')
        if roll < 0.12:
            bad = specs[n].bad(rng)
            if specs[n].accepts(bad) is not False:
                continue
            ctx.note('invalid', i, n, bad)
            try:
                setattr(obj, n, bad)
                ctx.fail('an invalid value was stored', n, bad)
            except ValueError:
                pass
            ctx.count('invalid_sets')
        else:
            if roll < 0.2:
                value, do = p.undefined, lambda: delattr(obj, n)
            elif roll < 0.25:
                value, do = p.undefined, lambda: obj._reset(n)
            else:
                value = rng.choice(values[n])
                do = lambda: setattr(obj, n, value)  # noqa: E731
            ctx.note('store', i, n, value)
            try:
                world.run(ctx, i, n, value)
                stored = True
            except Veto:
                stored = False
            try:
                do()
                done = True
            except Veto:
                done = False
            ctx.check(done is stored, 'veto outcome differs', n, value)
        ctx.count('events', len(world.seen))
        if world.want:
            ctx.nontrivial(len(world.want), world.want)
        k = 0
        while k < min(len(world.seen), len(world.want)) and \
                same_event(world.seen[k], world.want[k]):
            k += 1
        if k < max(len(world.seen), len(world.want)):
            ctx.fail('event log differs from event %d on' % k,
                     'seen %r' % (world.seen[k:k + 3],),
                     'expected %r' % (world.want[k:k + 3],))
        for j, other in enumerate(world.objs):
            for name in names:
                ctx.check(canon(getattr(other, name)) ==
                          world.visible(j, name), 'stored value differs',
                          j, name, getattr(other, name),
                          world.values[j].get(name))
