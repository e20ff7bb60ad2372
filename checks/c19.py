"""C19: links propagate in the stated direction until unlinked"""
import properties as p
import traitlets

from vlib.core import StepLimit, step_limit

RULE = ('A case builds forests of directional links (transforms, set-only '
        'and change-only, chains, several properties of one object, '
        'traitlets at either end, targets that refuse values) or overlapping '
        'mutual links, then runs random sets, repeated sets, unlinks, '
        'relinks, new links, failing updates and disabled listeners, '
        'comparing every value and the number of notifications with a model '
        'after each. Non-trivial: a step that propagates or is stopped, by '
        'structure and values.')
CASES = {'quick': 1350, 'thorough': 20000}
FLOORS = {'deleted_sources': 1666, 'disabled_sets': 213, 'failed_updates': 208,
          'inplace': 330, 'mutual_groups': 752, 'mutual_sets': 4162,
          'notifications_counted': 7243, 'propagated': 3278, 'refused_links':
          1350, 'relinked': 603, 'same_value_sets': 843, 'sets': 4982,
          'stopped_by_unlink': 4260, 'target_sets': 929, 'traitlets_items':
          660, 'update_now': 1187}
STEPS = step_limit(3000000)


class Boom(Exception):
    pass


def double(val):
    return val * 2


def negate(val):
    return -val


def clip(val):
    return max(min(val, 3), -3)


def boom(val):
    if val == 13:
        raise Boom('transform failed')
    return val + 1


class Callable(object):
    def __call__(self, val):
        return val + 100


TRANSFORMS = [None, None, double, negate, clip, boom, Callable(),
              lambda v: v + 0]
EVENTS = []


def hp_class(rng):
    def seen(self, change):
        EVENTS.append((id(self), change['name'], change['mode']))
    return type('Props', (p.HasProperties,), {
        '_REGISTRY': {},
        'a': p.Integer('', default=0),
        'b': p.Integer('', required=False),
        'f': p.Float('', default=0.),
        'small': p.Integer('', default=0, min=-50, max=50),
        'items': p.List('', p.Integer(''), default=list,
                        observe_mutations=True),
        'seq': p.List('', p.Integer(''), default=list),
        'on_set': p.observer(p.everything)(seen),
        'on_change': p.observer(p.everything, change_only=True)(seen),
    })


class Traits(traitlets.HasTraits):
    a = traitlets.Int(0)
    b = traitlets.Int(0)
    small = traitlets.Int(0, min=-50, max=50)


class Link(object):
    def __init__(self, src, dst, obj, change_only, transform):
        self.src, self.dst, self.obj = src, dst, obj
        self.change_only, self.transform = change_only, transform
        self.active = True


class Net(object):
    """Items are (object, name); every item has at most one source"""

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        cls = hp_class(rng)
        self.objs = []
        for _ in range(rng.randint(2, 5)):
            if rng.random() < 0.25:
                self.objs.append(Traits())
            else:
                self.objs.append(cls())
        self.links = []
        self.sourced = set()
        self.values = {}
        for i, obj in enumerate(self.objs):
            names = ['a', 'b', 'small']
            if isinstance(obj, p.HasProperties):
                names += ['f', 'items', 'seq']
            for name in names:
                self.values[(i, name)] = self.read((i, name))

    def read(self, item):
        val = getattr(self.objs[item[0]], item[1])
        return list(val) if isinstance(val, list) else val

    def is_hp(self, item):
        return isinstance(self.objs[item[0]], p.HasProperties)

    def above(self, item):
        """Items upstream of this one, itself included"""
        out = [item]
        while True:
            found = [l.src for l in self.links if l.dst == out[-1]]
            if not found or found[0] in out:
                return out
            out.append(found[0])

    # ---- model: each step gives new values or raises

    def accepts(self, item, val):
        if val is None:
            return False
        if item[1] == 'small':
            return -50 <= val <= 50
        return True

    def simulate(self, item, val):
        """(values after, writes per item, failed?) of a successful set"""
        values = dict(self.values)
        writes = {}
        state = {'failed': False}

        def put(where, what):
            if not self.accepts(where, what):
                state['failed'] = True
                return
            changed = values[where] != what
            values[where] = list(what) if isinstance(what, list) else what
            writes.setdefault(where, []).append(changed)
            for link in self.links:
                if link.src != where or not link.active:
                    continue
                if changed or (not link.change_only and self.is_hp(where)):
                    try:
                        new = link.transform(what) if link.transform \
                            else what
                    except Boom:
                        state['failed'] = True
                        continue
                    put(link.dst, new)
        put(item, val)
        return values, writes, state['failed']

    # ---- operations

    def add(self):
        ctx, rng = self.ctx, self.rng
        items = sorted(self.values)
        for _ in range(30):
            src, dst = rng.choice(items), rng.choice(items)
            lists = ('items', 'seq')
            if src == dst or (src[1] in lists) != (dst[1] in lists):
                continue
            if dst in self.sourced or dst in self.above(src):
                continue
            if not self.is_hp(dst) and src[1] == 'f':
                continue
            if src[1] == 'f' and dst[1] != 'f':
                continue
            break
        else:
            return
        transform = None if src[1] in ('items', 'seq') else \
            rng.choice(TRANSFORMS)
        change_only = rng.random() < 0.7
        now = rng.random() < 0.5
        kwargs = {}
        if transform is not None:
            kwargs['transform'] = transform
        if not change_only:
            kwargs['change_only'] = False
        if now:
            kwargs['update_now'] = True
        if self.values[src] is None and now:
            return
        link = Link(src, dst, None, change_only, transform)
        fails = False
        values, writes = dict(self.values), {}
        if now:
            ctx.count('update_now')
            try:
                val = self.values[src]
                val = transform(val) if transform else val
                if not self.accepts(dst, val):
                    fails = True
                else:
                    values, writes, failed = self.simulate(dst, val)
                    fails = failed
            except Boom:
                fails = True
        del EVENTS[:]
        try:
            link.obj = p.directional_link(
                (self.objs[src[0]], src[1]), (self.objs[dst[0]], dst[1]),
                **kwargs)
        except (ValueError, Boom, traitlets.TraitError) as err:
            ctx.check(fails, 'a link could not be made', err, src, dst)
            ctx.count('failed_updates')
            self.resync()
            return
        ctx.check(not fails, 'an immediate update which must fail did not',
                  src, dst, transform)
        ctx.note('link', src, dst, kwargs)
        for item in (src, dst):
            if not self.is_hp(item):
                ctx.count('traitlets_items')
        self.values = values
        self.links.append(link)
        self.sourced.add(dst)
        self.compare(writes, 'linking %r' % (kwargs,))

    def resync(self):
        for item in self.values:
            self.values[item] = self.read(item)

    def compare(self, writes, why):
        ctx = self.ctx
        for item, want in self.values.items():
            got = self.read(item)
            ctx.check(got == want and type(got) in (
                type(want), int, float), 'wrong value after %s' % why, item,
                'expected %r' % (want,), 'found %r' % (got,),
                [(l.src, l.dst, l.active, l.change_only, l.transform)
                 for l in self.links])
        for item in self.values:
            if not self.is_hp(item):
                continue
            key = (id(self.objs[item[0]]), item[1])
            sets = EVENTS.count(key + ('observe_set',))
            changes = EVENTS.count(key + ('observe_change',))
            flags = writes.get(item, [])
            ctx.count('notifications_counted', sets)
            ctx.check(sets == len(flags) and changes == sum(flags),
                      'an item was set %d times, not %d after %s' % (
                          sets, len(flags), why), item, flags)

    def assign(self, item, val, how='set'):
        ctx, rng = self.ctx, self.rng
        obj, name = self.objs[item[0]], item[1]
        values, writes, failed = self.simulate(item, val)
        reached = [l for l in self.links if l.src == item]
        ctx.note(how, item, val)
        del EVENTS[:]
        if how == 'disabled':
            ctx.count('disabled_sets')
            values = dict(self.values)
            values[item] = val
            with p.listeners_disabled():
                setattr(obj, name, val)
            self.values = values
            self.compare({}, 'a set with listeners disabled')
            return
        try:
            if how == 'inplace':
                ctx.count('inplace')
                getattr(obj, name).append(val[-1])
            else:
                setattr(obj, name, val)
        except (ValueError, Boom, traitlets.TraitError) as err:
            ctx.check(failed, 'a set failed', item, val, err)
            ctx.count('failed_updates')
            # the source keeps its new value, links remain usable
            if self.accepts(item, val):
                ctx.check(self.read(item) == val, 'the source lost its value '
                          'when a target refused it', item, val)
            old = dict(self.values)
            self.resync()
            for key, was in old.items():
                ctx.check(self.values[key] in (was, values[key]) or any(
                    self.values[key] == v for v in (was, values[key])),
                    'a failed update left a strange value', key, was,
                    self.values[key])
            return
        ctx.check(not failed, 'an update that must fail was silent', item,
                  val)
        ctx.count('sets')
        if self.values[item] == val:
            ctx.count('same_value_sets')
        if item in self.sourced:
            ctx.count('target_sets')
        ctx.count('propagated', sum(len(v) for v in writes.values()) - 1)
        ctx.count('stopped_by_unlink', sum(not l.active for l in reached))
        if reached:
            ctx.nontrivial([(l.src, l.dst, l.active, l.change_only,
                             str(l.transform)[:12]) for l in self.links],
                           item, val, self.values[item])
        self.values = values
        self.compare(writes, '%s %r' % (how, item))

    def step(self):
        ctx, rng = self.ctx, self.rng
        roll = rng.random()
        if roll < 0.12:
            return self.add()
        if roll < 0.24 and self.links:
            link = rng.choice(self.links)
            del EVENTS[:]
            for _ in range(rng.choice([1, 1, 2])):
                if link.active:
                    link.obj.unlink()
                else:
                    link.obj.relink()
                    ctx.count('relinked')
            # repeated calls flip nothing: both are idempotent
            link.active = not link.active
            ctx.note('unlink' if not link.active else 'relink', link.src,
                     link.dst)
            return self.compare({}, 'unlink or relink')
        items = [l.src for l in self.links if rng.random() < 0.8]
        item = rng.choice(items) if items and rng.random() < 0.7 else \
            rng.choice(sorted(self.values))
        if item[1] in ('items', 'seq'):
            val = [rng.randint(0, 3) for _ in range(rng.randint(0, 3))]
            if item[1] == 'items' and rng.random() < 0.6:
                return self.assign(item, self.values[item] + [
                    rng.randint(0, 3)], 'inplace')
        else:
            val = rng.choice([rng.randint(-5, 5), rng.randint(-60, 60), 13])
            if item[1] == 'f':
                val = float(val)
            if rng.random() < 0.12 and self.values[item] is not None:
                val = self.values[item]
        if item[1] == 'small' and not -50 <= val <= 50:
            val = 7
        how = 'set'
        if rng.random() < 0.06 and self.is_hp(item):
            how = 'disabled'
        self.assign(item, val, how)


def refused(ctx, rng):
    cls = hp_class(rng)
    one, two = cls(), Traits()
    good = (one, 'a')
    bad = rng.choice([
        (good, good), (good, (one, 'none')), (good, (two, 'none')),
        (good, [two, 'a']), (good, two), (good, (two, 'a', 1)),
        (good, (object(), 'a')), (good, (two, 5)), ((5, 'a'), good),
        (good, None)])
    flip = rng.random() < 0.5
    src, dst = bad if flip else bad[::-1]
    ctx.count('refused_links')
    for func in (lambda: p.directional_link(src, dst),
                 lambda: p.link(src, dst)):
        try:
            func()
        except ValueError:
            continue
        ctx.fail('an invalid link was made', src, dst)
    ctx.count('refused_links')
    for func in (lambda: p.link(good), lambda: p.link(),
                 lambda: p.link(good, (two, 'a'), transform=double),
                 lambda: p.directional_link(good, (two, 'a'), transform=5),
                 lambda: p.directional_link(good, (two, 'a'),
                                            transform=lambda x, y: x)):
        try:
            func()
        except ValueError:
            continue
        ctx.fail('an invalid link was made')
    one.a = 31
    ctx.check(two.a == 0, 'a refused link propagates')


def deleted(ctx, rng):
    """A deleted source is a change too: the target gets transform(None)"""
    given = []

    def word(val):
        given.append(val)
        return 'none' if val is None else str(val)
    cls = type('Optional', (p.HasProperties,), {
        '_REGISTRY': {}, 'num': p.Integer('', required=False),
        'any': p.Property('', required=False),
        'items': p.List('', p.Integer(''), required=False,
                        observe_mutations=rng.random() < 0.5),
        'word': p.String('', required=False),
        'raw': p.Property('', required=False)})
    src, dst = cls(), cls() if rng.random() < 0.7 else None
    dst = dst or src
    name = rng.choice(['num', 'any', 'items'])
    plain = name == 'any' and rng.random() < 0.5
    target = 'raw' if plain else 'word'
    kwargs = {} if plain else {'transform': word}
    for key in ('change_only', 'update_now'):
        if rng.random() < 0.5:
            kwargs[key] = rng.random() < 0.5
    link = p.directional_link((src, name), (dst, target), **kwargs)
    want = None if plain or not kwargs.get('update_now') else 'none'
    ctx.check(getattr(dst, target) == want and type(getattr(dst, target)) is
              type(want), 'wrong target of an unset source', kwargs,
              getattr(dst, target))
    for _ in range(rng.randint(2, 8)):
        was = getattr(src, name)
        if rng.random() < 0.15:
            link.unlink()
            active = False
        elif rng.random() < 0.3:
            link.relink()
            active = True
        else:
            active = not getattr(link, '_unlinked', False)
        if rng.random() < 0.5:
            delattr(src, name)
            val = None
            ctx.count('deleted_sources')
        else:
            val = rng.randint(0, 3)
            val = [val] if name == 'items' else val
            setattr(src, name, val)
        # deleting what is not set need not count as a change
        sure = val != was or (val is not None and
                              kwargs.get('change_only') is False)
        if active and sure:
            want = val if plain else 'none' if val is None else str(val)
        got = getattr(dst, target)
        ctx.check(got == want or (active and not sure and got == (
            val if plain else 'none' if val is None else str(val))),
            'the target did not follow its source', name, was, val, active,
            kwargs, 'expected %r' % (want,), 'found %r' % (got,))
        want = got


def bounded(ctx, what, func):
    STEPS.steps = 0
    try:
        return func()
    except StepLimit:
        ctx.fail('%s does not terminate' % what)
    except RecursionError:
        ctx.fail('%s recurses without bound' % what)


def mutual(ctx, rng):
    """Mutually linked groups stay equal"""
    cls = hp_class(rng)
    size = rng.randint(2, 5)
    name = rng.choice(['a', 'a', 'items', 'seq', 'b', 'f'])
    traits = name in ('a', 'b')
    change_only = rng.random() < 0.75
    if not change_only:
        size = min(size, 3)
    objs = [Traits() if traits and rng.random() < 0.3 else cls()
            for _ in range(size)]
    names = [name] * size
    if traits and rng.random() < 0.4:
        # two properties of the same object
        names[-1] = {'a': 'b', 'b': 'a'}[name]
        if rng.random() < 0.8:
            objs[-1] = objs[rng.randrange(size - 1)]
    counter = [rng.randint(0, 5)]

    def fresh():
        counter[0] += 1
        if name in ('items', 'seq'):
            return [counter[0]] * rng.randint(0, 3) + [counter[0]]
        return counter[0] if name != 'f' else float(counter[0])

    for obj, own in zip(objs, names):
        setattr(obj, own, fresh())
    groups = []             # (link, members)
    if size > 3 and rng.random() < 0.5:
        cut = rng.randint(1, size - 2)
        plan = [list(range(0, cut + 1)), list(range(cut, size))]
    else:
        plan = [list(range(size))]

    def value(i):
        val = getattr(objs[i], names[i])
        return list(val) if isinstance(val, list) else val

    vals = [value(i) for i in range(size)]
    for members in plan:
        now = rng.random() < 0.5
        kwargs = {}
        if now:
            kwargs['update_now'] = True
        if not change_only:
            kwargs['change_only'] = False
        link = bounded(ctx, 'linking', lambda: p.link(
            *[(objs[i], names[i]) for i in members], **kwargs))
        ctx.count('mutual_groups')
        groups.append([link, members, True])
        if now:
            ctx.count('update_now')
            first = vals[members[0]]
            closed = closure(groups, members[0])
            for i in members:
                ctx.check(value(i) == first, 'an immediate mutual update '
                          'left different values', i, first, value(i))
            for i in closed:
                # a member which did not change passes nothing on
                ctx.check(value(i) in (first, vals[i]), 'a joined link was '
                          'updated wrongly', i, first, value(i))
                vals[i] = value(i)
        for i in range(size):
            ctx.check(value(i) == vals[i], 'linking changed a value', i)
    out = cls()
    side = None
    if rng.random() < 0.4 and name in ('a', 'b', 'f'):
        side = (rng.randrange(size), p.directional_link(
            (objs[0], names[0]), (out, name), transform=double))
        side = (0, side[1])
    for _ in range(8):
        roll = rng.random()
        if roll < 0.2:
            group = rng.choice(groups)
            if group[2]:
                group[0].unlink()
            else:
                group[0].relink()
                ctx.count('relinked')
            group[2] = not group[2]
            ctx.note('relink' if group[2] else 'unlink', group[1])
            for i in range(size):
                ctx.check(value(i) == vals[i], 'unlinking changed a value')
            continue
        i = rng.randrange(size)
        new = fresh()
        ctx.note('mutual set', i, name, new, groups)
        ctx.nontrivial('mutual', size, name, change_only, i,
                       [(g[1], g[2]) for g in groups], new)
        before = getattr(out, name)
        if name == 'items' and rng.random() < 0.5:
            new = vals[i] + [counter[0]]
            bounded(ctx, 'a mutual update',
                    lambda: getattr(objs[i], names[i]).append(counter[0]))
        else:
            bounded(ctx, 'a mutual update',
                    lambda: setattr(objs[i], names[i], new))
        ctx.count('mutual_sets')
        joined = closure(groups, i)
        ctx.count('stopped_by_unlink', size - len(joined))
        for j in range(size):
            want = new if j in joined else vals[j]
            ctx.check(value(j) == want, 'mutually linked values differ'
                      if j in joined else 'an unlinked value changed', j,
                      want, value(j), [(g[1], g[2]) for g in groups])
            vals[j] = value(j)
        if side:
            want = 2 * new if 0 in joined else before
            ctx.check(getattr(out, name) == want, 'a directional link from a '
                      'mutual group missed', want, getattr(out, name))
            if rng.random() < 0.3:
                setattr(out, name, -1 if name != 'f' else -1.)
                for j in range(size):
                    ctx.check(value(j) == vals[j], 'a target changed its '
                              'source')


def closure(groups, i):
    out = {i}
    while True:
        more = set(out)
        for _, members, active in groups:
            if active and more & set(members):
                more |= set(members)
        if more == out:
            return out
        out = more


def rings(ctx, rng):
    """Rings of directional links terminate whatever they transform to"""
    cls = hp_class(rng)
    size = rng.randint(2, 4)
    objs = [cls() for _ in range(size)]
    change_only = rng.random() < 0.7
    links = [p.directional_link(
        (objs[i], 'a'), (objs[(i + 1) % size], 'a'), change_only=change_only,
        transform=rng.choice([None, double, negate, Callable()]))
        for i in range(size)]
    for _ in range(3):
        i = rng.randrange(size)
        val = rng.randint(-5, 5)
        bounded(ctx, 'a ring of links', lambda: setattr(objs[i], 'a', val))
    for link in links:
        link.unlink()
    vals = [o.a for o in objs]
    objs[0].a = 1234
    ctx.check([o.a for o in objs[1:]] == vals[1:], 'unlinked ring moved')


def run_case(ctx):
    rng = ctx.rng
    with STEPS:
        STEPS.steps = 0
        if rng.random() < 0.5:
            net = Net(ctx, rng)
            for _ in range(rng.randint(1, 5)):
                net.add()
            for _ in range(22):
                STEPS.steps = 0
                bounded(ctx, 'a linked update', net.step)
        else:
            mutual(ctx, rng)
            mutual(ctx, rng)
            rings(ctx, rng)
        refused(ctx, rng)
        deleted(ctx, rng)
