"""C07: disabling listeners against a model stack of disabled kinds"""
import properties as p

from vlib.canon import canon

RULE = ('A case runs a random program of nested, reused and interrupted '
        'listener-disabling contexts (all, validators, observers, single '
        'kinds, opened inside listeners too) over several instances; every '
        'set, delete, reset, validation, construction and container mutation '
        'in it is checked for exactly the listener kinds that a model stack '
        'leaves enabled. Non-trivial: operations inside at least one '
        'context.')
CASES = {'quick': 3600, 'thorough': 28800}
FLOORS = {'bad_kinds': 1371, 'changed_kinds': 1687, 'contexts': 12275,
          'contexts_in_listeners': 559, 'exceptions_through': 2887, 'fired':
          30725, 'nested_same': 1212, 'operations': 41612, 'reused': 6195,
          'silenced': 82644}

KINDS = ('validate', 'observe_change', 'observe_set')


class Boom(Exception):
    """Leaves contexts abruptly"""


def run_case(ctx):
    rng = ctx.rng
    log = []
    inside = []        # programs listeners run inside themselves

    def listen(inst, change):
        log.append((change['mode'], change['name'], objs.index(inst)
                    if inst in objs else -1))
        if inside:
            prog = inside.pop()
            prog(inst)
    namespace = {
        'a': p.Integer('int', required=False, default=1),
        'b': p.List('list', p.Integer(''), required=False,
                    observe_mutations=True),
        'c': p.String('text', required=False),
        '_REGISTRY': {},
    }
    fun = {}
    for kind in KINDS:
        fun[kind] = lambda s, c: listen(s, c)
    namespace['v'] = p.validator(['a', 'b', 'c'])(fun['validate'])
    namespace['oc'] = p.observer(['a', 'b', 'c'], change_only=True)(
        fun['observe_change'])
    namespace['os'] = p.observer(p.everything)(fun['observe_set'])
    cls = type('Watched', (p.HasProperties,), namespace)
    objs = []
    objs += [cls() for _ in range(rng.randint(1, 3))]
    extra = set()
    for i, obj in enumerate(objs):
        if rng.random() < 0.4:
            p.observer(obj, 'c', listen)
            extra.add(i)
    reuse = [p.listeners_disabled(), p.validators_disabled(),
             p.observers_disabled(), p.listeners_disabled('observe_set'),
             p.listeners_disabled(['validate', 'observe_change'])]
    reuse_kinds = [set(KINDS), {'validate'}, {'observe_set',
                                              'observe_change'},
                   {'observe_set'}, {'validate', 'observe_change'}]
    active = []

    def fresh():
        roll = rng.random()
        if roll < 0.25:
            return p.listeners_disabled(), set(KINDS)
        if roll < 0.4:
            return p.validators_disabled(), {'validate'}
        if roll < 0.55:
            return p.observers_disabled(), {'observe_set', 'observe_change'}
        kinds = rng.sample(KINDS, rng.randint(0, 3))
        form = rng.choice([set, list, tuple])
        if len(kinds) == 1 and rng.random() < 0.6:
            return p.listeners_disabled(kinds[0]), set(kinds)
        given = form(kinds)
        context = p.listeners_disabled(given)
        if form is not tuple:
            # what the caller does with its container later is no matter
            late = rng.choice([(), KINDS, ('nonsense',)])
            given.clear()
            (given.update if form is set else given.extend)(late)
            ctx.count('changed_kinds')
        return context, set(kinds)

    def expect(off, name, i, changed, is_set=True, n=1):
        """Events of one store"""
        want = []
        for _ in range(n):
            if 'validate' not in off:
                want.append(('validate', name, i))
            if changed and 'observe_change' not in off:
                want.append(('observe_change', name, i))
            if 'observe_set' not in off:
                want.append(('observe_set', name, i))
                if name == 'c' and i in extra:
                    want.append(('observe_set', name, i))
        return want

    def verify(off, want, what):
        ctx.count('operations')
        ctx.count('fired', len(log))
        ctx.count('silenced', len(off))
        if active:
            ctx.nontrivial(what, sorted(off), want, len(active))
        ctx.check(sorted(log) == sorted(want), 'wrong listeners fired with '
                  '%s disabled' % sorted(off), what, 'fired %r' % (log,),
                  'expected %r' % (want,))
        del log[:]

    def one_op(off):
        i = rng.randrange(len(objs))
        obj = objs[i]
        roll = rng.random()
        if roll < 0.35:
            name = rng.choice('ac')
            val = rng.randint(0, 3) if name == 'a' else rng.choice('xyz')
            changed = getattr(obj, name) != val
            setattr(obj, name, val)
            ctx.check(getattr(obj, name) == val, 'value not stored')
            verify(off, expect(off, name, i, changed), 'set')
        elif roll < 0.45:
            old = canon(obj.a)
            try:
                obj.a = 'not a number'
                ctx.fail('property validation was disabled')
            except ValueError:
                pass
            ctx.check(canon(obj.a) == old, 'invalid value stored')
            verify(off, [], 'invalid set')
        elif roll < 0.55:
            name = rng.choice('abc')
            changed = getattr(obj, name) is not None
            delattr(obj, name)
            ctx.check(getattr(obj, name) is None, 'not deleted')
            verify(off, expect(off, name, i, changed), 'del')
        elif roll < 0.65:
            changed = obj.a != 1
            obj._reset('a')
            verify(off, expect(off, 'a', i, changed), 'reset')
        elif roll < 0.75:
            if obj.b is None:
                obj.b = []
                verify(off, expect(off, 'b', i, True), 'set list')
            obj.b.append(len(obj.b))
            verify(off, expect(off, 'b', i, True), 'append')
        elif roll < 0.83:
            if rng.random() < 0.5:
                cls()
                verify(off, [], 'construct')
            else:
                cls(a=5)
                verify(off, expect(off, 'a', -1, True), 'construct with')
        elif roll < 0.91:
            obj.validate()
            want = [('validate', n, i) for n in 'abc'
                    if getattr(obj, n) is not None
                    and 'validate' not in off]
            # property checks may notify validators once per stored value
            verify(off, want, 'validate')
        else:
            p.copy(obj)
            verify(off, [], 'copy')

    def off_now():
        out = set()
        for kinds in active:
            out |= kinds
        return out

    def nested_in_listener(off):
        """A listener opens contexts and sets other properties"""
        i = rng.randrange(len(objs))
        enabled = [k for k in KINDS if k not in off]
        if not enabled:
            return
        man, kinds = fresh()
        boom = rng.random() < 0.3

        def prog(inst):
            keep = list(log)
            del log[:]
            active.append(kinds)
            try:
                with man:
                    one_op(off_now())
                    if boom:
                        raise Boom
            except Boom:
                pass
            finally:
                active.pop()
            one_op(off_now())
            log[:] = keep
        inside.append(prog)
        setattr(objs[i], 'a', 1)
        setattr(objs[i], 'a', 2)
        ctx.check(not inside, 'no enabled listener fired')
        del log[:]
        ctx.count('contexts_in_listeners')

    def block(depth):
        for _ in range(rng.randint(1, 4)):
            roll = rng.random()
            off = off_now()
            if roll < 0.45 or depth >= 5:
                one_op(off)
            elif roll < 0.5:
                ctx.count('bad_kinds')
                for bad in ('observe', ['validate', 'nope'], 5):
                    try:
                        p.listeners_disabled(bad)
                        ctx.fail('unknown listener kind accepted', bad)
                    except TypeError:
                        pass
                one_op(off)
            elif roll < 0.55:
                nested_in_listener(off)
            else:
                if rng.random() < 0.5:
                    k = rng.randrange(len(reuse))
                    man, kinds = reuse[k], reuse_kinds[k]
                    ctx.count('reused')
                    if any(kinds is a for a in active):
                        ctx.count('nested_same')
                else:
                    man, kinds = fresh()
                ctx.count('contexts')
                ctx.note('enter', sorted(kinds), 'depth', depth)
                boom = rng.random() < 0.25
                active.append(kinds)
                try:
                    with man:
                        block(depth + 1)
                        if boom:
                            ctx.count('exceptions_through')
                            raise Boom
                except Boom:
                    if rng.random() < 0.2 and depth > 1:
                        raise
                finally:
                    active.pop()
                one_op(off_now())
    try:
        block(0)
    except Boom:
        pass
    del active[:]
    for _ in range(3):
        one_op(set())
