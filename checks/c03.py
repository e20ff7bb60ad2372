"""C03: atomic assignment and isolated instances"""
import properties as p

from vlib import shapes as H
from vlib import specs as S
from vlib.canon import canon, walk, base_container

RULE = ('A case makes a random class and 2-4 instances and runs a random '
        'history of sets (valid, invalid, vetoed), deletes, resets and '
        'mutations of caller-side and stored containers; after every step '
        'every property of every instance is read back and compared with a '
        'model of last accepted values. Non-trivial: the step changed or '
        'tried to change a value whose outcome the model fixes.')
CASES = {'quick': 3600, 'thorough': 28800}
FLOORS = {'assigned_again': 151, 'caller_mutations': 1699, 'deletes': 2929,
          'replaced': 1008, 'resets': 3009, 'sets_accepted': 9443,
          'sets_rejected': 7063, 'states_compared': 82301, 'stored_mutations':
          248, 'vetoed': 667}


class Veto(ValueError):
    """Raised by the test's own validation listener"""


def mutate(rng, val):
    """Change a plain mutable container in place; True when changed"""
    import numpy as np
    if isinstance(val, list):
        val.append('intruder') if rng.random() < 0.6 or not val else val.pop()
    elif isinstance(val, set):
        val.add('intruder') if rng.random() < 0.6 or not val else val.pop()
    elif isinstance(val, dict):
        val['intruder'] = 1
    elif isinstance(val, np.ndarray) and val.size and val.dtype.kind in 'if' \
            and val.flags.writeable:
        val.flat[0] = 77
    else:
        return False
    return True


def plain_container(val):
    """Not one that notifies its instance"""
    base = base_container(val)
    return base in (list, set, dict) and not any(
        c.__name__.startswith('Observable') for c in type(val).__mro__)


def run_case(ctx):
    rng = ctx.rng
    inner = H.Shape(rng, 'Inner', depth=0, n=2)
    pool = [H.InstS(rng, inner)] if rng.random() < 0.5 else []
    shape = H.Shape(rng, 'Outer', depth=rng.choice([0, 1, 2]), pool=pool,
                    n=rng.randint(2, 5))
    ctx.note('class', shape)
    objs, model = [], []
    snaps = []

    def snapshot():
        return [{name: canon(getattr(obj, name)) for name in shape.fields}
                for obj in objs]

    def compare(changed=None):
        """Only the (instance, field) pair in changed may differ"""
        ctx.count('states_compared', len(objs))
        now = snapshot()
        for i, (old, new) in enumerate(zip(snaps, now)):
            for name in shape.fields:
                if (i, name) == changed:
                    continue
                ctx.check(old[name] == new[name],
                          'a value changed without being assigned',
                          'instance %d property %s' % (i, name), old[name],
                          new[name], shape)
        snaps[:] = now

    for i in range(rng.randint(2, 4)):
        obj = shape.cls()
        objs.append(obj)
        for field in shape.settable():
            exp = H.expected_default(field)
            got = getattr(obj, field.name)
            ctx.check(got is None if exp is None else S.match(exp, got),
                      'wrong initial value', field, exp, got)
    snaps[:] = snapshot()
    vetoed = None
    if rng.random() < 0.5:
        field = rng.choice(shape.settable())

        def listener(inst, change, name=field.name):
            if armed[0] == 'replace':
                change['value'] = replacement[0]
            elif armed[0]:
                during.append(canon(getattr(inst, name)))
                raise Veto('no')
        armed, during, replacement = [False], [], [None]
        vetoed = rng.randrange(len(objs))
        p.validator(objs[vetoed], field.name, listener)
        veto_name = field.name
    offered = []

    def vetoing(i, name, change):
        """Make a change that the listener refuses; True when it applies"""
        if vetoed != i or name != veto_name or rng.random() < 0.5:
            return False
        armed[0] = True
        del during[:]
        try:
            change()
            ctx.fail('a vetoed change went through', i, name)
        except ValueError as err:
            ctx.check(isinstance(err, Veto), 'lost veto error', err)
        finally:
            armed[0] = False
        ctx.check(during == [snaps[i][name]], 'the value was changed before '
                  'the change was accepted', name, during, snaps[i][name])
        ctx.count('vetoed')
        ctx.nontrivial('veto', name, snaps[i][name])
        compare()
        return True

    def replacing(i, field):
        """An operation whose value a listener replaces by another"""
        obj, name = objs[i], field.name
        new = p.undefined
        if rng.random() < 0.6:
            try:
                new = field.spec.build().validate(None, field.spec.good(rng))
            except ValueError:
                return
        roll = rng.random()
        val = p.undefined
        if roll < 0.4:
            val = field.spec.good(rng)
            if S.awkward(field.spec, val):
                return
        ctx.note('replaced', i, name, val, new)
        replacement[0] = new
        armed[0] = 'replace'
        try:
            if roll < 0.6:
                setattr(obj, name, val)
            elif roll < 0.8:
                delattr(obj, name)
            else:
                obj._reset(name)
        except ValueError:
            return compare()
        finally:
            armed[0] = False
        got = getattr(obj, name)
        if new is p.undefined:
            ctx.check(got is None, 'a value removed by a validator reads '
                      'back', field, got)
        else:
            ctx.check(got is new, 'not the value a validator chose', field,
                      new, got)
        ctx.count('replaced')
        ctx.nontrivial('replaced', field, canon(new))
        compare((i, name))

    def assign_again(i, field, val):
        """A stored container, changed in place, is assigned once more"""
        j = i if rng.random() < 0.6 else rng.randrange(len(objs))
        obj, name = objs[j], field.name
        try:
            want, exp = True, field.spec.model(val)
        except S.Reject:
            want, exp = False, None
        except S.Unspec:
            return
        if S.awkward(field.spec, val):
            return
        ctx.note('assigned again', i, j, name, val)
        try:
            setattr(obj, name, val)
            done = True
        except ValueError:
            done = False
        ctx.check(done is want, 'the outcome of assigning a stored value '
                  'again is wrong', field, val, want, done)
        ctx.count('assigned_again')
        if done:
            got = getattr(obj, name)
            ctx.check(S.match(exp, got), 'read back differs from the value '
                      'assigned again', field, val, exp, got)
            compare((j, name))
            if got is val:
                ctx.fail('the container assigned again is stored itself',
                         field, val)
            if mutate(rng, val):
                compare((i, name) if j != i else None)
        else:
            compare()

    for _ in range(rng.randint(8, 30)):
        if vetoed is not None and rng.random() < 0.06:
            replacing(vetoed, shape.fields[veto_name])
        i = rng.randrange(len(objs))
        obj = objs[i]
        field = rng.choice(shape.settable())
        name = field.name
        roll = rng.random()
        if roll < 0.5:
            if offered and rng.random() < 0.2:
                offer_name, val = rng.choice(offered)
                field = shape.fields[offer_name]
                name = offer_name
            else:
                val = field.spec.candidate(rng)
            try:
                want, exp = True, field.spec.model(val)
            except S.Reject:
                want, exp = False, None
            except S.Unspec:
                want, exp = None, None
            if val is p.undefined or S.awkward(field.spec, val):
                continue
            fire = vetoed == i and name == veto_name and rng.random() < 0.5
            if fire:
                armed[0] = True
                del during[:]
            ctx.note('set', i, name, val, 'veto' if fire else '')
            try:
                setattr(obj, name, val)
                done = True
            except ValueError as err:
                done = False
                if fire and want:
                    ctx.check(isinstance(err, Veto), 'lost veto error', err)
            if fire:
                armed[0] = False
                if done:
                    ctx.fail('a vetoed set went through', field, val)
                ctx.check(during in ([], [snaps[i][name]]), 'the value was '
                          'changed before the change was accepted', name,
                          during, snaps[i][name])
                ctx.count('vetoed')
                ctx.nontrivial('veto', field, canon(val))
                compare()
                continue
            if want is not None:
                ctx.check(done is want, 'set outcome is wrong', field, val,
                          want, done)
                ctx.nontrivial('set', field, canon(val))
            if done:
                ctx.count('sets_accepted')
                got = getattr(obj, name)
                if want:
                    ctx.check(S.match(exp, got), 'read back differs from '
                              'the accepted value', field, val, exp, got)
                compare((i, name))
                if base_container(val) in (list, set, dict):
                    offered.append((name, val))
            else:
                ctx.count('sets_rejected')
                compare()
        elif roll < 0.59:
            ctx.note('del', i, name)
            if vetoing(i, name, rng.choice([
                    lambda: delattr(obj, name),
                    lambda: setattr(obj, name, p.undefined)])):
                continue
            if rng.random() < 0.5:
                delattr(obj, name)
            else:
                setattr(obj, name, p.undefined)
            ctx.check(getattr(obj, name) is None, 'deleted value reads back',
                      field, getattr(obj, name))
            ctx.count('deletes')
            ctx.nontrivial('del', field, snaps[i][name])
            compare((i, name))
        elif roll < 0.68:
            ctx.note('reset', i, name)
            if vetoing(i, name, lambda: obj._reset(name)):
                continue
            obj._reset(name)
            exp = H.expected_default(field)
            got = getattr(obj, name)
            ctx.check(got is None if exp is None else S.match(exp, got),
                      'reset does not restore the default', field, exp, got)
            ctx.count('resets')
            ctx.nontrivial('reset', field, snaps[i][name])
            compare((i, name))
        elif roll < 0.7:
            bad = rng.choice(['no_such', 'Alpha', '__x'])
            ctx.note('reset unknown', bad)
            try:
                obj._reset(bad)
                ctx.fail('reset of an unknown name succeeded', bad)
            except AttributeError:
                pass
            compare()
        elif roll < 0.84:
            pool_vals = [(n, v) for n, v in offered
                         if base_container(v) in (list, set, dict)]
            if not pool_vals:
                continue
            _, val = rng.choice(pool_vals)
            held = [part for o in objs for f in shape.settable()
                    for part in walk(getattr(o, f.name)).values()]
            if any(part is val for part in held) and not any(
                    _holds(o, f, val) for o in objs
                    for f in shape.settable() if _unconstrained(f.spec)):
                ctx.fail('a stored container is the caller\'s own object',
                         val)
            if any(part is val for part in held):
                continue       # stored through an unconstrained element type
            try:
                if not mutate(rng, val):
                    continue
            except TypeError:
                continue
            ctx.note('caller mutates', val)
            ctx.count('caller_mutations')
            ctx.nontrivial('caller mutates', canon(val))
            compare()
        else:
            val = getattr(obj, name)
            if not plain_container(val):
                continue
            if _unconstrained(field.spec):
                continue
            ctx.note('stored container mutated', i, name)
            if mutate(rng, val):
                ctx.count('stored_mutations')
                ctx.nontrivial('stored mutated', canon(val))
                compare((i, name))
                if rng.random() < 0.6:
                    assign_again(i, field, val)
                delattr(obj, name)
                compare((i, name))


def _unconstrained(spec):
    return 'AnyS' in repr(spec) or 'ArrayS' in repr(spec)


def _holds(obj, field, val):
    return any(part is val
               for part in walk(getattr(obj, field.name)).values())
