"""C02: stable coercion, unmodified inputs, accepted values validate"""
import properties as p

from vlib import specs as S
from vlib.canon import canon, equiv, walk

RULE = ('A case draws a property of any type (containers, unions, arrays, '
        'vectors, instances included) and offers candidate values; every '
        'accepted one is re-validated, re-assigned and the instance '
        'validated, and every offered object is snapshotted before and '
        'after; non-trivial when the property accepted the value.')
CASES = {'quick': 9000, 'thorough': 72000}
FLOORS = {'accepted': 14339, 'inputs_snapshotted': 26958, 'length_limited':
          1293, 'reinterpreted_by_union': 6}


def length_ok(spec, val):
    """Are all container length limits met throughout?"""
    if isinstance(spec, S.ContS):
        return spec.length_ok(len(val)) and all(
            length_ok(spec.elem, v) for v in val)
    if isinstance(spec, S.DictS):
        return all(length_ok(spec.val, v) for v in val.values())
    if isinstance(spec, S.UnionS):
        return all(length_ok_any(part, val) for part in spec.parts)
    return True


def length_ok_any(spec, val):
    try:
        return length_ok(spec, val)
    except (TypeError, AttributeError):
        return True


def has_length(spec):
    if isinstance(spec, S.ContS):
        return 'min_length' in spec.kw or 'max_length' in spec.kw or \
            has_length(spec.elem)
    if isinstance(spec, S.DictS):
        return has_length(spec.val)
    if isinstance(spec, S.UnionS):
        return any(has_length(part) for part in spec.parts)
    return False


def scaled(spec, one, two):
    """Vectors of fixed length may move by rounding when scaled again"""
    return 'length' in repr(spec) and 'Vec' in repr(spec) and equiv(one, two)


def run_case(ctx):
    rng = ctx.rng
    depth = rng.choice([0, 1, 1, 2, 3])
    spec = rng.choice([
        lambda: S.draw(rng, depth), lambda: S.draw(rng, depth),
        lambda: S.ArrayS(rng), lambda: S.VecS(rng)])()
    required = rng.random() < 0.5
    cls = type('Holder', (p.HasProperties,), {
        'x': spec.build(required=required), '_REGISTRY': {}})
    prop = cls._props['x']
    obj = cls()
    ctx.note('spec', spec)
    for _ in range(6):
        val = spec.candidate(rng)
        if S.awkward(spec, val):
            continue
        before = canon(val, ids=True)
        parts = [(part, canon(part)) for part in walk(val).values()]
        ctx.count('inputs_snapshotted')
        ctx.note('offer', val)
        accepted = True
        try:
            if rng.random() < 0.5:
                obj.x = val
            else:
                obj.x = prop.validate(rng.choice([None, obj]), val)
        except ValueError:
            accepted = False
        ctx.check(canon(val, ids=True) == before,
                  'the offered object was modified', spec,
                  'before %r' % (before,), 'after %r' % (val,))
        for part, snap in parts:
            ctx.check(canon(part) == snap,
                      'an object inside the offered value was modified', spec,
                      snap, part)
        if not accepted:
            continue
        ctx.count('accepted')
        ctx.nontrivial(spec, canon(val))
        stored = obj.x
        if stored is None:
            # only the unconstrained property type stores None
            ctx.check(val is None or val is p.undefined, 'value was lost',
                      spec, val)
            continue
        snap = canon(stored)
        if 'UnionS' in repr(spec):
            # by design an earlier alternative may accept what a later one
            # stored; such unions are outside the property
            try:
                stable = S.match(spec.model(stored), stored)
            except (S.Reject, S.Unspec):
                stable = False
            if not stable:
                ctx.count('reinterpreted_by_union')
                continue
        if 'AnyS' in repr(spec) and 'nan' in repr(snap):
            # the unconstrained type compares with ==
            ctx.count('unconstrained_nan')
            continue
        again = prop.validate(None, stored)
        ctx.check(canon(again) == snap or scaled(spec, again, stored),
                  'validating again changed the value',
                  spec, 'first %r' % (stored,), 'second %r' % (again,))
        ctx.check(canon(stored) == snap,
                  'validating again modified the stored value', spec, stored)
        same = prop.equal(stored, again)
        ctx.check(bool(same), 'validated value is not equal to itself', spec,
                  stored, again)
        obj.x = stored
        ctx.check(canon(obj.x) == snap or scaled(spec, obj.x, stored),
                  're-assigning changed the value',
                  spec, stored, obj.x)
        snap = canon(obj.x)
        if has_length(spec):
            ctx.count('length_limited')
            continue
        try:
            done = obj.validate()
        except ValueError as err:
            ctx.fail('an accepted value fails instance validation', spec, val,
                     'stored %r' % (stored,), err)
        ctx.check(done is True, 'validate did not return True', done)
        ctx.check(canon(obj.x) == snap, 'instance validation changed a value',
                  spec, stored, obj.x)
