"""C04: container acceptance, freshness, kind, coerced elements, lengths"""
import numpy as np

import properties as p

from vlib import shapes as H
from vlib import specs as S
from vlib.canon import base_container, canon, walk

RULE = ('A case draws a tuple, list, set or dictionary property (nested up to '
        'three levels, observing or not, over scalars, unions, arrays and '
        'instances) and offers containers of every kind holding valid, border '
        'and hostile elements; an evaluation is non-trivial when the model '
        'fixes the outcome. Length limits are checked by instance validation '
        'around both limits at every nesting level.')
CASES = {'quick': 3900, 'thorough': 31200}
FLOORS = {'accepted': 7998, 'bad_in_place': 365, 'grown_in_place': 101,
          'inner_invalid': 2551, 'inner_valid': 5214, 'length_failures': 402,
          'length_verdicts': 7248, 'mutables_checked_fresh': 7466, 'rejected':
          5574, 'spoiled_later': 1710, 'unspecified': 42}


def lengths_ok(spec, val):
    """Do all length limits hold, at every level? None when unsettled"""
    if isinstance(spec, S.ContS):
        if not spec.length_ok(len(val)):
            return False
        sub = [lengths_ok(spec.elem, v) for v in val]
    elif isinstance(spec, S.DictS):
        sub = [lengths_ok(spec.val, v) for v in val.values()]
    elif isinstance(spec, (S.UnionS, H.InstS)):
        return None if 'length' in repr(spec) or 'Inst' in repr(spec) \
            else True
    else:
        return True
    if False in sub:
        return False
    return None if None in sub else True


def fresh_parts(val):
    """Mutable containers inside a value, not inside instances"""
    out = []
    base = base_container(val)
    if base in (list, set, dict):
        out.append(val)
    if base is dict:
        for v in val.values():
            out += fresh_parts(v)
    elif base in (list, tuple):
        for v in val:
            out += fresh_parts(v)
    return out


class Item(p.HasProperties):
    _REGISTRY = {}
    need = p.Integer('needed')


def part(rng, hashable):
    """(property, maker of (value, is valid)) of something inside"""
    roll = rng.random()
    if roll < 0.35:
        lo = rng.choice([None, 0, 1, 2])
        hi = rng.choice([None, 2, 3])
        kw = {k: v for k, v in [('min_length', lo), ('max_length', hi)]
              if v is not None}
        inner, make = (p.Integer(''), lambda: (rng.randint(0, 99), True)) \
            if rng.random() < 0.7 else part(rng, True)
        form = p.Tuple if hashable else rng.choice([p.Tuple, p.List])

        def row():
            items = [make() for _ in range(rng.randint(0, 4))]
            size = len(items)
            good = (lo is None or size >= lo) and (hi is None or size <= hi)
            return ((list if form is p.List else tuple)(i[0] for i in items),
                    good and all(i[1] for i in items))
        return form('', inner, **kw), row
    if roll < 0.8:
        def item():
            good = rng.random() < 0.8
            return (Item(need=1) if good else Item()), good
        return p.Instance('', Item), item
    if not hashable and roll < 0.9:
        return keyed_dict(rng)
    return p.Integer(''), lambda: (rng.randint(0, 999), True)


def keyed_dict(rng):
    """A dictionary whose keys and values may be invalid"""
    key = part(rng, True) if rng.random() < 0.85 else (None, lambda: (
        rng.randint(0, 99), True))
    val = part(rng, False) if rng.random() < 0.7 else (None, lambda: (
        rng.randint(0, 99), True))
    kw = {k: v[0] for k, v in [('key_prop', key), ('value_prop', val)]
          if v[0] is not None}
    if rng.random() < 0.3:
        kw['observe_mutations'] = True

    def table():
        out, goods = {}, {}
        for _ in range(rng.randint(0, 3)):
            k, good = key[1]()
            v, fine = val[1]()
            if k in out and out[k] != v:
                continue
            out[k] = v
            goods[k] = good and fine
        return out, all(goods.values())
    return p.Dictionary('', **kw), table


def inner_parts(ctx, rng):
    """Keys, values and items that are invalid make their owner invalid"""
    if rng.random() < 0.6:
        prop, make = keyed_dict(rng)
    else:
        inner, row = part(rng, True)
        form = rng.choice([p.Set, p.Tuple, p.List])
        prop = form('', inner)

        def make():
            items = [row() for _ in range(rng.randint(0, 3))]
            vals = [i[0] for i in items]
            kind = {p.Set: set, p.List: list, p.Tuple: tuple}[form]
            return (kind(vals),
                    all(i[1] for i in items))
    cls = type('Owner', (p.HasProperties,), {'_REGISTRY': {}, 'x': prop})
    for _ in range(4):
        val, good = make()
        obj = cls(x=val)
        ctx.note('inner parts', val, good)
        ctx.nontrivial('inner', type(prop).__name__, repr(getattr(
            prop, 'key_prop', getattr(prop, 'prop', None))), repr(val)[:200])
        try:
            got = obj.validate()
        except ValueError as err:
            got = err
        ctx.count('inner_valid' if good else 'inner_invalid')
        ctx.check((got is True) is good, 'validity of the inner parts is '
                  'wrong: expected %s' % good, val, got)
        items = [k for k in walk(obj.x).values() if isinstance(k, Item)]
        if good and items:
            ctx.count('spoiled_later')
            del rng.choice(items).need
            try:
                obj.validate()
            except ValueError:
                continue
            ctx.fail('an inner instance that became invalid is not noticed',
                     val)


def run_case(ctx):
    inner_parts(ctx, ctx.rng)
    accept(ctx)


def accept(ctx):
    rng = ctx.rng
    pool = []
    if rng.random() < 0.3:
        pool = [H.InstS(rng, H.Shape(rng, 'Item', depth=0, n=2))]
    kind = rng.choice([S.TupleS, S.ListS, S.SetS, S.DictS, S.ListS])
    spec = kind(rng, depth=rng.choice([1, 1, 2, 3]), elems=pool)
    prop = spec.build(required=rng.random() < 0.5)
    cls = type('Holder', (p.HasProperties,), {'x': prop, '_REGISTRY': {}})
    obj = cls()
    ctx.note('spec', spec)
    free = 'AnyS' in repr(spec) or 'ArrayS' in repr(spec) or \
        'coerce=False' in repr(spec)
    for _ in range(7):
        val = spec.candidate(rng)
        if S.awkward(spec, val):
            continue
        try:
            want, exp = True, spec.model(val)
        except S.Reject:
            want, exp = False, None
        except S.Unspec:
            want, exp = None, None
        before = canon(obj.x)
        ctx.note('set', val, '->', exp if want else want)
        try:
            obj.x = val
            good, got = True, obj.x
        except ValueError as err:
            good, got = False, err
        if want is None:
            ctx.count('unspecified')
        else:
            ctx.nontrivial(spec, canon(val))
            ctx.check(good is want, 'acceptance is wrong', spec, val,
                      'expected %s' % want, got)
        if not good:
            ctx.count('rejected')
            ctx.check(canon(obj.x) == before, 'a rejected container changed '
                      'the stored value', spec, val, obj.x)
            continue
        ctx.count('accepted')
        if want:
            ctx.check(S.match(exp, got), 'stored container differs', spec,
                      val, 'expected %r' % (exp,), 'stored %r' % (got,))
        if not free:
            mine = {id(part) for part in walk(val).values()
                    if base_container(part)}
            for part in fresh_parts(got):
                ctx.count('mutables_checked_fresh')
                ctx.check(id(part) not in mine,
                          'a stored container is the caller\'s own', spec,
                          val, part)
        # length limits
        verdict = lengths_ok(spec, got)
        if verdict is None:
            continue
        ctx.count('length_verdicts')
        try:
            valid = obj.validate()
        except ValueError as err:
            valid = err
            ctx.count('length_failures')
        if verdict:
            ctx.check(valid is True, 'validation fails within the limits',
                      spec, got, valid)
        else:
            ctx.check(isinstance(valid, ValueError),
                      'validation ignores a length limit', spec, got, valid)
    # growing or shrinking a stored plain container past a limit is caught
    base = getattr(spec, 'base', None)
    if base is list and 'AnyS' not in repr(spec) and 'max_length' in spec.kw \
            and isinstance(obj.x, list) and not spec.kw.get(
                'observe_mutations') and obj.x:
        item = obj.x[0]
        obj.x.extend([item] * (spec.kw['max_length'] + 1))
        ctx.count('grown_in_place')
        try:
            obj.validate()
            ctx.fail('a list grown past its limit in place validates', spec,
                     obj.x)
        except ValueError:
            pass
    # an invalid element put into a stored plain container is caught
    if isinstance(obj.x, list) and obj.x and base is list and not \
            spec.kw.get('observe_mutations'):
        bad = spec.elem.bad(rng)
        if spec.elem.accepts(bad) is False and not isinstance(
                bad, np.ndarray):
            obj.x[rng.randrange(len(obj.x))] = bad
            ctx.note('invalid element stored in place', bad)
            ctx.count('bad_in_place')
            try:
                obj.validate()
                ctx.fail('an invalid element in a stored list validates',
                         spec, bad, obj.x)
            except ValueError:
                pass
