"""C01: scalar property types against an independent acceptance model"""
import re
import uuid

import properties as p

from vlib import specs as S
from vlib.canon import canon

RULE = ('A case draws one scalar property type with random keywords, attaches '
        'it to a fresh class, and offers candidate values (valid spellings, '
        'border values, hostile objects) by assignment and by instance-less '
        'validation; an evaluation is non-trivial when the independent model '
        'fixes the outcome.')
CASES = {'quick': 10500, 'thorough': 84000}
FLOORS = {'accepted': 31171, 'patterns': 1676, 'rejected': 27937,
          'unspecified': 660}


def outcome(fn):
    try:
        return True, fn()
    except ValueError as err:
        return False, err


def uuid_case(ctx):
    prop = p.Uuid('id')
    for _ in range(8):
        val = S.hostile(ctx.rng)
        if ctx.rng.random() < 0.3:
            val = uuid.UUID(int=ctx.rng.getrandbits(128))
        ctx.note('Uuid validate', val)
        good, got = outcome(lambda: prop.validate(None, val))
        want = isinstance(val, uuid.UUID)
        ctx.check(good is want, 'Uuid accepts exactly UUID objects', val, got)
        if want:
            ctx.check(got is val, 'Uuid keeps the identifier', val, got)
        ctx.count('accepted' if want else 'rejected')
        ctx.nontrivial('uuid', canon(val))


PATTERNS = {
    'a': lambda t: 'a' in t,
    '^a': lambda t: t.startswith('a'),
    '^ ': lambda t: t.startswith(' '),
    'b$': lambda t: t.endswith(('b', 'b\n')),
    '[A-Z]': lambda t: any(c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' for c in t),
    '^.{3}$': lambda t: len(t.split('\n')[0]) == 3 and t.count('\n') < 2 and
              (t + '\n').index('\n') >= len(t) - 1,
}


def pattern_case(ctx):
    """The pattern judges the input, before anything is cut off it"""
    rng = ctx.rng
    pattern = rng.choice(sorted(PATTERNS))
    strip = rng.choice(['', ' ', 'a', 'b', ' \n'])
    case = rng.choice([None, 'upper', 'lower'])
    kwargs = {'strip': strip} if strip else {}
    if case:
        kwargs['change_case'] = case
    prop = p.String('', regex=rng.choice([pattern, re.compile(pattern)]),
                    **kwargs)
    cls = type('Holder', (p.HasProperties,), {'x': prop, '_REGISTRY': {}})
    obj = cls()
    for _ in range(8):
        val = ''.join(rng.choice(' aAbB\nx')
                      for _ in range(rng.randint(0, 5)))
        want = val.strip(strip or '')
        if case:
            want = getattr(want, case)().strip(strip or '')
        good, got = outcome(lambda: prop.validate(None, val))
        ctx.count('patterns')
        ctx.nontrivial(pattern, strip, case, val)
        ctx.check(good is PATTERNS[pattern](val), 'the pattern must judge the '
                  'input string', pattern, kwargs, val, got)
        ctx.check(not good or got == want, 'stored value differs from the '
                  'documented one', pattern, kwargs, val, got)
        if good:
            obj.x = val
            ctx.check(obj.x == want, 'stored value differs from the '
                      'documented one', pattern, kwargs, val, obj.x)


def run_case(ctx):
    rng = ctx.rng
    if rng.random() < 0.02:
        uuid_case(ctx)
        return
    if rng.random() < 0.04:
        pattern_case(ctx)
        return
    spec = rng.choice(S.SCALARS)(rng)
    prop = spec.build()
    cls = type('Holder', (p.HasProperties,), {'x': prop, '_REGISTRY': {}})
    obj = cls()
    ctx.note('spec', spec)
    for _ in range(12):
        val = spec.candidate(rng)
        try:
            want, exp = True, spec.model(val)
        except S.Reject:
            want, exp = False, None
        except S.Unspec:
            want = None
        before = canon(obj.x)
        ctx.note('set', val, '->', exp if want else want)

        def assign():
            obj.x = val
            return obj.x
        good, got = outcome(assign)
        alone, alone_got = outcome(lambda: prop.validate(None, val))
        ctx.check(good is alone or want is None,
                  'assignment and instance-less validation disagree',
                  spec, val, got, alone_got)
        if want is None:
            ctx.count('unspecified')
            continue
        ctx.nontrivial(spec, canon(val))
        if want:
            ctx.count('accepted')
            ctx.check(good, 'a documented value was rejected', spec, val, got)
            ctx.check(S.match(exp, got),
                      'stored value differs from the documented one', spec,
                      val, 'expected %r' % (exp,), 'stored %r' % (got,))
            ctx.check(S.match(exp, alone_got) or isinstance(exp, S.Pred),
                      'validation result differs from the documented one',
                      spec, val, exp, alone_got)
        else:
            ctx.count('rejected')
            ctx.check(not good, 'an undocumented value was accepted', spec,
                      val, 'stored %r' % (got,))
            ctx.check(canon(obj.x) == before, 'a rejected value was stored',
                      spec, val, obj.x)
