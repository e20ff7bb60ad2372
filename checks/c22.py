"""C22: union properties resolve to the first accepting alternative"""
import json

import numpy as np
import properties as p

from vlib import specs as S
from vlib.canon import canon, equiv

RULE = ('A case draws a union of 1-5 alternatives (every property type, '
        'nested unions, containers, classes and instances with inheritance) '
        'and compares acceptance, stored value, serialization, '
        'deserialization (own data, other alternatives\' data, hostile '
        'data, class names, strict and trusted), defaults and validity of '
        'the union with each alternative declared alone and tried in order. '
        'Non-trivial: a decision where the first alternative is not the '
        'accepting one, or none accepts, by union and value.')
CASES = {'quick': 2100, 'thorough': 20000}
FLOORS = {'accepted': 5953, 'bad_declarations': 1900, 'by_class_name': 393,
          'coerced_by_earlier': 24, 'data': 6195, 'deserialized': 2958,
          'first_defaults': 1734, 'named': 561, 'no_defaults': 148,
          'not_first': 7424, 'observed': 190, 'own_defaults': 500,
          'own_writers': 359, 'refused': 4459, 'refused_data': 3181,
          'refused_defaults': 190, 'serialized': 5400, 'sets': 10463,
          'taken_by_earlier': 59, 'validated': 5580}
GENERIC = (ValueError, KeyError, TypeError, AttributeError)


def hp_classes(rng):
    reg = {}
    one = type('One', (p.HasProperties,), {
        '_REGISTRY': reg, 'x': p.Integer('', min=0, required=True)})
    two = type('Two', (one,), {'y': p.String('', required=False)})
    three = type('Three', (p.HasProperties,), {
        '_REGISTRY': reg, 'x': p.String('', required=False),
        'z': p.Color('', required=False)})
    reg.update(One=one, Two=two, Three=three)
    return [one, two, three]


class InstP(object):
    """An instance alternative"""

    def __init__(self, rng, pool):
        self.pool, self.cls = pool, rng.choice(pool)
        self.bare = rng.random() < 0.5

    def build(self):
        return p.Instance('', self.cls)

    def good(self, rng):
        if self.cls.__name__ == 'Three':
            kw = {'x': 'text'} if rng.random() < 0.6 else {}
        else:
            kw = {'x': rng.randint(0, 5)} if rng.random() < 0.8 else {}
        if self.cls.__name__ == 'Two' and rng.random() < 0.5:
            kw['y'] = 'why'
        return kw if rng.random() < 0.4 else self.cls(**kw)

    def candidate(self, rng):
        roll = rng.random()
        if roll < 0.5:
            return self.good(rng)
        cls = rng.choice(self.pool)
        return rng.choice([
            cls(), {'x': -1}, {'x': 'text'}, {'none': 1}, {}, cls, 'One',
            {'x': 5, '__class__': cls.__name__}, {'z': 'red'}, {'y': 1},
            {'x': 3, 'y': 'no'}, [], {5: 5}])

    def __repr__(self):
        return 'Inst(%s%s)' % (self.cls.__name__, '*' if self.bare else '')


class WrapP(object):
    """A container of instances, or a nested union of anything"""

    def __init__(self, rng, pool, kind):
        self.kind = kind
        self.parts = [draw_part(rng, pool, 0) for _ in range(
            1 if kind != 'union' else rng.randint(1, 3))]
        self.observe = rng.random() < 0.3

    def build(self):
        if self.kind == 'union':
            return p.Union('', [s.build() for s in self.parts])
        if self.kind == 'dict':
            return p.Dictionary('', key_prop=p.String(''),
                                value_prop=self.parts[0].build())
        cls = p.List if self.kind == 'list' else p.Tuple
        kw = {'observe_mutations': True} if self.observe and \
            self.kind == 'list' else {}
        return cls('', self.parts[0].build(), **kw)

    def good(self, rng):
        part = rng.choice(self.parts)
        if self.kind == 'union':
            return part.good(rng)
        vals = [part.good(rng) for _ in range(rng.randint(0, 2))]
        if self.kind == 'dict':
            return {'k%d' % i: v for i, v in enumerate(vals)}
        return vals if self.kind == 'list' else tuple(vals)

    def candidate(self, rng):
        if rng.random() < 0.4:
            return self.good(rng)
        part = rng.choice(self.parts)
        if self.kind == 'union' or rng.random() < 0.3:
            return part.candidate(rng)
        vals = [part.candidate(rng) for _ in range(rng.randint(0, 2))]
        return {'k': v for v in vals} if self.kind == 'dict' else vals

    def __repr__(self):
        return '%s%r' % (self.kind, self.parts)


def draw_part(rng, pool, depth=1):
    roll = rng.random()
    if roll < 0.25:
        return InstP(rng, pool)
    if depth and roll < 0.42:
        return WrapP(rng, pool, rng.choice(['union', 'union', 'list',
                                            'tuple', 'dict']))
    for _ in range(50):
        spec = S.draw(rng, rng.choice([0, 0, depth]))
        if 'AnyS' in repr(spec) and rng.random() < 0.9:
            continue
        if 'ColorS' in repr(spec) and 'Still' not in repr(spec):
            spec = S.StillColorS(rng)
        return spec
    return spec


def steady(val):
    """Not random, not consumed by looking at it"""
    if hasattr(val, '__next__') or val is p.undefined:
        return False
    try:
        return 'random' not in repr(val).lower()
    except Exception:                # pylint: disable=broad-except
        return True


def attempt(func):
    """('ok', value) or ('no', error); other errors are not decided here"""
    try:
        return 'ok', func()
    except GENERIC as err:
        return 'no', err


class Case(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.pool = hp_classes(rng)
        self.parts = [draw_part(rng, self.pool)
                      for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5]))]
        self.strict = rng.random() < 0.2
        kw = {'required': False}
        if self.strict:
            kw['strict_instances'] = True
        own = [self.writer(i) if rng.random() < 0.12 else None
               for i in range(len(self.parts))]
        props = [s.cls if isinstance(s, InstP) and s.bare and not k
                 else s.build() for s, k in zip(self.parts, own)]
        for prop, k in zip(props, own):
            if k:
                prop.serializer = k
        self.union = p.Union('', props if rng.random() < 0.5
                             else tuple(props), **kw)
        self.cls = type('Holder', (p.HasProperties,), {
            '_REGISTRY': {}, 'u': self.union})
        self.alone = []
        for part, more in zip(self.parts, own):
            prop = part.build()
            if more:
                prop.serializer = more
            prop.required = False
            self.alone.append(type('Alone', (p.HasProperties,), {
                '_REGISTRY': {}, 'u': prop}))

    def writer(self, i):
        """A serializer of an alternative's own, which may fail"""
        error = self.rng.choice([None, ValueError, KeyError, TypeError,
                                 AttributeError])

        def write(value, **kwargs):
            if error is not None:
                raise error('alternative %d' % i)
            return ['alternative', i]
        self.ctx.count('own_writers')
        return write

    def first(self, val):
        """(index, instance holding the value) or (None, None)"""
        for i, cls in enumerate(self.alone):
            obj = cls()
            res, _ = attempt(lambda: setattr(obj, 'u', val))
            if res == 'ok':
                return i, obj
        return None, None

    def accepts(self, val):
        for i, cls in enumerate(self.alone):
            res, out = attempt(lambda: cls._props['u'].validate(None, val))
            if res == 'ok':
                return i, out
        return None, None

    def same(self, got, want, val):
        """Stored just as the alternative stores it"""
        ctx = self.ctx
        ctx.check((got is val) == (want is val), 'a union copies or keeps '
                  'the given value unlike its alternative', self.parts, val)
        if got is val:
            return
        ctx.check(describe(got) == describe(want), 'a union stores another '
                  'value than its first accepting alternative', self.parts,
                  val, 'expected %r' % (want,), 'found %r' % (got,))

    def set(self, holder, val):
        ctx = self.ctx
        index, obj = self.first(val)
        before = holder.u
        ctx.note('set', self.parts, val, '->', index)
        ctx.count('sets')
        if index != 0:
            ctx.nontrivial(self.parts, val, index)
            ctx.count('not_first')
        try:
            holder.u = val
        except ValueError as err:
            ctx.check(index is None, 'a union refused what an alternative '
                      'accepts', self.parts, index, val, err)
            ctx.check(holder.u is before, 'a refused value was stored')
            ctx.count('refused')
            return None
        ctx.check(index is not None, 'a union accepted what no alternative '
                  'accepts', self.parts, val, holder.u)
        ctx.count('accepted')
        self.same(holder.u, obj.u, val)
        # valid when the alternative alone is
        if attempt(obj.validate)[0] == 'ok':
            if index:
                again, out = self.accepts(obj.u)
                if again != index:
                    ctx.count('taken_by_earlier')
                    if not equiv(obj.u, out):
                        ctx.count('coerced_by_earlier')
            res, out = attempt(holder.validate)
            ctx.check(res == 'ok' and out is True, 'a value stored by a '
                      'union is not valid', self.parts, val, holder.u, out)
            ctx.count('validated')
        return index

    def serialize(self, holder):
        ctx = self.ctx
        val = holder.u
        index, _ = self.accepts(val)
        if index is None or val is None:
            return None
        include = self.rng.random() < 0.7
        want = attempt(lambda: self.alone[index]._props['u'].serialize(
            val, include_class=include, save_dynamic=False))
        got = attempt(lambda: holder.serialize(
            include_class=include).get('u'))
        ctx.check(want[0] == got[0], 'a union serializes unlike the '
                  'alternative of its value', self.parts, val, want, got)
        if got[0] == 'no':
            ctx.check(type(got[1]) is type(want[1]) and
                      str(got[1]) == str(want[1]), 'another error than the '
                      'serializer of the alternative raised', self.parts, val,
                      want, got)
            return None
        ctx.count('serialized')
        ctx.check(describe(got[1]) == describe(want[1]), 'a union '
                  'serializes unlike the alternative of its value',
                  self.parts, val, want[1], got[1])
        return got[1]

    def flat_instances(self):
        return [(i, s.cls) for i, s in enumerate(self.parts)
                if isinstance(s, InstP)]

    def expected_data(self, data, opts):
        """('no', None) or ('ok', (index, deserialized value))"""
        kwargs = dict(opts, trusted=bool(opts.get('trusted')))
        kwargs['strict'] = bool(opts.get('strict')) or self.strict
        kwargs['assert_valid'] = self.strict
        if isinstance(data, dict) and data.get('__class__'):
            for i, cls in self.flat_instances():
                if cls.__name__ == data['__class__']:
                    prop = self.alone[i]._props['u']
                    res = attempt(lambda: prop.deserialize(
                        data, **dict(kwargs)))
                    self.ctx.count('by_class_name')
                    return res[0], (i, res[1])
        for i, cls in enumerate(self.alone):
            prop = cls._props['u']
            res = attempt(lambda: prop.deserialize(data, **dict(kwargs)))
            if res[0] == 'no':
                continue
            if attempt(lambda: prop.validate(None, res[1]))[0] == 'no':
                continue
            return 'ok', (i, res[1])
        if kwargs['strict'] and isinstance(data, dict):
            return 'no', None
        return 'ok', (None, data)

    def deserialize(self, data):
        ctx, rng = self.ctx, self.rng
        opts = {}
        if rng.random() < 0.4:
            opts['trusted'] = True
        if rng.random() < 0.25:
            opts['strict'] = True
        if rng.random() < 0.2:
            opts['assert_valid'] = True
        res, found = self.expected_data(data, {
            k: v for k, v in opts.items() if k != 'assert_valid'})
        index, obj = None, None
        if res == 'ok':
            index, obj = self.first(found[1])
            if obj is not None and opts.get('assert_valid'):
                if attempt(obj.validate)[0] == 'no':
                    return          # other alternatives may find it valid
        ctx.note('data', self.parts, data, opts, res, index)
        ctx.count('data')
        got = attempt(lambda: self.cls.deserialize({'u': data}, **opts))
        if got[0] == 'no':
            ctx.check(index is None, 'a union refused data an alternative '
                      'accepts', self.parts, data, opts, found, got[1])
            ctx.check(isinstance(got[1], ValueError) or index is None,
                      'wrong error', got[1])
            ctx.count('refused_data')
            return
        ctx.check(index is not None, 'a union accepted data no alternative '
                  'accepts', self.parts, data, opts, got[1].u)
        ctx.check(describe(got[1].u) == describe(obj.u), 'a union '
                  'deserializes unlike the first alternative that accepts '
                  'the data', self.parts, data, opts,
                  'expected %r' % (obj.u,), 'found %r' % (got[1].u,))
        if found[0]:
            ctx.nontrivial('data', self.parts, data, sorted(opts))
        ctx.count('deserialized')

    def named(self):
        """Data that names an alternative's class gives that class"""
        ctx, rng = self.ctx, self.rng
        insts = self.flat_instances()
        if not insts:
            return
        _, cls = rng.choice(insts)
        kw = {'x': 'text'} if cls.__name__ == 'Three' else {'x': 4}
        data = dict(kw, __class__=cls.__name__)
        opts = {'trusted': True} if rng.random() < 0.5 else {}
        # an earlier alternative may accept anything at all
        obj = self.cls.deserialize({'u': data}, **opts)
        made = attempt(lambda: self.union.deserialize(data, **opts))[1]
        ctx.check(type(made) is cls and made.x == kw['x'], 'data that names '
                  'a class was not made with it', self.parts, data, made)
        index, alone = self.first(made)
        ctx.check(describe(obj.u) == describe(alone.u), 'data that names a '
                  'class was not stored', self.parts, data, obj.u)
        ctx.count('named')


def describe(val):
    """Content, with uids of equal objects ignored"""
    return repr(canon(val))


def defaults(ctx, rng):
    pool = hp_classes(rng)
    parts, props, want = [], [], p.undefined
    for _ in range(rng.randint(1, 4)):
        part = draw_part(rng, pool, 0)
        kw = {}
        val = part.good(rng)
        prop = part.build()
        if rng.random() < 0.5 and steady(val) and not callable(val) and \
                val is not None and not isinstance(val, p.HasProperties):
            try:
                prop.default = val
            except (TypeError, ValueError):
                continue
            if want is p.undefined:
                want = (prop, val)
        parts.append(part)
        props.append(prop)
    if not props:
        return
    own = None
    kw = {'required': False}
    if rng.random() < 0.5:
        part = rng.choice(parts)
        own = part.candidate(rng)
        if not steady(own) or callable(own) or own is None:
            own = 5
        wrap = rng.random() < 0.4
        kw['default'] = (lambda: own) if wrap else own
        fine = any(attempt(lambda: prop.validate(None, own))[0] == 'ok'
                   for prop in props)
        ctx.count('own_defaults')
        try:
            union = p.Union('', props, **kw)
        except TypeError:
            ctx.check(not fine, 'a good default was refused', parts, own)
            ctx.count('refused_defaults')
            return
        ctx.check(fine, 'a bad default was accepted', parts, own)
        want = (union, own)
    else:
        union = p.Union('', props, **kw)
    cls = type('Holder', (p.HasProperties,), {'_REGISTRY': {}, 'u': union})
    one, two = cls(), cls()
    ctx.note('default', parts, own)
    if want is p.undefined:
        ctx.check(one.u is None, 'a union without defaults has a value',
                  parts, one.u)
        ctx.count('no_defaults')
        return
    ctx.count('first_defaults')
    value = attempt(lambda: union.validate(None, want[1]))
    ctx.check(value[0] == 'ok' and describe(value[1]) == describe(one.u),
              'wrong default', parts, want[1], one.u)
    ctx.check(describe(one.u) == describe(two.u), 'defaults differ')
    if isinstance(one.u, (list, set, dict, p.HasProperties)) and \
            'default' not in kw and 'AnyS' not in repr(parts):
        ctx.check(one.u is not two.u, 'a default is shared', one.u)
    ctx.nontrivial('default', parts, own, len(props))


def auto_defaults(ctx, rng):
    """A class as the default gives every parent its own instance"""
    pool = hp_classes(rng)
    cls = rng.choice(pool)
    union = p.Union('', [p.Integer(''), p.Instance('', cls, default=cls),
                         p.String('', default='later')])
    holder = type('Holder', (p.HasProperties,), {'_REGISTRY': {},
                                                 'u': union})
    one, two = holder(), holder()
    ctx.check(type(one.u) is cls and type(two.u) is cls and
              one.u is not two.u, 'instance defaults are shared')
    ctx.count('first_defaults')


def declarations(ctx, rng):
    good = [p.Integer(''), p.String('')]
    for bad in (5, None, 'text', {p.Integer('')}, [5], [p.Integer], good +
                [object()], [int], [p.GettableProperty('')], p.Integer('')):
        ctx.count('bad_declarations')
        try:
            p.Union('', bad)
        except TypeError:
            continue
        ctx.fail('an invalid list of alternatives was accepted', bad)
    for bad in (1, None, 'yes'):
        try:
            p.Union('', good, strict_instances=bad)
        except TypeError:
            continue
        ctx.fail('an invalid option was accepted', bad)
    for kw in ({}, {'required': True}):
        holder = type('Holder', (p.HasProperties,), {
            '_REGISTRY': {}, 'u': p.Union('', good, **kw)})()
        try:
            holder.validate()
        except ValueError as err:
            ctx.check([t.reason for t in err.error_tuples] == ['missing'],
                      'wrong report of a missing value')
        else:
            ctx.fail('a missing union value is valid')


def observed(ctx, rng):
    """Observed containers of a union notify as the parent's property"""
    log = []
    alts = [p.Integer(''), p.List('', p.Integer(''), observe_mutations=True),
            p.Dictionary('', observe_mutations=True)]
    rng.shuffle(alts)
    cls = type('Holder', (p.HasProperties,), {
        '_REGISTRY': {}, 'other': p.Integer('', default=0),
        'u': p.Union('', alts),
        'see': p.observer('u')(lambda self, change: log.append(
            (change['name'], change['mode'])))})
    holder = cls(u=[1, 2])
    del log[:]
    holder.u.append(3)
    ctx.check(holder.u == [1, 2, 3] and log == [('u', 'observe_set')],
              'a change of an observed list in a union went unseen', log,
              holder.u)
    try:
        holder.u.append('text')
    except ValueError:
        pass
    else:
        ctx.fail('an invalid item was appended in a union', holder.u)
    ctx.check(holder.u == [1, 2, 3], 'a refused item was stored')
    holder.u = {'a': 1}
    del log[:]
    holder.u['b'] = 2
    ctx.check(holder.u == {'a': 1, 'b': 2} and log == [('u', 'observe_set')],
              'a change of an observed dictionary in a union went unseen')
    ctx.count('observed')


def data_pool(rng, case, data):
    out = [d for d in data if d is not None]
    for part in case.parts:
        val = part.candidate(rng)
        if isinstance(val, (int, float, str, list, dict)):
            out.append(val)
    cls = rng.choice(case.pool).__name__
    out += [{}, {'x': 5}, {'x': -1, '__class__': cls},
            {'x': 'text', '__class__': cls}, {'x': 2, 'extra': 1},
            {'__class__': cls, 'x': 2, 'extra': 1}, {'__class__': 'Nobody'},
            {'__class__': cls}, 5, '5', 'text', '#fff', [], [1, 2], ['x'],
            1.5, True, {'k': {'x': 1, '__class__': cls}},
            [{'x': 1, '__class__': cls}]]
    return out


def findings(ctx):
    union = p.Union('', [p.StringChoice('', {'A': ['b']}),
                         p.String('', strip=' ')])
    holder = type('Holder', (p.HasProperties,), {
        '_REGISTRY': {}, 'many': p.List('', union)})(many=[' b '])
    try:
        failing = holder.validate() is not True
    except ValueError:
        failing = True
    yield ('union-list-coerced-by-earlier', failing, 'a list of unions whose '
           'item, as coerced by a later alternative, is accepted and coerced '
           'to something else by an earlier one is stored but not valid')


def run_case(ctx):
    rng = ctx.rng
    case = Case(ctx, rng)
    holder = case.cls()
    data = []
    for _ in range(10):
        part = rng.choice(case.parts)
        val = part.candidate(rng) if rng.random() < 0.85 else S.hostile(rng)
        if not steady(val):
            continue
        try:
            index = case.set(holder, val)
        except (OverflowError, MemoryError, RecursionError):
            continue
        if index is not None:
            data.append(case.serialize(holder))
    pool = data_pool(rng, case, data)
    for item in rng.sample(pool, min(6, len(pool))):
        try:
            text = json.dumps(item)
        except (TypeError, ValueError):
            continue
        if 'random' not in text.lower():
            case.deserialize(json.loads(text))
    case.named()
    defaults(ctx, rng)
    auto_defaults(ctx, rng)
    if rng.random() < 0.2:
        declarations(ctx, rng)
        observed(ctx, rng)
