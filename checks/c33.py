"""C33: optional arguments left out mean their documented defaults"""
import io
import os
import random
import re
import shutil
import tempfile
import warnings

import numpy as np

import properties as p
from properties import math as pmath
from properties.extras import BaseInput, BaseOutput, BaseTask, HasUID, \
    Pointer, Singleton, TaskStatus, URL

from vlib import shapes
from vlib.canon import canon

RULE = ('A case draws a property type with some of its keywords; a '
        'declaration that leaves out the others must read back their '
        'documented defaults and treat candidate values, missing values, '
        'JSON and comparison exactly like one that gives them. Or it draws a '
        'class and calls of serialize, deserialize, copy, validate, observer, '
        'links, filter_props, disabling contexts and tasks without optional '
        'arguments, which must do what they do with the documented defaults. '
        'Non-trivial: a keyword or argument for which another value makes a '
        'difference in this very case.')
CASES = {'quick': 1500, 'thorough': 30000}
FLOORS = {'calls': 2281, 'declared': 408, 'read_back': 722, 'telling': 668,
          'telling_calls': 3204}

ANY = object()


class Leaf(p.HasProperties):
    _REGISTRY = {}
    num = p.Integer('')
    text = p.String('', required=False)


class Ident(HasUID):
    _REGISTRY = {}
    _INSTANCES = {}
    load_count = 0
    key = p.String('', default='k')


IDENT = Ident(uid='known')


def pack(val):
    return val


# type: (declaration, {keyword: (documented default, others)}, candidates)
NUMBERS = [0, 1, -1, 2.5, 1e-12, '3', '2.5', True, 1e20, -7, 3 + 0j, 'x',
           None, [], float('nan'), 10, np.float32(1.5)]
TEXTS = ['', 'a', ' a ', 'Abc', 'xx', b'a', 5, None, 'xax', 'A', 'ünï']
LISTS = [[], [1], [1, 2, 3], (1, 2), {1, 2}, 5, 'ab', None, np.array([1, 2]),
         [1, 'x'], ['a'], [1, 1]]
DICTS = [{}, {'a': 1}, {1: 'a'}, {'a': 'b', 'c': 2}, [], None, 'a', [('a', 1)],
         {'a': [1]}]
MATRIX = [[1., 2.], [1, 2, 3], [[1, 2, 3]], [[1., 2, 3], [4, 5, 6]], 5, 'X',
          np.array([1, 2, 3]), np.array([1., 2, 3]), np.array([[True, False]]),
          ['X', 'Y'], None, np.zeros((2, 2, 2)), [1 + 1j, 2], [0, 0, 0],
          (3, 4, 0), [3., 4.], [[3., 4.]], 'east', np.array([1., 0])]


def number(cls):
    return (lambda **k: cls('d', **k), {
        'min': (None, [0, 1]), 'max': (None, [2, 5]), 'cast': (False, [True]),
    }, NUMBERS)


def vector(cls):
    # lengths and coercion are settings; shape and dtype are fixed
    return (lambda **k: cls('d', **k), {
        'length': (None, [2.0]), 'coerce': (True, [False])}, MATRIX)


def container(cls):
    out = {'coerce': (False, [True]), 'min_length': (None, [1, 2]),
           'max_length': (None, [1, 2])}
    if cls is not p.Tuple:
        out['observe_mutations'] = (False, [True])
    return (lambda **k: cls('d', k.pop('prop', p.Integer('')), **k), out,
            LISTS)


TYPES = {
    'Property': (lambda **k: p.Property('d', **k), {}, NUMBERS),
    'Bool': (lambda **k: p.Bool('d', **k), {'cast': (False, [True])}, NUMBERS),
    'Integer': number(p.Integer), 'Float': number(p.Float),
    'Complex': (lambda **k: p.Complex('d', **k), {'cast': (False, [True])},
                NUMBERS),
    'String': (lambda **k: p.String('d', **k), {
        'strip': ('', [' ', 'x']), 'change_case': (None, ['upper', 'lower']),
        'unicode': (True, [False])}, TEXTS),
    'StringChoice': (lambda **k: p.StringChoice('d', k.pop('choices', {
        'Abc': ['a', 'One'], 'xx': 'b'}), **k), {
            'case_sensitive': (False, [True])},
                     TEXTS + ['ABC', 'one', 'B', 'XX']),
    'Color': (lambda **k: p.Color('d', **k), {},
              ['red', '#fff', (1, 2, 3), 'nope', 5, None]),
    'DateTime': (lambda **k: p.DateTime('d', **k), {},
                 ['2010-01-02', '2010/01/02', 5, None, '1995-08-12T18:00:00Z']),
    'URL': (lambda **k: URL('d', **k), {
        'remove_parameters': (False, [True]),
        'remove_fragment': (False, [True])},
            ['http://a.b/c?d=e#f', 'http://a.b', 'nope', '', 5,
             'http://a.b/c;x=1?d=e', 'https://h/#g']),
    'Instance': (lambda **k: p.Instance('d', Leaf, **k), {}, [
        Leaf(num=1), {'num': 1}, {'num': 'x'}, {'no': 1}, 5, None, Leaf]),
    'List': container(p.List), 'Set': container(p.Set),
    'Tuple': container(p.Tuple),
    'Dictionary': (lambda **k: p.Dictionary('d', **k), {
        'observe_mutations': (False, [True])}, DICTS),
    'Union': (lambda **k: p.Union('d', k.pop('props', [
        p.Instance('', Leaf), p.String('')]), **k), {
            'strict_instances': (False, [True])}, TEXTS + [
                {'num': 3}, {'text': 'a'}, {'num': 3, 'no': 4}]),
    'Array': (lambda **k: p.Array('d', **k), {
        'shape': ({('*',)}, [('*', 3), None, {(2,), ('*', '*')}]),
        'dtype': ((float, int), [float, int, bool, (bool, int)]),
        'coerce': (True, [False])}, MATRIX),
    'Vector2': vector(p.Vector2), 'Vector3': vector(p.Vector3),
    'Vector2Array': vector(p.Vector2Array),
    'Vector3Array': vector(p.Vector3Array),
    'Pointer': (lambda **k: Pointer('d', Ident, **k), {
        'load': (False, [True]), 'uid_prop': ('uid', ['key'])},
                ['known', 'unknown', IDENT, 5, None, '']),
    'File': (lambda **k: p.File('d', **k), {'mode': (None, ['rb', 'r'])},
             ['there', 'missing', 5, None]),
    'ImagePNG': (lambda **k: p.ImagePNG('d', **k), {
        'mode': ('rb', ['rb+']), 'filename': ('texture.png', ['other.png'])},
                 ['picture', 'there', 'missing', 5, None]),
}
VECTORS = ('Vector2', 'Vector3', 'Vector2Array', 'Vector3Array')

SCRATCH = [None]


def setup(ctx):
    import png
    SCRATCH[0] = tempfile.mkdtemp(prefix='c33')
    import atexit
    atexit.register(shutil.rmtree, SCRATCH[0], True)
    with open(os.path.join(SCRATCH[0], 'there'), 'wb') as fid:
        fid.write(b'content')
    with open(os.path.join(SCRATCH[0], 'picture'), 'wb') as fid:
        png.Writer(2, 2, greyscale=True).write(fid, [[0, 1], [2, 3]])


def look(val):
    """Canonical form; files by what they contain"""
    if hasattr(val, 'read'):
        pos = val.tell()
        val.seek(0)
        out = (type(val).__name__, getattr(val, 'name', None),
               getattr(val, 'mode', None), val.read(), pos)
        val.close()
        return out
    if isinstance(val, (list, set, dict)):
        # observing wrappers are part of what a keyword decides
        return type(val).__name__, canon(val)
    return canon(val)


def attempt(func):
    try:
        return ('gives', look(func()))
    except p.ValidationError as err:
        return ('refuses', [(e.reason, e.prop) for e in err.error_tuples])
    except Exception as err:                  # pylint: disable=broad-except
        return ('raises', type(err).__name__)


def setting(val):
    if isinstance(val, (tuple, set, list)):
        return sorted(map(repr, val))
    return repr(val)


def behaviour(kind, make, kwargs, values, rng):
    """What a declaration does, beside its settings"""
    prop = make(**kwargs)
    cls = type('Owner', (p.HasProperties,), {'_REGISTRY': {}, 'x': prop})
    out = [('info', re.sub('0x[0-9a-f]+', '', str(prop.info))),
           ('empty', attempt(lambda: cls().validate())),
           ('default', attempt(lambda: cls().x))]
    stored = []
    for val in values:
        if kind in ('File', 'ImagePNG') and isinstance(val, str):
            val = os.path.join(SCRATCH[0], val)

        def assign(val=val):
            obj = cls()
            obj.x = val
            return obj.x
        out.append((repr(val)[:40], attempt(assign)))
        if kind in ('File', 'ImagePNG'):
            continue
        obj = cls()
        try:
            obj.x = val
        except (ValueError, TypeError):
            pass
        out.append(('valid', attempt(obj.validate)))
        out.append(('json', attempt(obj.serialize)))
        out.append(('back', attempt(lambda: canon(cls.deserialize(
            obj.serialize())))))
        if obj.x is not None:
            stored.append(obj)
    for one in stored:
        other = rng.choice(stored)
        out.append(('equal', attempt(lambda: p.equal(one, other))))
    return out


def declarations(ctx, rng):
    kind = rng.choice(sorted(TYPES))
    make, table, values = TYPES[kind]
    table = dict(table)
    if kind != 'ImagePNG':
        table['required'] = (True, [False])
    values = rng.sample(values, min(len(values), 9))
    given, left = {}, []
    for key in sorted(table):
        if rng.random() < 0.35:
            given[key] = rng.choice(table[key][1])
        else:
            left.append(key)
    if given.get('min_length') == 2 and given.get('max_length') == 1:
        del given['max_length']
        left.append('max_length')
    ctx.note('declaration', kind, given, 'left out', left)
    prop = make(**given)
    for key in left:
        ctx.count('read_back')
        ctx.check(setting(getattr(prop, key)) == setting(table[key][0]),
                  'a keyword left out does not have its documented default',
                  kind, key, getattr(prop, key), table[key][0])
    if kind in VECTORS:
        ctx.check(prop.dtype in (float, (float,)), 'wrong dtype', kind)
        ctx.check(setting(prop.shape) == setting({
            'Vector2': {(2,)}, 'Vector3': {(3,)},
            'Vector2Array': {('*', 2)}, 'Vector3Array': {('*', 3)},
        }[kind]), 'wrong shape', kind, prop.shape)
    seed = rng.random()

    def run(kwargs):
        return behaviour(kind, make, kwargs, values, random.Random(seed))
    want = run(given)
    explicit = dict(given)
    for key in left:
        default = table[key][0]
        if rng.random() < 0.7 and default is not None or key in (
                'min', 'max', 'min_length', 'max_length', 'length', 'mode'):
            explicit[key] = default
    got = run(explicit)
    ctx.count('declared')
    for a, b in zip(want, got):
        if a != b:
            ctx.fail('leaving keywords out differs from giving their '
                     'documented defaults', kind, given, explicit,
                     'left out: %r' % (a,), 'given: %r' % (b,))
    for key in left:
        other = dict(given)
        other[key] = rng.choice(table[key][1])
        try:
            if run(other) != want:
                ctx.count('telling')
                ctx.nontrivial((kind, key, sorted(map(repr, given.items())),
                                repr(values)))
        except (TypeError, ValueError):
            pass        # keywords that do not fit together


# ------------------------------------------------------- calls of functions

def differ(ctx, what, short, full, others):
    """short() must do what full() does; others are different choices"""
    a, b = attempt(short), attempt(full)
    ctx.count('calls')
    ctx.check(a == b, '%s without optional arguments differs from the '
              'documented defaults' % what, a, b)
    for i, other in enumerate(others):
        if attempt(other) != b:
            ctx.count('telling_calls')
            ctx.nontrivial((what, i, repr(a)))


def calls_json(ctx, rng):
    """serialize, deserialize, copy of classes of all three families"""
    num = rng.randint(0, 9)

    def computed(this):
        return num
    dyn = p.Integer('')(computed)
    registry = {}
    base, extra = rng.choice([
        (p.HasProperties, {}), (p.HasProperties, {}),
        (HasUID, {'_INSTANCES': {}}), (Singleton, {'_SINGLETONS': {}})])
    kid = type('Kid', (p.HasProperties,), {
        '_REGISTRY': registry, 'a': p.Integer(''),
        'dyn': p.Integer('')(lambda this: 5)})
    type('Grand', (kid,), {'b': p.Integer('', required=False)})
    top = type('Top', (base,), dict(
        extra, _REGISTRY=registry, dyn=dyn, num=p.Integer('', required=True),
        kid=p.Instance('', kid, required=False),
        kids=p.List('', kid, required=False)))
    sub = type('Sub', (top,), {'more': p.Integer('', default=4)})

    def clean():
        for name in extra:
            getattr(top, name).clear()

    def make(cls):
        args = ('one',) if base is Singleton else ()
        kw = {'uid': 'one'} if base is HasUID else {}
        return cls(*args, **dict(kw, num=3, kid=kid(a=1)))
    obj = make(rng.choice([top, sub]))
    differ(ctx, 'serialize of ' + base.__name__, obj.serialize,
           lambda: obj.serialize(include_class=True, save_dynamic=False),
           [lambda: obj.serialize(include_class=False),
            lambda: obj.serialize(save_dynamic=True)])
    inner = {'a': 2, '__class__': rng.choice(['Kid', 'Grand']), 'b': 4}
    if rng.random() < 0.3:
        inner['zzz'] = 1
    flat = {'num': 4, 'kid': inner, 'kids': [dict(inner)],
            '__class__': rng.choice(['Top', 'Sub', 'Nowhere', None])}
    if rng.random() < 0.3:
        del flat['num']
    if rng.random() < 0.3:
        flat['unknown'] = 5
    if rng.random() < 0.2:
        del flat['__class__']
    if base is Singleton:
        flat['_singleton_id'] = 'two'
    data = flat
    if base is HasUID:
        flat['uid'] = 'two'
        data = {'__root__': 'two', 'two': flat}

    def back(**kw):
        clean()
        return canon(top.deserialize(data, **kw))
    differ(ctx, 'deserialize of ' + base.__name__, back,
           lambda: back(trusted=False, strict=False, assert_valid=False),
           [lambda: back(trusted=True), lambda: back(strict=True),
            lambda: back(assert_valid=True)])
    if base is p.HasProperties:
        for prop, val, dat in ((top._props['kid'], obj.kid, inner),
                               (p.List('', kid), [obj.kid], [inner]),
                               (p.Union('', [p.Integer(''), kid]), obj.kid,
                                inner),
                               (p.Dictionary('', value_prop=p.Instance(
                                   '', kid)), {'k': obj.kid}, {'k': inner})):
            differ(ctx, 'serialize of a property', lambda: prop.serialize(
                val), lambda: prop.serialize(val, include_class=True,
                                             save_dynamic=False),
                   [lambda: prop.serialize(val, include_class=False),
                    lambda: prop.serialize(val, save_dynamic=True)])
            differ(ctx, 'deserialize of a property',
                   lambda: canon(prop.deserialize(dat)),
                   lambda: canon(prop.deserialize(dat, trusted=False)),
                   [lambda: canon(prop.deserialize(dat, trusted=True))])
    if base is not Singleton:
        clean()
        first = make(sub)
        first.kid = registry['Grand'](a=1, b=2)

        def dup(**kw):
            clean()
            return canon(p.copy(first, **kw))
        differ(ctx, 'copy', dup, lambda: dup(trusted=True,
                                             include_class=True),
               [lambda: dup(trusted=False)])


def calls_listeners(ctx, rng):
    """observer, validator, contexts, links"""
    def history(**kw):
        log = []
        where = rng_seed.choice(['class', 'instance'])

        def func(this, change):
            log.append((change['mode'], change['value']))
        body = {'_REGISTRY': {}, 'x': p.Integer('', required=False)}
        if where == 'class':
            body['on'] = p.observer('x', **kw)(func)
        cls = type('Heard', (p.HasProperties,), body)
        obj = cls()
        if where == 'instance':
            p.observer(obj, 'x', func, **kw)
        for _ in range(5):
            obj.x = rng_seed.randint(0, 1)
        return log
    seed = rng.random()

    def again(**kw):
        nonlocal rng_seed
        rng_seed = random.Random(seed)
        return history(**kw)
    rng_seed = None
    differ(ctx, 'observer', again, lambda: again(change_only=False),
           [lambda: again(change_only=True)])

    def quiet(*args):
        rng_seed = random.Random(seed)
        log = []
        cls = type('Heard', (p.HasProperties,), {
            '_REGISTRY': {}, 'x': p.Integer('', required=False),
            'y': p.Integer('', default=2),
            'check': p.validator('x')(
                lambda this, change: log.append('validate')),
            'on': p.observer('x')(lambda this, change: log.append('set')),
            'ch': p.observer('x', change_only=True)(
                lambda this, change: log.append('change'))})
        obj = cls()
        with p.listeners_disabled(*args):
            obj.x = rng_seed.randint(0, 1)
            log.append('inside')
        obj.x = 5
        return log
    differ(ctx, 'listeners_disabled', quiet, lambda: quiet(None),
           [lambda: quiet('validate'), lambda: quiet(['observe_set'])])
    differ(ctx, 'listeners_disabled', quiet, lambda: quiet(
        ['validate', 'observe_set', 'observe_change']),
           [lambda: quiet(['observe_set', 'observe_change'])])
    pair = type('Pair', (p.HasProperties,), {
        '_REGISTRY': {}, 'x': p.Integer('', default=1),
        'y': p.Integer('', default=2)})

    def linked(maker, **kw):
        rng_seed = random.Random(seed)
        log = []
        one, two = pair(), pair()
        one.x = 3
        p.observer(two, 'x', lambda this, change: log.append(change['value']))
        made = maker((one, 'x'), (two, 'x'), **kw)
        log.append((one.x, two.x))
        for _ in range(4):
            one.x = rng_seed.randint(3, 4)
            log.append((one.x, two.x))
            if rng_seed.random() < 0.3:
                two.x = 9
        made.unlink()
        one.x = 8
        log.append((one.x, two.x))
        return log
    for maker in (p.directional_link, p.link):
        differ(ctx, maker.__name__, lambda: linked(maker),
               lambda: linked(maker, update_now=False, change_only=True),
               [lambda: linked(maker, update_now=True),
                lambda: linked(maker, change_only=False)])
    differ(ctx, 'directional_link', lambda: linked(p.directional_link),
           lambda: linked(p.directional_link, transform=lambda x: x),
           [lambda: linked(p.directional_link, transform=lambda x: x + 1)])

    def old(**kw):
        cls = type('Old', (p.HasProperties,), {
            '_REGISTRY': {}, 'x': p.Integer('', default=1),
            'y': p.Renamed('x', **kw)})
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter('always')
            obj = cls()
            obj.y = 4
            del obj.y
        # files no longer referred to may be reported at any time
        return [w.category.__name__ for w in got
                if w.category is not ResourceWarning]
    differ(ctx, 'Renamed', old, lambda: old(warn=True),
           [lambda: old(warn=False)])


def calls_others(ctx, rng):
    """filter_props, errors, _reset, tasks, doc"""
    shape = shapes.Shape(rng, 'Main', depth=1, json=True, registry={})
    body = {'_REGISTRY': {}, 'fixed': p.GettableProperty('', default=3),
            'old': p.Renamed('num', warn=False), 'num': p.Integer(''),
            'dyn': p.Integer('')(lambda this: 4)}
    cls = type('Mixed', (shape.cls,), body)
    names = list(cls._props) + ['other', 'more', '_props', 'validate']
    data = {n: rng.random() for n in rng.sample(names, rng.randint(0, 6))}
    who = rng.choice([cls, cls()]) if rng.random() < 0.5 else cls

    def split(*args):
        return tuple(list(d.items()) for d in p.filter_props(
            who, data, *args))
    differ(ctx, 'filter_props', split, lambda: split(True),
           [lambda: split(False)])

    def error(*args, **kw):
        err = p.ValidationError('text', *args, **kw)
        return [tuple(map(repr, e)) for e in err.error_tuples], str(err)
    differ(ctx, 'ValidationError', error, lambda: error(None, None, None),
           [lambda: error('reason'), lambda: error(None, 'prop')])
    for prop in (p.Integer(''), p.Array(''), p.Vector3('')):
        val = np.zeros(3)

        def refuse(**kw):
            try:
                prop.error(None, val, **kw)
            except Exception as err:          # pylint: disable=broad-except
                return type(err).__name__, str(err)
        differ(ctx, 'error', refuse, lambda: refuse(error_class=None,
                                                    extra=''),
               [lambda: refuse(error_class=TypeError),
                lambda: refuse(extra='more')])
        ctx.check(refuse(error_class=TypeError) == (
            'TypeError', refuse()[1]), 'the error class asked for is not used '
                  'or has another text', refuse(error_class=TypeError))

    plain = type('Plain', (p.HasProperties,), {
        '_REGISTRY': {}, 'num': p.Integer('', default=rng.randint(0, 3)),
        'text': p.String(''), 'items': p.List('', p.Integer(''),
                                              default=lambda: [1]),
        'old': p.Renamed('num', warn=False)})
    kept = {'num': rng.randint(4, 9), 'text': 'a', 'items': [2]}
    kept = {n: kept[n] for n in rng.sample(sorted(kept), rng.randint(1, 3))}

    def reset(*args):
        obj = plain(**kept)
        obj._reset(*args)
        return canon(obj)
    differ(ctx, '_reset', reset, lambda: reset(None),
           [lambda: reset('num'), lambda: reset('text')])
    auto = rng.choice([Leaf, p.HasProperties])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')

        def created(**kw):
            kind = type('Auto', (p.HasProperties,), {
                '_REGISTRY': {}, 'x': p.Instance('', auto, **kw)})
            return canon(kind().x)
        differ(ctx, 'Instance', created, lambda: created(auto_create=False),
               [lambda: created(auto_create=True)])

    class Out(BaseOutput):
        _REGISTRY = {}
        num = p.Integer('')

    class Task(BaseTask):
        _REGISTRY = {}
        Output = Out

        def run(self, input_obj):
            assert type(input_obj) is BaseInput
            return Out(num=rng_num)

        def process_output(self, output_obj):
            return super(Task, self).process_output(output_obj)
    rng_num = rng.randint(0, 5)
    got = Task()()
    ctx.count('calls')
    ctx.check(got == {'num': rng_num, 'success': True, 'log': ''},
              'a task gives something else than its output as a dictionary '
              'with the documented defaults', got)
    status = TaskStatus()
    ctx.check(status.validate() is True and status.progress is None and
              status.message is None, 'an empty task status is not valid')
    for kw in ({'progress': .5}, {'message': 'a'}):
        ctx.check(TaskStatus(**kw).validate() is True, 'a status without '
                  'progress or message is not valid', kw)
        out = io.StringIO()
        import contextlib
        with contextlib.redirect_stdout(out):
            Task().report_status(kw)
        ctx.check('Task' in out.getvalue() and (
            '50' in out.getvalue() if 'progress' in kw else
            'a' in out.getvalue()), 'status not reported', kw, out.getvalue())


def run_case(ctx):
    rng = ctx.rng
    roll = rng.random()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if roll < 0.55:
            declarations(ctx, rng)
        elif roll < 0.75:
            calls_json(ctx, rng)
        elif roll < 0.88:
            calls_listeners(ctx, rng)
        else:
            calls_others(ctx, rng)
