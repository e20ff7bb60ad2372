"""C29: declarations mean what they say, or are refused"""
import collections
import re
import warnings

import numpy as np

import properties as p
from properties.extras import URL, HasUID, Pointer

from vlib.canon import canon

RULE = ('A case draws a property type and a set of its documented keywords '
        'with valid values, declares it with the keywords in several orders '
        '(read-back, terms, tags, default and outcome on candidate values '
        'must agree with the model and with each other), then spoils one '
        'keyword, assigns invalid values to the finished property and uses '
        'unknown, private and read-only names, which must be refused with no '
        'effect; classes, listeners, dynamic properties and links are '
        'declared validly and invalidly too. Non-trivial: a declaration, by '
        'keywords and values.')
CASES = {'quick': 9000, 'thorough': 300000}
FLOORS = {'assigned': 5945, 'classes_made': 522, 'classes_refused': 522,
          'contexts': 2622, 'declared': 6268, 'defaults': 918, 'dynamics': 346,
          'limits_assigned': 144, 'links_refused': 437, 'listeners': 2622,
          'refused': 40987, 'spoiled': 9349, 'tagged': 9440}


class Leaf(p.HasProperties):
    _REGISTRY = {}
    num = p.Integer('number', required=False)


class Named(HasUID):
    _REGISTRY = {}
    _INSTANCES = {}


class Opaque(object):
    """Refused by every property of a type"""


class Finder(object):
    """Like a compiled regular expression"""

    def search(self, text):
        return 'a' in text


class NotFinder(object):
    search = 'not callable'


ABSENT = object()


def function(*_, **__):
    return 5


class Group(object):
    """Keywords that belong together"""

    def __init__(self, good, bad=None, check=None):
        self.good, self.bad, self.check = good, bad, check


def flag(name, bads=(0, 1, None, 'True', [], Opaque())):
    return Group(lambda rng: {name: rng.random() < 0.5},
                 lambda rng: {name: rng.choice(bads)})


def limits(low, high, draw, wrong):
    """An inclusive range, either end of which may be missing"""
    def good(rng):
        one, two = sorted([draw(rng), draw(rng)])
        if rng.random() < 0.2:
            two = one
        out = {low: one, high: two}
        for key in (low, high):
            roll = rng.random()
            if roll < 0.2:
                out[key] = None
            elif roll < 0.4:
                del out[key]
        return out

    def bad(rng):
        if wrong and rng.random() < 0.5:
            return {rng.choice([low, high]): rng.choice(wrong)}
        while True:
            one, two = draw(rng), draw(rng)
            if one != two:
                return {low: max(one, two), high: min(one, two)}
    return Group(good, bad)


def texts(rng):
    return rng.choice(['', 'a', 'Some text.', 'ünï', 'a\nb'])


NOT_TEXT = (5, None, b'a', ['a'], Opaque(), True)
NOT_CALLABLE = (5, None, 'a', {}, Opaque())


def general(required=True):
    """Keywords of every property"""
    def good(rng):
        out = {'doc': texts(rng)}
        if required and rng.random() < 0.4:
            out['required'] = rng.random() < 0.5
        for key in ('serializer', 'deserializer'):
            if rng.random() < 0.15:
                out[key] = rng.choice([
                    function, lambda value: 5, lambda value, **kw: 5])
        if rng.random() < 0.2:
            out['name'] = rng.choice(['x', '', 'a b'])
        return out

    def bad(rng):
        return rng.choice(
            [{'doc': rng.choice(NOT_TEXT)},
             {'name': rng.choice(NOT_TEXT)},
             {'serializer': rng.choice(NOT_CALLABLE)},
             {'deserializer': rng.choice(NOT_CALLABLE)}] +
            [{'required': rng.choice([0, 1, None, 'yes', []])}] * required)
    return Group(good, bad)


def case_group():
    return Group(
        lambda rng: {k: v for k, v in [
            ('strip', rng.choice([' ', 'ab', ''])),
            ('change_case', rng.choice([None, 'upper', 'lower'])),
            ('unicode', rng.random() < 0.5)] if rng.random() < 0.5},
        lambda rng: rng.choice([
            {'strip': rng.choice([None, 5, True, b' ', [' ']])},
            {'change_case': rng.choice(['UPPER', '', 5, True, ['upper'],
                                        'title'])},
            {'unicode': rng.choice([1, None, 'yes'])}]))


def regex_group():
    return Group(
        lambda rng: {'regex': rng.choice(
            ['^a', '', 'a|b', re.compile('x$'), Finder()])},
        lambda rng: {'regex': rng.choice(
            ['(', '[a', '*', 5, None, NotFinder(), ['a'], True, Opaque()])})


def words(rng):
    return rng.sample(['a', 'b', 'c', 'Red', 'blue', 'x y', 'ü', '5'],
                      rng.randint(1, 4))


def choice_group():
    def good(rng):
        names = words(rng)
        sensitive = rng.random() < 0.4
        out = {'choices': rng.choice([list, tuple, set])(names)}
        if rng.random() < 0.4:
            spare = ['k%d' % i for i in range(9)]
            table = rng.choice([dict, collections.OrderedDict])()
            for name in names:
                table[name] = rng.choice([
                    lambda: [], lambda: [spare.pop()], lambda: spare.pop(),
                    lambda: [spare.pop(), spare.pop()],
                    lambda: (spare.pop(), spare.pop()),
                    lambda: {spare.pop()}])()
            out['choices'] = table
        if sensitive:
            out['case_sensitive'] = True
            if isinstance(out['choices'], (list, tuple)):
                out['choices'] = type(out['choices'])(
                    list(out['choices']) + ['A', 'B'])
        elif rng.random() < 0.3:
            out['case_sensitive'] = False
        if rng.random() < 0.4:
            out['descriptions'] = {k: texts(rng) for k in out['choices']}
        return out

    def bad(rng):
        return rng.choice([
            {'choices': 'abc'}, {'choices': None}, {'choices': 5},
            {'choices': ['a', 5]}, {'choices': ['a', 'a']},
            {'choices': ['a', 'A'], 'case_sensitive': False},
            {'choices': ['a', 'A']}, {'choices': ['ü', 'Ü']},
            {'choices': {'a': 5}}, {'choices': {'a': [5]}},
            {'choices': {5: 'a'}}, {'choices': {'a': 'A'}},
            {'choices': {'a': 'a'}, 'case_sensitive': True},
            {'choices': {'a': 'x', 'b': 'x'}},
            {'choices': {'a': ['x'], 'b': ['X']}, 'case_sensitive': False},
            {'choices': {'a': 'b', 'b': []}}, {'choices': [None]},
            {'choices': ['a'], 'case_sensitive': 1},
            {'choices': ['a'], 'case_sensitive': None},
            {'choices': ['a', 'b'], 'descriptions': {'a': 'only'}},
            {'choices': ['a', 'b'], 'descriptions': {'a': '', 'c': ''}},
            {'choices': ['a', 'b'], 'descriptions': {'a': '', 'b': '',
                                                     'c': ''}},
            {'choices': ['a'], 'descriptions': {'a': 5}},
            {'choices': ['a'], 'descriptions': ['a']},
            {'choices': ['a'], 'descriptions': None},
            {'choices': {'a': 'b'}, 'descriptions': {'b': 'x'}}])

    def check(prop, kw):
        given = kw['choices']
        if isinstance(given, dict):
            want = {k: sorted([v] if isinstance(v, str) else v)
                    for k, v in given.items()}
        else:
            want = {k: [] for k in given}
        got = {k: sorted(v) for k, v in prop.choices.items()}
        if isinstance(given, (list, tuple, dict)) and \
                list(prop.choices) != list(given):
            return 'choices are in another order'
        if got != want:
            return 'choices read back as %r' % (prop.choices,)
        if prop.case_sensitive is not kw.get('case_sensitive', False):
            return 'case_sensitive'
        if prop.descriptions != kw.get('descriptions'):
            return 'descriptions'
        # the choices are the property's own
        spoiled = [val for val in given.values() if isinstance(val, list)] \
            if isinstance(given, dict) else []
        for val in spoiled:
            val.append('SPOILED')
        accepted = True
        try:
            prop.validate(None, 'SPOILED')
        except ValueError:
            accepted = False
        for val in spoiled:
            val.remove('SPOILED')
        if accepted or {k: sorted(v) for k, v in
                        prop.choices.items()} != want:
            return 'choices follow later changes of the lists given'
        return None
    return Group(good, bad, check)


MODES = ['r', 'r+', 'rb', 'rb+', 'w', 'w+', 'wb', 'wb+', 'a', 'a+', 'ab',
         'ab+']
IMAGE_MODES = ['rb', 'rb+', 'wb+', 'ab+']


def mode_group(modes, default):
    def good(rng):
        out, mode = {}, default
        if rng.random() < 0.8:
            mode = out['mode'] = rng.choice(modes)
        if mode is not None and rng.random() < 0.6:
            out['valid_modes'] = rng.choice([list, tuple, set])(
                {mode} | set(rng.sample(modes, rng.randint(0, 3))))
        return out

    def bad(rng):
        mode, other = rng.sample(modes, 2)
        return rng.choice([
            {'mode': rng.choice(['x', 'br', '', 5, True, ('r',), 'R'])},
            {'mode': mode, 'valid_modes': [other]},
            {'mode': mode, 'valid_modes': other},
            {'mode': mode, 'valid_modes': (mode, 'x')},
            {'mode': mode, 'valid_modes': []},
            {'mode': mode, 'valid_modes': (mode, None)}])

    def check(prop, kw):
        mode = kw.get('mode', default)
        if prop.mode != mode:
            return 'mode'
        want = set(kw['valid_modes']) if 'valid_modes' in kw else \
            {mode} if default is None and mode is not None else \
            None if default is None else set(modes)
        got = prop.valid_modes
        if (None if got is None else set(got)) != want:
            return 'valid_modes'
        return None
    return Group(good, bad, check)


def elem_check(key):
    def check(prop, kw):
        if key not in kw:
            return None
        got, given = getattr(prop, key), kw[key]
        if isinstance(given, type):
            if not (isinstance(got, p.Instance) and
                    got.instance_class is given):
                return key
        elif got is not given:
            return key
        return None
    return check


NOT_PROP = [5, 'a', int, Opaque(), [], p.GettableProperty(''),
            p.Property, p.HasProperties.__init__]


def elem_group(key):
    return Group(lambda rng: {key: rng.choice([
        lambda: p.Integer('item'), lambda: p.Integer('', min=0),
        lambda: Leaf, lambda: p.Instance('', Leaf)])()},
                 lambda rng: {key: rng.choice(NOT_PROP)}, elem_check(key))


def union_group():
    def good(rng):
        out = {'props': rng.choice([list, tuple])(rng.sample(
            [p.Integer(''), Leaf, p.String(''), p.List('', p.Float('')),
             p.Boolean('')], rng.randint(1, 4)))}
        if rng.random() < 0.4:
            out['strict_instances'] = rng.random() < 0.5
        return out

    def check(prop, kw):
        if not isinstance(prop.props, tuple) or \
                len(prop.props) != len(kw['props']):
            return 'props'
        for got, given in zip(prop.props, kw['props']):
            if isinstance(given, type):
                if not (isinstance(got, p.Instance) and
                        got.instance_class is given):
                    return 'props'
            elif got is not given:
                return 'props'
        if prop.strict_instances is not kw.get('strict_instances', False):
            return 'strict_instances'
        return None
    return Group(good, lambda rng: rng.choice([
        {'props': rng.choice([p.Integer(''), None, 5, 'a', {p.Integer('')},
                              {'a': p.Integer('')}, Leaf])},
        {'props': [p.Integer(''), rng.choice(NOT_PROP)]},
        {'props': [p.Integer('')], 'strict_instances': rng.choice(
            [1, None, 'x'])}]), check)


def array_group():
    def shape(rng):
        return tuple(rng.choice(['*', 0, 1, 3])
                     for _ in range(rng.randint(0, 3)))

    def good(rng):
        out = {}
        if rng.random() < 0.7:
            out['shape'] = rng.choice([
                lambda: None, lambda: shape(rng), lambda: shape(rng),
                lambda: {shape(rng), shape(rng)}])()
        if rng.random() < 0.7:
            out['dtype'] = rng.choice([
                int, float, bool, (int, float), [bool, int], (float,),
                (float, int, bool), complex])
        if rng.random() < 0.3:
            out['coerce'] = rng.random() < 0.5
        return out

    def bad(rng):
        return rng.choice([
            {'shape': rng.choice([5, [3], ['*'], (3, 'x'), (1.5,), (None,),
                                  ('**',), 'x', {3}, {(1,), 5}, {(1, 'y')},
                                  ((1, 2),), Opaque()])},
            {'dtype': rng.choice([str, (), [], None, 'int', (int, str), 5,
                                  (int, 'float'), object, (int, 5),
                                  Opaque(), {int}])},
            {'coerce': rng.choice([1, None, 'x'])}])

    def check(prop, kw):
        want = kw.get('shape', ('*',))
        want = want if want is None or isinstance(want, set) else {want}
        if prop.shape != want:
            return 'shape'
        want = kw.get('dtype', (float, int))
        want = want if isinstance(want, (list, tuple)) else (want,)
        if tuple(prop.dtype) != tuple(want):
            return 'dtype'
        if prop.coerce is not kw.get('coerce', True):
            return 'coerce'
        return None
    return Group(good, bad, check)


def rows_group(width):
    return Group(
        lambda rng: {'shape': rng.choice([
            ('*', width), (2, width), {('*', width)},
            {(1, width), (2, width)}])} if rng.random() < 0.6 else {},
        lambda rng: {'shape': rng.choice([
            ('*',), (width,), ('*', width + 1), ('*', '*'), (1, 1, width),
            {('*', width), ('*', 5)}, None, width, ()])},
        lambda prop, kw: None if prop.shape == (
            kw['shape'] if isinstance(kw.get('shape'), set) else
            {kw.get('shape', ('*', width))}) else 'shape')


def length_group():
    return Group(lambda rng: {'length': rng.choice([1, 2.5, 1e-3, 10, None])},
                 lambda rng: {'length': rng.choice(
                     [0, -1, -0.5, 'x', [1], (1,), 0., 1j])})


def one(key, goods, bads):
    return Group(lambda rng: {key: rng.choice(goods)},
                 (lambda rng: {key: rng.choice(bads)}) if bads else None)


def integers(rng):
    return rng.randint(-9, 9)


def floats(rng):
    return rng.choice([rng.randint(-9, 9), rng.uniform(-9, 9), -float('inf'),
                       float('inf'), 0.0])


def sizes(rng):
    return rng.randint(0, 5)


def container(name):
    def groups():
        out = [elem_group('prop'), flag('coerce'),
               limits('min_length', 'max_length', sizes,
                      [-1, 1.5, 'a', [1], Opaque(), -5])]
        if name != 'Tuple':
            out.append(flag('observe_mutations'))
        return out
    return getattr(p, name), groups


ROWS = [1.0, 2.0, 3.0]
# (class, groups, needed keywords, good defaults)
KINDS = {
    'Property': (p.Property, lambda: [], [5, 'a', [1], (lambda: 3)]),
    'GettableProperty': (p.GettableProperty, lambda: [], [5, (lambda: 3)]),
    'Boolean': (p.Boolean, lambda: [flag('cast')], [True, (lambda: False)]),
    'Integer': (p.Integer, lambda: [
        flag('cast'), limits('min', 'max', integers, ())], []),
    'Float': (p.Float, lambda: [
        flag('cast'), limits('min', 'max', floats, ())], []),
    'Complex': (p.Complex, lambda: [flag('cast')], [1j, (lambda: 2j)]),
    'String': (p.String, lambda: [case_group(), regex_group()], []),
    'StringChoice': (p.StringChoice, lambda: [choice_group()], []),
    'Color': (p.Color, lambda: [], ['red', (lambda: (1, 2, 3)), '#fff']),
    'DateTime': (p.DateTime, lambda: [], ['1995/08/12']),
    'File': (p.File, lambda: [mode_group(MODES, None)], []),
    'ImagePNG': (p.ImagePNG, lambda: [
        mode_group(IMAGE_MODES, 'rb'),
        one('filename', ['a.png', '', 'ü'], [5, None, b'a', True])], []),
    'Tuple': container('Tuple') + ([(1, 2), (lambda: ()), ()],),
    'List': container('List') + ([[1, 2], list, []],),
    'Set': container('Set') + ([{1, 2}, set],),
    'Dictionary': (p.Dictionary, lambda: [
        elem_group('key_prop'), elem_group('value_prop'), flag('coerce'),
        flag('observe_mutations')], [dict, {}]),
    'Instance': (p.Instance, lambda: [
        one('instance_class', [Leaf, Leaf, p.HasProperties],
            [5, None, 'Leaf', Leaf(), function])], [Leaf]),
    'Pointer': (Pointer, lambda: [
        one('instance_class', [Named], [5, None, Named(), 'x'])], []),
    'Union': (p.Union, lambda: [union_group()], []),
    'Array': (p.Array, lambda: [array_group()], []),
    'Vector2': (p.Vector2, lambda: [length_group(), flag('coerce')],
                [[1., 2.], 'X', (lambda: (1, 1))]),
    'Vector3': (p.Vector3, lambda: [length_group(), flag('coerce')],
                [ROWS, 'x', (lambda: ROWS)]),
    'Vector3Array': (p.Vector3Array, lambda: [
        length_group(), rows_group(3)], []),
    'Vector2Array': (p.Vector2Array, lambda: [
        length_group(), rows_group(2)], []),
    'URL': (URL, lambda: [
        one('remove_parameters', [True, False], None),
        one('remove_fragment', [True, False], None)],
            ['http://a.b/c']),
    'Renamed': (p.Renamed, lambda: [
        one('new_name', ['x', 'num', ''], [5, None, b'x', ['x'], True]),
        flag('warn')], []),
}
NEEDED = {'choices', 'prop', 'instance_class', 'props', 'new_name'}
NO_REQUIRED = {'GettableProperty', 'Renamed'}
# not refused by the type
LAX = {'Property', 'GettableProperty', 'Renamed'}
CANDIDATES = [0, 1, 3, -2, 2.5, 1j, 'a', 'b', 'A', 'Red', ' ab ', '', True,
              False, [1, 2], (1,), (), {1}, {}, {'a': 1}, ROWS, [[1., 2.]],
              [[1., 2., 3.]], np.ones(3), np.array([1, 2]), 'X',
              np.zeros((2, 2, 2)), [True], 'red', 'http://a.b/c?d#e', None,
              [1, 2, 3, 4], {1, 2, 3, 4}, (1, 2, 3), b'a']


def declare(rng, cls, kwargs):
    keys = list(kwargs)
    rng.shuffle(keys)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return cls(**collections.OrderedDict((k, kwargs[k]) for k in keys))


def frozen(val):
    """Containers given as keywords, with the identity of what they hold"""
    if isinstance(val, dict):
        return 'd', [(k, frozen(v)) for k, v in val.items()]
    if isinstance(val, (list, tuple)):
        return type(val).__name__, [frozen(v) for v in val]
    if isinstance(val, set):
        return 's', {repr(v) for v in val}
    return id(val)


def reads(prop, groups, kwargs):
    """What does not read back as declared?"""
    for group in groups:
        if group.check is not None:
            wrong = group.check(prop, kwargs)
            if wrong:
                return wrong
    told = {'choices', 'descriptions', 'case_sensitive', 'mode',
            'valid_modes', 'prop', 'key_prop', 'value_prop', 'props',
            'strict_instances', 'shape', 'dtype'}
    for key, val in kwargs.items():
        if key in told or key in ('serializer', 'deserializer', 'regex',
                                  'default'):
            continue
        got = getattr(prop, key)
        if got is not val and not (got == val and key in (
                'length', 'min', 'max')):
            return '%s is %r' % (key, got)
    for key in ('serializer', 'deserializer'):
        got = getattr(prop, key)
        if (got is None) != (key not in kwargs):
            return key
        if got is not None and got(1, include_class=True) != 5:
            return key
    if 'regex' in kwargs:
        given = kwargs['regex']
        got = prop.regex
        if isinstance(given, str):
            if got.pattern != given:
                return 'regex'
        elif got is not given:
            return 'regex'
    return None


def facts(prop):
    """Every public setting of a declared property"""
    out = {}
    for key in dir(type(prop)):
        if key[0] == '_' or not isinstance(getattr(type(prop), key),
                                           property):
            continue
        if key in ('terms', 'serializer', 'deserializer'):
            continue
        val = getattr(prop, key)
        if isinstance(val, (str, int, float, bool, type(None))):
            val = repr(val)
        elif type(val) is p.Property:     # made when asked for
            val = type(val).__name__
        out[key] = val if isinstance(val, str) else frozen(val)
    return out


def outcomes(prop, values):
    out = []
    for val in values:
        try:
            out.append(canon(prop.validate(None, val)))
        except ValueError as err:
            out.append(type(err).__name__)
        except Exception as err:     # pylint: disable=broad-except
            out.append(type(err).__name__)
    return out


def refused(ctx, make, errors, what, *told):
    """The declaration raises one of these errors"""
    ctx.count('refused')
    try:
        made = make()
    except errors as err:
        return err
    except Exception as err:         # pylint: disable=broad-except
        ctx.fail('%s refused with %s' % (what, type(err).__name__), err,
                 *told)
    else:
        ctx.fail('%s accepted' % what, *(told + (made,)))
    return None


def declaration(ctx, rng):
    kind = rng.choice(sorted(KINDS))
    cls, make_groups, defaults = KINDS[kind]
    groups = make_groups()
    base = general(required=kind not in NO_REQUIRED)
    kwargs = {}
    for group in groups:
        drawn = group.good(rng)
        if NEEDED & set(drawn) or rng.random() < 0.7:
            kwargs.update(drawn)
    kwargs.update(base.good(rng))
    if kind == 'Renamed':
        for key in ('serializer', 'deserializer'):
            kwargs.pop(key, None)
    if kind in ('Tuple', 'List', 'Set') and isinstance(
            kwargs['prop'], (type, p.Instance)):
        defaults = []
    default = ABSENT
    if defaults and kind not in ('Property',) and rng.random() < 0.5 and \
            'key_prop' not in kwargs and 'coerce' not in kwargs and \
            'length' not in kwargs:
        default = kwargs['default'] = rng.choice(defaults)
    told = '%s(%r)' % (kind, kwargs)
    ctx.note(told)
    ctx.nontrivial(kind, sorted((k, repr(v)) for k, v in kwargs.items()))
    before = frozen(kwargs)
    props = []
    for _ in range(2):
        ctx.count('declared')
        try:
            prop = declare(rng, cls, kwargs)
        except Exception as err:     # pylint: disable=broad-except
            ctx.fail('a valid declaration was refused', told, err)
        props.append(prop)
        wrong = reads(prop, groups, kwargs)
        ctx.check(wrong is None, 'a keyword does not read back', wrong, told)
        ctx.check(frozen(kwargs) == before, 'declaring changed its '
                  'arguments', told)
        if default is not ABSENT:
            ctx.count('defaults')
            ctx.check(prop.default is default, 'the default does not read '
                      'back', told, prop.default)
        elif kind not in ('Union', 'Uuid'):
            ctx.check(prop.default is p.undefined, 'a default from nowhere',
                      told, prop.default)
        terms = prop.terms
        ctx.check(terms.cls is cls and terms.args == () and frozen(
            terms.kwargs) == frozen({k: kwargs[k] for k in terms.kwargs}) and
                  set(terms.kwargs) == set(kwargs), 'terms are not those of '
                  'the declaration', told, terms)
        tags(ctx, rng, prop, told)
    if kind not in ('File', 'ImagePNG', 'Renamed', 'Pointer'):
        values = rng.sample(CANDIDATES, 12)
        ctx.check(outcomes(props[0], values) == outcomes(props[1], values),
                  'the order of keywords matters', told, values,
                  outcomes(props[0], values), outcomes(props[1], values))
    spoil(ctx, rng, kind, cls, groups + [base], kwargs, props[0])
    odd_names(ctx, rng, cls, kwargs, props[0], told)


def tags(ctx, rng, prop, told):
    ctx.check(prop.meta == {}, 'tagged by nobody', told, prop.meta)
    want, given = {}, []
    for _ in range(rng.randint(0, 3)):
        one_, two = {}, {}
        for into in (one_, two):
            if rng.random() < 0.7:
                into[rng.choice('abc')] = rng.choice([1, 'x', None, [2]])
        args = (one_,) if rng.random() < 0.6 else ()
        ctx.count('tagged')
        ctx.check(prop.tag(*args, **two) is prop, 'tag returns something '
                  'else', told)
        want.update(one_ if args else {})
        want.update(two)
        ctx.check(prop.meta == want and prop.terms.meta == want,
                  'tags are wrong', told, prop.meta, want)
        given.append((one_, dict(one_)))
    for one_, was in given:
        ctx.check(one_ == was, 'tagging changed the tags given', told, one_,
                  was)
        one_['late'] = 1
        ctx.check(prop.meta == want, 'tags follow later changes of a '
                  'dictionary given', told, prop.meta, want)
    bad = rng.choice([(5,), ('a',), ({}, {}), ([('a', 1)],), (None,)])
    refused(ctx, lambda: prop.tag(*bad), TypeError, 'a meaningless tag', told,
            bad)
    ctx.check(prop.meta == want, 'a refused tag changed the tags', told)
    prop.sphinx(), prop.sphinx_class(), prop.info
    ctx.check(prop.meta == want, 'documentation changed the tags', told,
              prop.meta, want)


def spoil(ctx, rng, kind, cls, groups, kwargs, prop):
    """One keyword is invalid: in the declaration, and assigned afterwards"""
    groups = [g for g in groups if g.bad is not None]
    for _ in range(3):
        bad = rng.choice(groups).bad(rng)
        if kind == 'Renamed' and set(bad) & {'serializer', 'deserializer'}:
            continue
        mixed = {k: v for k, v in kwargs.items() if k != 'default'}
        for key in ('mode', 'valid_modes', 'choices', 'descriptions',
                    'case_sensitive'):
            if set(bad) & {'mode', 'valid_modes', 'choices', 'descriptions',
                           'case_sensitive'}:
                mixed.pop(key, None)
        for pair in (('min', 'max'), ('min_length', 'max_length')):
            if set(bad) & set(pair):
                for key in pair:
                    mixed.pop(key, None)
        mixed.update(bad)
        ctx.count('spoiled')
        ctx.nontrivial('spoiled', kind, sorted(
            (k, repr(v)) for k, v in bad.items()))
        refused(ctx, lambda: declare(rng, cls, mixed), TypeError,
                'a meaningless declaration was', kind, bad, mixed)
        if len(bad) == 1 and not {'valid_modes', 'choices'} & set(bad) and \
                rng.random() < 0.7:
            (key, val), = bad.items()
            before = facts(prop)
            ctx.count('assigned')
            refused(ctx, lambda: setattr(prop, key, val), TypeError,
                    'a meaningless setting was', kind, bad)
            ctx.check(facts(prop) == before, 'a refused setting changed the '
                      'property', kind, bad)
    for low, high in (('min', 'max'), ('min_length', 'max_length')):
        if kwargs.get(low) is not None and kwargs.get(high) is not None:
            before = facts(prop)
            step = rng.choice([1, 3])
            ctx.count('limits_assigned')
            if rng.random() < 0.5 and kwargs[high] + step > kwargs[high]:
                refused(ctx, lambda: setattr(
                    prop, low, kwargs[high] + step), TypeError,
                        'a lower limit above the upper one', kwargs)
            elif (kwargs[low] - step >= 0 or low == 'min') and \
                    kwargs[low] - step < kwargs[low]:
                refused(ctx, lambda: setattr(
                    prop, high, kwargs[low] - step), TypeError,
                        'an upper limit below the lower one', kwargs)
            ctx.check(facts(prop) == before, 'a refused limit changed the '
                      'property', kwargs)
    if kind in LAX or kwargs.get('cast'):
        return
    mixed = {k: v for k, v in kwargs.items()}
    junk = Opaque()
    mixed['default'] = rng.choice([junk, lambda: junk])
    refused(ctx, lambda: declare(rng, cls, mixed), (ValueError, TypeError),
            'an invalid default', kind, mixed)


def odd_names(ctx, rng, cls, kwargs, prop, told):
    key, val = rng.choice([
        ('bogus', 1), ('_name', 'x'), ('_default', 3), ('terms', {}),
        ('terms', {'args': (), 'kwargs': {}}), ('info', 'x'), ('meta', {}),
        ('Required', True), ('_backend', 1), ('defaults', 1)])
    refused(ctx, lambda: declare(rng, cls, dict(kwargs, **{key: val})),
            AttributeError, 'an unknown keyword', key, told)
    bad = rng.choice([5, {}, {'args': ()}, {'kwargs': {}}, None,
                      {'args': [], 'kwargs': {}}, {'args': (), 'kwargs': []},
                      {'args': (), 'kwargs': {}, 'more': 1},
                      {'args': (), 'x': {}}, {'kwargs': {}, 'x': ()}])
    before = prop.terms
    refused(ctx, lambda: setattr(prop, 'terms', bad), TypeError,
            'meaningless terms', bad)
    after = prop.terms
    ctx.check(after.kwargs is before.kwargs and after.args is before.args,
              'refused terms changed the terms', told)


# --------------------------------------------------------------- classes

def class_case(ctx, rng):
    """A class is made as declared or not at all"""
    registry = {}
    Base = type('Base', (p.HasProperties,), {
        '_REGISTRY': registry, 'num': p.Integer('n', default=3),
        'word': p.String('w', required=False),
        'fixed': p.GettableProperty('f', default=1),
        'ident': p.Uuid('i'), 'old': p.Renamed('num'),
        'dyn': p.Property('d')(named(lambda self: 4, 'dyn'))})
    name = rng.choice(['Made', 'Base', 'Other'])
    before = dict(registry)

    def body(**extra):
        out = {'more': p.Float('m', required=False)}
        out.update(extra)
        return out

    unknown = rng.choice(['nope', '', 'Num', '_num', 'validate'])
    frozen_name = rng.choice(['fixed', 'dyn', 'ident', 'old'])
    cases = [
        ('an observer of an unknown name', TypeError, lambda: body(
            see=p.observer(unknown)(lambda self, change: None))),
        ('a validator of an unknown name', TypeError, lambda: body(
            see=p.validator(['num', unknown])(lambda self, change: None))),
        ('an observer of an immutable property', TypeError, lambda: body(
            see=p.observer(('more', frozen_name), change_only=True)(
                lambda self, change: None))),
        ('a renamed unknown name', TypeError, lambda: body(
            old=p.Renamed(unknown))),
        ('a default of an unknown name', AttributeError, lambda: body(
            _defaults={unknown: 5})),
        ('an invalid default', AttributeError, lambda: body(
            _defaults=rng.choice([{'num': 'x'}, {'num': lambda: 'x'},
                                  {'word': 5}, {'more': 'text'}]))),
        ('a meaningless documentation order', AttributeError, lambda: body(
            _doc_order=rng.choice([['num'], 5, 'num',
                                   ['num', 'word', 'fixed', 'dyn', 'ident',
                                    'old'],
                                   ['num', 'word', 'fixed', 'dyn', 'more', 'ident', 'old',
                                    'bogus']]))),
        ('a meaningless private setting', AttributeError, lambda: body(
            _doc_private=rng.choice([1, None, 'yes'])))]
    what, errors, make = rng.choice(cases)
    ctx.nontrivial('class', what, unknown, name)
    ctx.count('classes_refused')
    refused(ctx, lambda: type(name, (Base,), make()), errors, what, unknown)
    ctx.check(registry == before, 'a refused class is registered', what,
              registry)
    good = {
        'see': p.observer(rng.choice(['num', ['num', 'more'], {'word'},
                                      ('more',), p.everything]))(
                                          lambda self, change: None),
        'old': p.Renamed(rng.choice(['num', 'more', 'word'])),
        '_defaults': {'num': 7},
        '_doc_order': ['num', 'word', 'fixed', 'dyn', 'more', 'old',
                       'ident'],
        '_doc_private': True}
    ctx.count('classes_made')
    made = type(name, (Base,), body(**good))
    ctx.check(registry.get(name) is made, 'a class is not registered', name)
    obj = made()
    ctx.check(obj.num == 7 and obj.fixed == 1 and obj.dyn == 4,
              'a class made after a refused one is wrong', obj.serialize())


def named(func, name):
    func.__name__ = name
    return func


def dynamic_case(ctx, rng):
    """Functions of dynamic properties must have the right form"""
    prop = rng.choice([p.Integer, p.Property, p.Float])('documented')
    if rng.random() < 0.5:
        prop.tag(a=1)
    bads = [lambda: 5, lambda self, other: 5, lambda self, *, a=1: 5]
    refused(ctx, lambda: p.Integer('')(named(rng.choice(bads[:2]), 'x')),
            TypeError, 'a dynamic function with other arguments')
    refused(ctx, lambda: p.Integer('')(rng.choice([5, None, 'x', {}])),
            TypeError, 'a dynamic property without function')
    refused(ctx, lambda: p.Integer('', default=3)(named(
        lambda self: 5, 'x')), TypeError, 'a dynamic default')
    store = []
    dyn = prop(named(lambda self: store[-1] if store else None, 'x'))
    ctx.count('dynamics')
    ctx.nontrivial('dynamic', type(prop).__name__, prop.meta)
    ctx.check(isinstance(dyn, p.basic.DynamicProperty) and dyn.prop is prop
              and dyn.name == 'x' and dyn.doc == prop.doc and
              dyn.meta == prop.meta, 'a dynamic property is wrong', dyn)
    refused(ctx, lambda: setattr(dyn, 'name', rng.choice([5, None, ['x']])),
            TypeError, 'a meaningless name')
    ctx.check(dyn.name == 'x' and prop.name == 'x', 'a refused name is used')
    for reg, args, attr in (('setter', 2, 'set_func'),
                            ('deleter', 1, 'del_func')):
        make = {1: lambda self: store.clear(),
                2: lambda self, value: store.append(value)}
        register = getattr(dyn, reg)
        wrong = [named(make[3 - args], 'x'), named(make[args], 'y'),
                 named(lambda: None, 'x'), named(lambda a, b, c: None, 'x'),
                 5, None, 'x']
        rng.shuffle(wrong)
        make = {1: lambda self: store.clear(),
                2: lambda self, value: store.append(value)}
        for bad in wrong[:3]:
            refused(ctx, lambda: register(bad), TypeError,
                    'a meaningless ' + reg, bad)
            ctx.check(getattr(dyn, attr) is None,
                      'a refused %s is in use' % reg)
        good = named(make[args], 'x')
        ctx.check(register(good) is dyn and getattr(dyn, attr) is good,
                  'a %s is not in use' % reg)
    cls = type('Dyn', (p.HasProperties,), {'_REGISTRY': {}, 'x': dyn})
    obj = cls()
    obj.x = 3
    ctx.check(obj.x == 3 and store == [3], 'the setter is not used', store)
    del obj.x
    ctx.check(obj.x is None and store == [], 'the deleter is not used', store)


def listener_case(ctx, rng):
    """Listeners, contexts and links need meaningful arguments"""
    deco = rng.choice([p.observer, p.validator])
    for bad in (5, ['a', 5], (None,), {5}, [b'a'], 3.5):
        if deco is p.validator and callable(bad):
            continue
        refused(ctx, lambda: deco(bad), TypeError, 'names that are none', bad)
    goods = ['a', ['a', 'b'], ('a',), {'a'}, p.everything, []]
    for good in goods:
        ctx.count('listeners')
        obs = deco(good)
        want = good if good is p.everything else (
            {good} if isinstance(good, str) else set(good))
        got = obs.names if obs.names is p.everything else set(obs.names)
        ctx.check(got == want, 'observed names differ', good, obs.names)
    for bad in ('x', 5, ['validate', 'x'], object(), {'observe'}, b'validate',
                {'validate': 1}):
        refused(ctx, lambda: p.listeners_disabled(bad), TypeError,
                'a kind of listener that is none', bad)
    for good in (None, 'validate', ['observe_set'], ('observe_change',),
                 {'validate', 'observe_set'}, []):
        ctx.count('contexts')
        p.listeners_disabled(good)
    ctx.nontrivial('listeners', deco.__name__)
    link_case(ctx, rng)


def link_case(ctx, rng):
    cls = type('Linked', (p.HasProperties,), {
        '_REGISTRY': {}, 'a': p.Property('', required=False),
        'b': p.Property('', required=False)})
    objs = [cls(a=i, b=-i) for i in range(4)]
    items = [(obj, 'a') for obj in objs]
    bad = rng.choice([
        (objs[3], 'nope'), (objs[3],), (objs[3], 5), (cls, 'a'), ('a', 'a'),
        [objs[3], 'a'], objs[3], None, (objs[3], 'a', 'b'), (None, 'a'),
        (objs[3], None), ({'a': 1}, 'a')])
    now = rng.random() < 0.5
    which = rng.choice(['target', 'source', 'link', 'same', 'transform',
                        'link transform', 'few', 'twice'])
    pos = rng.randint(0, 3)
    listed = items[:3]
    listed.insert(pos, bad)
    before = [canon(obj) for obj in objs]
    make = {
        'target': lambda: p.directional_link(items[0], bad, update_now=now),
        'source': lambda: p.directional_link(bad, items[0], update_now=now),
        'link': lambda: p.link(*listed),
        'same': lambda: p.directional_link(items[0], items[0],
                                           update_now=now),
        'transform': lambda: p.directional_link(
            items[0], items[1], update_now=now, transform=rng.choice([
                5, 'x', lambda: 1, lambda a, b: a])),
        'link transform': lambda: p.link(*items[:2], transform=lambda x: x),
        'few': lambda: p.link(*items[:rng.randint(0, 1)]),
        'twice': lambda: p.link(items[0], items[1], items[0]),
    }[which]
    ctx.nontrivial('link', which, repr(bad)[:20], pos, now)
    ctx.count('links_refused')
    refused(ctx, make, ValueError, 'a meaningless link', which, bad)
    ctx.check([canon(obj) for obj in objs] == before, 'a refused link '
              'changed values', which)
    objs[rng.randint(0, 3)].a = 77
    ctx.check([obj.a for obj in objs].count(77) == 1, 'a refused link is in '
              'effect', which, listed, [obj.a for obj in objs])


def run_case(ctx):
    rng = ctx.rng
    roll = rng.random()
    if roll < 0.7:
        declaration(ctx, rng)
    elif roll < 0.82:
        class_case(ctx, rng)
    elif roll < 0.9:
        dynamic_case(ctx, rng)
    else:
        listener_case(ctx, rng)
