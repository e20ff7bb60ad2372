"""C23: array and vector properties enforce shape, type and scaling"""
import itertools
import json
import math

import numpy as np
import properties as p
import vectormath as vmath

RULE = ('A case draws array declarations (shape sets up to rank 3, dtype '
        'sets, coercion) or vector declarations (2-D/3-D, single/array, '
        'length, rows) and offers inputs of every rank and width as lists, '
        'tuples, ndarrays (all dtypes, byte orders, non-contiguous, '
        'read-only, subclasses) and direction names in all spellings; an '
        'independent model decides acceptance, class, type, values, scaling '
        'and aliasing, and accepted values go through JSON text. '
        'Non-trivial: a decision, by declaration, input form, shape, dtype.')
CASES = {'quick': 1260, 'thorough': 20000}
FLOORS = {'accepted': 3527, 'bad_declarations': 972, 'equal_checks': 380,
          'good_declarations': 117, 'named': 288, 'names': 2613, 'no_json':
          796, 'no_names': 569, 'open': 502, 'refused': 2670, 'refused_zero':
          134, 'round_trips': 5239, 'scaled': 724, 'unaliased': 3162}
KINDS = {float: 'f', int: 'ui', bool: 'b', complex: 'c'}
DTYPES = ['?', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f2', 'f4',
          'f8', 'c8', 'c16', '>f8', '>i4', '>u2', 'U3', 'O', 'S2', 'M8[s]']
DIRS = {'ZERO': (0, 0, 0), 'X': (1, 0, 0), 'Y': (0, 1, 0), 'Z': (0, 0, 1),
        '-X': (-1, 0, 0), '-Y': (0, -1, 0), '-Z': (0, 0, -1),
        'EAST': (1, 0, 0), 'WEST': (-1, 0, 0), 'NORTH': (0, 1, 0),
        'SOUTH': (0, -1, 0), 'UP': (0, 0, 1), 'DOWN': (0, 0, -1)}


class Sub(np.ndarray):
    """User's own array class"""


class ListSub(list):
    """User's own list class"""


class WordSub(str):
    """User's own string class"""


def spellings(word):
    """Every mix of upper and lower case"""
    return sorted({''.join(c) for c in itertools.product(
        *[(ch.lower(), ch.upper()) for ch in word])})


# ---------------------------------------------------------------- inputs

def fill(rng, shape, typ):
    size = int(np.prod(shape)) if shape else 1
    if typ == 'f':
        vals = [rng.choice([rng.uniform(-9, 9), rng.uniform(-9, 9), 0.1,
                            float('nan'), float('inf'), -float('inf'), -0.0,
                            1e300, 5e-324, 1 / 3., 2.0 ** 60, 2.5])
                for _ in range(size)]
    elif typ == 'i':
        vals = [rng.choice([rng.randint(-9, 9), 2 ** 53 + 1, -2 ** 62, 0])
                for _ in range(size)]
    elif typ == 'u':
        vals = [rng.choice([rng.randint(0, 9), 2 ** 63 + 5, 2 ** 64 - 1])
                for _ in range(size)]
    elif typ == 'c':
        vals = [complex(rng.randint(-3, 3), rng.randint(-3, 3))
                for _ in range(size)]
    else:
        vals = [rng.random() < 0.5 for _ in range(size)]
    dtype = {'f': 'f8', 'i': 'i8', 'u': 'u8', 'c': 'c16', 'b': '?'}[typ]
    return np.array(vals, dtype=dtype).reshape(shape)


def dress(rng, arr, counts=None):
    """The same numbers in one of many array forms"""
    if rng.random() < 0.3:
        narrow = {'f': ['f2', 'f4', '>f8'], 'i': ['i1', 'i2', '>i4', 'i4'],
                  'u': ['u1', 'u2', '>u2'], 'c': ['c8'], 'b': ['?']}
        with np.errstate(all='ignore'):
            arr = arr.astype(rng.choice(narrow[arr.dtype.kind]))
    roll = rng.random()
    if roll < 0.15 and arr.ndim:
        big = np.zeros((2 * arr.shape[0],) + arr.shape[1:], arr.dtype)
        big[::2] = arr
        return big[::2]
    if roll < 0.25 and arr.ndim:
        return arr[::-1]
    if roll < 0.35 and arr.ndim > 1:
        return np.asfortranarray(arr)
    if roll < 0.45:
        arr = arr.copy()
        arr.setflags(write=False)
        return arr
    if roll < 0.55:
        return arr.copy().view(Sub)
    if roll < 0.6 and arr.ndim > 1:
        return arr.T
    return arr


def nest(rng, arr):
    """As nested lists and tuples of Python or numpy scalars"""
    if arr.ndim == 0:
        return arr.item() if rng.random() < 0.7 else arr[()]
    rows = [nest(rng, arr[i]) for i in range(arr.shape[0])]
    return rng.choice([list, list, tuple, ListSub])(rows)


def draw_shapes(rng):
    def one():
        return tuple(rng.choice(['*', '*', 0, 1, 2, 3])
                     for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 2, 3])))
    if rng.random() < 0.12:
        return None
    return {one() for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4]))}


def shape_for(rng, shapes):
    if shapes is None or rng.random() < 0.35:
        return tuple(rng.choice([0, 1, 2, 3, 1, 2, 3])
                     for _ in range(rng.choice([0, 1, 1, 2, 2, 3])))
    pick = rng.choice(sorted(shapes, key=repr))
    out = [rng.choice([0, 1, 2, 3, 2, 3]) if s == '*' else s for s in pick]
    if rng.random() < 0.25 and out:
        i = rng.randrange(len(out))
        out[i] = max(0, out[i] + rng.choice([-1, 1]))
    elif rng.random() < 0.1:
        out.insert(rng.randint(0, len(out)), rng.choice([1, 2]))
    return tuple(out)


def odd(rng):
    """Not numbers in a rectangle"""
    return rng.choice([
        5, 1.5, True, 'x', 'EAST', '', None and 0, {1, 2}, {'a': 1}, object(),
        range(3), [[1, 2], [3]], [[1, 2], 3], ['a', 'b'], [1, 'a'], [{}],
        [object(), 1, 2], [None, 1, 2], [1, None], [[None, 1, 2]], [[], [1]],
        [2 ** 70, 1], [[1, 2, 3], 'no'], (x for x in [1, 2]), b'abc',
        np.float64(3), np.array('x'), np.array(['a', 'b', 'c']),
        np.array([None, 1.0, 2.0]), np.array([1, 2, 3], dtype='M8[s]'),
        np.array([1, 2, 3], dtype='m8[s]'), [1 + 2j, 1, 2], [[[1, 2, 3]]],
        [True, False], [1, 2.5, True], [np.array([1, 2]), np.array([3, 4])],
        [np.array([1.0]), [2.0]], [float('nan')], [[]], [[], []], [], (),
        np.zeros((0, 3)), np.zeros((0, 2)), np.zeros((2, 0)), np.zeros(0),
        np.ma.array([1., 2., 3.], mask=[0, 1, 0]), memoryview(b'abc'),
        np.array([(1, 2.0)], dtype=[('a', 'i4'), ('b', 'f8')]),
        [np.float32(1.5), np.int8(3), 2], [1, 2, 3], [1., 2.], [1., 2., 3.],
        int, [int], 2 ** 70, bytearray(b'ab'), (1.0, 2.0), [(1., 2.)]])


# ---------------------------------------------------------------- arrays

def wanted(val, shapes, types, coerce):
    """None when the array must be rejected, else the expected array"""
    if not isinstance(val, (tuple, list, np.ndarray)):
        return None
    if coerce:
        try:
            arr = np.array(val)
        except ValueError:
            return None
    elif isinstance(val, np.ndarray):
        arr = val
    else:
        return None
    if not any(arr.dtype.kind in KINDS[t] for t in types):
        return None
    if shapes is None:
        return arr
    for shape in shapes:
        if len(shape) == arr.ndim and all(
                w == '*' or w == n for w, n in zip(shape, arr.shape)):
            return arr
    return None


def same_bits(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and \
        repr(a.tolist()) == repr(b.tolist())


def same_values(a, b):
    """Equal numbers, whatever their width"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    for x, y in zip(a.ravel().tolist(), b.ravel().tolist()):
        if not (x == y or (x != x and y != y)):
            if not (isinstance(x, float) or isinstance(y, float)) or \
                    float(x) != float(y):
                return False
    return True


def memory_of(val):
    if isinstance(val, np.ndarray):
        return [val]
    if isinstance(val, (list, tuple)):
        return [m for v in val for m in memory_of(v)]
    return []


def picture(val):
    """Everything about an input that setting a property must not change"""
    if isinstance(val, np.ndarray):
        return (type(val), val.dtype, val.shape, val.strides,
                repr(val.tolist()), val.flags.writeable)
    if isinstance(val, (list, tuple)):
        return (type(val), [picture(v) for v in val])
    return (type(val), repr(val))


def apart(ctx, val, out, where):
    """Changing either one does not show in the other"""
    for mem in memory_of(val):
        ctx.check(not np.shares_memory(mem, out),
                  'the stored array shares memory with its source', where)
    ctx.count('unaliased')


def roundtrip_ok(shape):
    """Sizes that nested JSON lists can express"""
    return all(n for n in shape[:-1])


def through_json(ctx, obj, cls, where):
    data = obj.serialize()
    try:
        text = json.dumps(data, allow_nan=False)
    except (TypeError, ValueError) as err:
        ctx.fail('serialized array is not JSON', where, data, err)
    for trusted in (False, True):
        back = cls.deserialize(json.loads(text), trusted=trusted)
        ctx.count('round_trips')
        a, b = obj.val, back.val
        ctx.check(type(a) is type(b) and same_values(a, b) or
                  type(a).__base__ is type(b) is np.ndarray and
                  same_values(a, b),
                  'array changed by the JSON round trip', where, a, b, text)
        again = json.dumps(back.serialize(), allow_nan=False)
        ctx.check(json.loads(again) == json.loads(text) or
                  repr(np.asarray(a).astype(float).tolist()) == repr(
                      np.asarray(b).astype(float).tolist()),
                  'serializing again gives different data', where, text,
                  again)
        ctx.check(obj.equal(back) is True or type(a) is not type(b),
                  'instances with the same array are not equal', where)
    return back


def array_case(ctx, rng):
    shapes = draw_shapes(rng)
    types = tuple(rng.sample([float, int, bool, complex],
                             rng.choice([1, 1, 2, 2, 3, 4])))
    kw = {}
    if rng.random() < 0.9:
        arg = shapes
        if shapes is not None and len(shapes) == 1 and rng.random() < 0.6:
            arg = next(iter(shapes))
        kw['shape'] = arg
    else:
        shapes = {('*',)}
    if rng.random() < 0.85:
        kw['dtype'] = rng.choice([tuple, list])(types)
        if len(types) == 1 and rng.random() < 0.6:
            kw['dtype'] = types[0]
    else:
        types = (float, int)
    coerce = True
    if rng.random() < 0.3:
        kw['coerce'] = coerce = rng.random() < 0.4
    prop = p.Array('array', required=False, **kw)
    cls = type('Holder', (p.HasProperties,), {'_REGISTRY': {}, 'val': prop})
    letters = sorted({{float: 'f', int: 'i', bool: 'b', complex: 'c'}[t]
                      for t in types} | ({'u'} if int in types else set()))
    obj = cls()
    for _ in range(12):
        roll = rng.random()
        if roll < 0.15:
            val = odd(rng)
        else:
            letter = rng.choice(letters) if rng.random() < 0.75 else \
                rng.choice('fiubc')
            arr = dress(rng, fill(rng, shape_for(rng, shapes), letter))
            val = arr
            if arr.ndim and rng.random() < (0.45 if coerce else 0.1):
                val = nest(rng, arr)
        if isinstance(val, np.ma.MaskedArray) and not coerce:
            continue
        where = 'shape=%r dtype=%r coerce=%r value=%r %r' % (
            shapes, types, coerce, type(val).__name__, val)
        exp = wanted(val, shapes, types, coerce)
        pic = picture(val)
        before = obj.val
        held = None if before is None else np.array(before)
        ctx.note(where)
        try:
            obj.val = val
            got = obj.val
        except ValueError as err:
            got = err
        ctx.check(picture(val) == pic, 'setting an array changed its source',
                  where)
        form = (type(val).__name__, getattr(val, 'dtype', None),
                np.shape(exp) if exp is not None else None)
        ctx.nontrivial(sorted(map(str, shapes or ['any'])), types, coerce,
                       form, exp is None)
        if exp is None:
            ctx.count('refused')
            ctx.check(isinstance(got, ValueError),
                      'array accepted although its shape or type is not '
                      'allowed', where)
            ctx.check(obj.val is before and (before is None or same_bits(
                obj.val, held)), 'a refused array changed the value', where)
            continue
        ctx.count('accepted')
        ctx.check(not isinstance(got, ValueError),
                  'an allowed array was rejected', where, got)
        if not coerce:
            ctx.check(got is val, 'an array that needed no conversion was '
                      'replaced', where)
        else:
            ctx.check(type(got) is np.ndarray and same_bits(got, exp),
                      'stored array differs from the input', where, got, exp)
            apart(ctx, val, got, where)
        ctx.check(obj.validate() is True, 'a stored array is not valid', where)
        ctx.check(same_bits(prop.validate(obj, got), exp),
                  'validating a stored array again changes it', where)
        # the declared widest type must hold the values for a round trip
        small = exp.dtype.kind != 'u' and exp.dtype.kind != 'i' or not (
            {float, complex} & set(types)) or (
                exp.size == 0 or max(abs(int(v)) for v in
                                     exp.ravel().tolist()) < 2 ** 53)
        if exp.dtype.kind in 'biuf' and complex not in types and small and \
                roundtrip_ok(exp.shape):
            through_json(ctx, obj, cls, where)
            back = cls.deserialize(json.loads(json.dumps(obj.serialize())))
            ctx.check(any(back.val.dtype.kind in KINDS[t] for t in types),
                      'deserialized array has a type that is not allowed',
                      where, back.val.dtype)
        else:
            ctx.count('no_json')


# ---------------------------------------------------------------- vectors

def vec_class(dim, many):
    return getattr(p, 'Vector%d%s' % (dim, 'Array' if many else '')), \
        getattr(vmath, 'Vector%d%s' % (dim, 'Array' if many else ''))


def known_dir(word, dim):
    """The components of a direction name, or None"""
    row = DIRS.get(str.upper(word))
    if row is None or (dim == 2 and row[2]):
        return None
    return row[:dim]


def check_vector(ctx, out, rows, dim, many, length, where):
    """The stored value must be these rows, scaled when a length is asked"""
    wrapper = vec_class(dim, many)[1]
    ctx.check(type(out) is wrapper, 'stored vector has the wrong class',
              where, type(out))
    arr = np.asarray(out)
    ctx.check(arr.dtype == np.dtype(float), 'vector is not floating point',
              where, arr.dtype)
    ctx.check(arr.shape == ((len(rows), dim) if many else (dim,)),
              'vector has the wrong shape', where, arr.shape)
    for got, row in zip(arr.tolist() if many else [arr.tolist()], rows):
        row = [float(v) for v in row]
        if length is not None:
            big = max(abs(v) for v in row)
            row = [v / big for v in row]
            size = math.hypot(*row)
            ctx.check(abs(math.hypot(*got) - length) <= 1e-9 * length, 'vector is not of the requested length',
                      where, got)
            row = [v / size * length for v in row]
            good = all(abs(a - b) <= 1e-9 * length
                       for a, b in zip(got, row))
        else:
            good = all(a == b or (a != a and b != b)
                       for a, b in zip(got, row))
        ctx.check(good, 'vector components are wrong', where, got, row)


def rows_of(val, dim, many, coerce):
    """('rows', rows), ('no',) or ('open',) for what is not specified"""
    wrapper = vec_class(dim, many)[1]
    if not many:
        if isinstance(val, str):
            row = known_dir(val, dim)
            if row is None:
                return ('no',)
            val = list(row)
    elif isinstance(val, (list, tuple)):
        out = []
        for item in val:
            if isinstance(item, str):
                item = known_dir(item, dim)
                if item is None:
                    return ('no',)
            out.append(item)
        val = out
    if not isinstance(val, (list, tuple, np.ndarray)):
        return ('no',)
    if not coerce and not isinstance(val, wrapper):
        return ('no',)
    try:
        arr = np.array(val)
    except ValueError:
        return ('no',)
    if arr.dtype.kind not in 'biuf':
        return ('open',)      # numeric text, objects, complex, dates
    if not isinstance(val, np.ndarray) and arr.size and np.nanmax(
            np.abs(arr.astype(float))) >= 2. ** 63 and any(
                isinstance(v, (int, np.integer)) for v in flat(val)):
        return ('open',)      # vectormath reads such integers or not
    if isinstance(val, np.ma.MaskedArray):
        return ('open',)
    arr = arr.astype(float)
    if many and arr.ndim == 2 and arr.shape[1] == dim:
        return ('rows', arr.tolist())
    if not many and arr.shape == (dim,):
        return ('rows', [arr.tolist()])
    if arr.size % dim == 0 and (many or arr.size == dim):
        return ('open',)      # vectormath may read it as rows
    return ('no',)


def flat(val):
    if isinstance(val, np.ndarray):
        return val.ravel().tolist()
    if isinstance(val, (list, tuple)):
        return [x for v in val for x in flat(v)]
    return [val]


def scaled_how(rows, length):
    """'fine', 'zero' or 'open' (nan and infinite parts)"""
    if length is None:
        return 'fine'
    kinds = set()
    for row in rows:
        if not all(math.isfinite(v) for v in row):
            kinds.add('open')
        elif not any(row):
            kinds.add('zero')
    return 'open' if 'open' in kinds else 'zero' if kinds else 'fine'


def vector_input(rng, dim, many, coerce):
    roll = rng.random()
    if roll < 0.08:
        return odd(rng)
    letter = rng.choice('ffffiiub')

    def numbers(shape):
        arr = fill(rng, shape, letter)
        if letter == 'f' and rng.random() < 0.75:
            scale = rng.choice([1, 1, 1, 1e300, 1e-300, 1e155, 1e-155])
            arr = np.array([rng.choice([
                rng.uniform(-9, 9) * scale, 0.0, 1e-8, 1e50 if scale == 1
                else scale, 3.0, -4.0 * scale, 5e-324, 1.7e308, -1e-310])
                            for _ in range(arr.size)]).reshape(shape)
        if rng.random() < 0.1:
            arr = arr * 0
        return arr
    words = sorted(DIRS) if rng.random() < 0.8 else sorted(DIRS) + [
        'XX', '+X', ' X', 'X ', '', 'UPS', 'NORTHEAST', 'ZER0', '-', '--X',
        '- X', 'N', 'EASTS', '-EAST', '-UP', '-ZERO', 'SOUTH\n', 'W', '0']

    def word():
        text = rng.choice(words)
        return rng.choice([str, WordSub])(rng.choice(
            [text, text.lower(), text.title(), text.swapcase(),
             ''.join(rng.choice([c.lower(), c]) for c in text)]))
    if not many and roll < 0.3:
        return word()
    width = dim if rng.random() < 0.85 else rng.choice([1, 2, 3, 4])
    if not many:
        arr = numbers((width,))
        if rng.random() < 0.08:
            arr = arr.reshape((1, width))
    else:
        n = rng.choice([1, 1, 2, 2, 3, 4])
        arr = numbers((n, width)) if rng.random() < 0.95 else \
            numbers((n, width, 1))
        if rng.random() < 0.4:
            rows = [nest(rng, a) if rng.random() < 0.7 else
                    (a if rng.random() < 0.5 else word()) for a in arr]
            return rng.choice([list, tuple, ListSub])(rows)
    if rng.random() < 0.35 or not coerce:
        try:
            return vec_class(dim, many)[1](arr.copy())
        except (ValueError, TypeError):
            pass
    if rng.random() < 0.5:
        return nest(rng, arr)
    return dress(rng, arr)


def vector_case(ctx, rng):
    dim, many = rng.choice([2, 3]), rng.random() < 0.5
    propcls, wrapper = vec_class(dim, many)
    kw, length, coerce, nrows = {}, None, True, None
    if rng.random() < 0.5:
        kw['length'] = rng.choice([1, 1.0, 2.5, 1e-3, 10 ** 6, 7, None])
        length = None if kw['length'] is None else float(kw['length'])
    if rng.random() < 0.25:
        kw['coerce'] = coerce = rng.random() < 0.4
    if many and rng.random() < 0.3:
        shapes = [(rng.randint(1, 3), dim)
                  for _ in range(rng.choice([1, 1, 2]))]
        nrows = {s[0] for s in shapes}
        kw['shape'] = set(shapes) if len(shapes) > 1 or rng.random() < 0.4 \
            else shapes[0]
    prop = propcls('vector', required=False, **kw)
    cls = type('Holder', (p.HasProperties,), {'_REGISTRY': {}, 'val': prop})
    obj = cls()
    for _ in range(14):
        val = vector_input(rng, dim, many, coerce)
        where = '%s(%r) value=%s %r' % (propcls.__name__, kw,
                                        type(val).__name__, val)
        told = rows_of(val, dim, many, coerce)
        if told[0] == 'rows' and nrows and len(told[1]) not in nrows:
            told = ('no',)
        if told[0] == 'rows':
            how = scaled_how(told[1], length)
            if how != 'fine':
                told = ('zero',) if how == 'zero' else ('open',)
        pic = picture(val)
        before = obj.val
        held = None if before is None else np.array(before)
        ctx.note(told[0], where)
        with np.errstate(all='ignore'):
            try:
                obj.val = val
                got = obj.val
            except ValueError as err:
                got = err
            except TypeError as err:
                ctx.check(told[0] == 'open', 'unexpected error', where, err)
                got = err
        ctx.check(picture(val) == pic, 'setting a vector changed its source',
                  where)
        ctx.nontrivial(propcls.__name__, sorted(kw), told[0],
                       type(val).__name__, getattr(val, 'dtype', None),
                       np.shape(told[1]) if told[0] == 'rows' else None,
                       val.upper() if isinstance(val, str) else None)
        failed = isinstance(got, Exception)
        if failed:
            ctx.check(obj.val is before and (before is None or same_bits(
                obj.val, held)), 'a refused vector changed the value', where)
        if told[0] in ('no', 'zero'):
            ctx.count('refused' if told[0] == 'no' else 'refused_zero')
            ctx.check(failed, 'vector accepted although it must be rejected',
                      where, got)
            continue
        if told[0] == 'open':
            ctx.count('open')
            if not failed:
                arr = np.asarray(got)
                ctx.check(type(got) is wrapper and arr.dtype == float and
                          arr.shape[-1] == dim and
                          arr.ndim == (2 if many else 1),
                          'stored vector has the wrong form', where, got)
                if isinstance(val, np.ndarray) and coerce:
                    apart(ctx, val, got, where)
            continue
        ctx.count('accepted')
        ctx.check(not failed, 'an allowed vector was rejected', where, got)
        if isinstance(val, str) or (many and not isinstance(
                val, np.ndarray) and any(isinstance(v, str) for v in val)):
            ctx.count('named')
        check_vector(ctx, got, told[1], dim, many, length, where)
        if length is not None:
            ctx.count('scaled')
        if coerce or length is not None:
            apart(ctx, val, got, where)
        else:
            ctx.check(got is val, 'a vector that needed no conversion was '
                      'replaced', where)
        ctx.check(obj.validate() is True, 'a stored vector is not valid',
                  where)
        with np.errstate(all='ignore'):
            again = prop.validate(obj, got)
        check_vector(ctx, again, told[1], dim, many, length, where)
        if told[1]:
            through_json_vec(ctx, obj, cls, told[1], dim, many, length,
                             where)


def through_json_vec(ctx, obj, cls, rows, dim, many, length, where):
    text = json.dumps(obj.serialize(), allow_nan=False)
    for trusted in (False, True):
        back = cls.deserialize(json.loads(text), trusted=trusted)
        ctx.count('round_trips')
        check_vector(ctx, back.val, rows, dim, many, length, where)
        ctx.check(obj.equal(back) is True, 'vectors equal before and after '
                  'JSON are not equal', where)


def names_case(ctx, rng):
    """Every direction name, in every mix of cases, for every vector type"""
    dim, many = rng.choice([2, 3]), rng.random() < 0.5
    propcls = vec_class(dim, many)[0]
    length = rng.choice([None, None, 1, 2.5])
    kw = {} if length is None else {'length': length}
    cls = type('Holder', (p.HasProperties,), {
        '_REGISTRY': {}, 'val': propcls('', **kw)})
    obj = cls()
    for word, row in sorted(DIRS.items()):
        for text in rng.sample(spellings(word), min(6, len(
                spellings(word)))) + [word, word.lower()]:
            usable = not (dim == 2 and row[2])
            if word == 'ZERO' and length is not None:
                usable = False
            val = [text, (1.0,) * dim] if many else text
            where = '%s(%r) value=%r' % (propcls.__name__, kw, val)
            ctx.count('names')
            ctx.nontrivial('name', dim, many, text, length)
            try:
                obj.val = val
            except ValueError:
                ctx.check(not usable, 'direction name rejected', where)
                continue
            ctx.check(usable, 'this is not a direction here', where, obj.val)
            rows = [row[:dim]] + ([(1.0,) * dim] if many else [])
            check_vector(ctx, obj.val, rows, dim, many, length, where)
            # the direction table must not be shared with the instances
            np.asarray(obj.val)[...] = 77.
            if many:
                ctx.check(val == [text, (1.0,) * dim],
                          'the input list was changed', where, val)
    for text in ['', 'XX', '+X', ' X', 'X ', 'ZER0', '--X', '- X', '-EAST',
                 '-UP', 'N', 'NORTHEAST', 'X,Y', '-ZERO', 'UPP', '1', 'ß']:
        val = [text] if many else text
        try:
            obj.val = val
        except ValueError:
            ctx.count('no_names')
            continue
        ctx.fail('not a direction name, but accepted', text, obj.val)


def declaration_case(ctx, rng):
    """Only meaningful declarations are accepted"""
    def refused(make, what):
        ctx.count('bad_declarations')
        try:
            make()
        except TypeError:
            return
        ctx.fail('meaningless declaration accepted', what)
    for shape in [5, 'x', [3], (3, 'x'), ('*', None), {('*', 1.5)}, '*',
                  {5}, ((3,),), (2, '**'), {(3,), 4}, ('3',), [(3,)], (2.0,),
                  {'*'}, object()]:
        refused(lambda: p.Array('', shape=shape), ('shape', shape))
    for dtype in [(), [], str, 'float', (float, str), None, object,
                  (int, None), np.float64, 'f']:
        refused(lambda: p.Array('', dtype=dtype), ('dtype', dtype))
    for coerce in [1, 0, None, 'yes', [], np.bool_(True)]:
        for cls in (p.Array, p.Vector2, p.Vector3, p.Vector2Array,
                    p.Vector3Array):
            refused(lambda: cls('', coerce=coerce), ('coerce', coerce))
    for cls in (p.Vector2, p.Vector3, p.Vector2Array, p.Vector3Array):
        for length in [0, -1, 0.0, -2.5, '1', [1], 1j, -10 ** 30]:
            refused(lambda: cls('', length=length), ('length', length))
        ctx.check(cls('', length=3).length == 3.0, 'length is not kept')
        for kw in ({}, {'length': None}):
            ctx.check(cls('', **kw).length is None, 'vectors are scaled by '
                      'default')
    for dim in (2, 3):
        cls = vec_class(dim, True)[0]
        for shape in [(dim,), ('*', 5 - dim), ('*', '*'), (dim, '*'),
                      ('*', dim, 1), {('*', dim), (dim,)}, 5, (), [3],
                      ('*', str(dim))]:
            refused(lambda: cls('', shape=shape), ('shape', dim, shape))
        for shape in [('*', dim), (4, dim), {(1, dim), (2, dim)}]:
            ctx.count('good_declarations')
            prop = cls('', shape=shape)
            ctx.check(prop.shape == (shape if isinstance(shape, set)
                                     else {shape}), 'shape is not kept')
            ctx.check(tuple(prop.dtype) == (float,), 'vectors are floats')
    for shape in [None, (), (3,), ('*',), ('*', 3), {(2,), ('*', '*')},
                  (0, 2)]:
        ctx.count('good_declarations')
        prop = p.Array('', shape=shape)
        want = shape if shape is None or isinstance(shape, set) else {shape}
        ctx.check(prop.shape == want, 'shape is not kept', shape, prop.shape)
        ctx.check(isinstance(prop.info, str), 'no description')
    ctx.nontrivial('declarations', 0)


def equal_case(ctx, rng):
    """Equality of arrays: same class, shape and values, nan at same places"""
    prop = p.Array('', shape=None, dtype=(float, int, bool))
    shape = tuple(rng.choice([1, 2, 3]) for _ in range(rng.randint(0, 3)))
    letter = rng.choice('ffib')
    for _ in range(8):
        a = fill(rng, shape, letter)
        b = a.copy()
        same = True
        roll = rng.random()
        if roll < 0.45 and a.size:
            i = rng.randrange(a.size)
            old = a.reshape(-1)[i]
            new = (not old) if letter == 'b' else rng.choice(
                [0, 5, 1] if letter == 'i' else
                [0.0, 5.5, float('nan'), float('inf'), -float('inf')])
            flat = b.reshape(-1)
            flat[i] = new
            b = flat.reshape(shape)
            same = bool(old == new or (old != old and new != new) or
                        abs(float(old) - float(new)) < 1e-9)
        elif roll < 0.6 and shape:
            b = rng.choice([b[None], b.reshape(-1)[:max(1, b.size - 1)],
                            np.concatenate([b, b])])
            same = b.shape == a.shape
        elif roll < 0.7:
            b = b.view(Sub)
            same = False
        ctx.count('equal_checks')
        ctx.nontrivial('equal', shape, letter, same, round(roll, 1))
        for x, y in ((a, b), (b, a)):
            ctx.check(bool(prop.equal(x, y)) == same,
                      'array equality is wrong', x, y, same)


def run_case(ctx):
    rng = ctx.rng
    roll = rng.random()
    if roll < 0.42:
        array_case(ctx, rng)
    elif roll < 0.84:
        vector_case(ctx, rng)
    elif roll < 0.9:
        names_case(ctx, rng)
    elif roll < 0.98:
        equal_case(ctx, rng)
    else:
        declaration_case(ctx, rng)


def findings(ctx):
    """Nested lists cannot express the width of an array without rows"""
    for name, prop in [('array', p.Array('', shape=('*', 3))),
                       ('vectors', p.Vector3Array(''))]:
        cls = type('Holder', (p.HasProperties,), {
            '_REGISTRY': {}, 'val': prop})
        obj = cls(val=np.zeros((0, 3)))
        try:
            back = cls.deserialize(json.loads(json.dumps(obj.serialize())))
            bad = back.val.shape != (0, 3)
            text = 'comes back as %r' % (back.val,)
        except ValueError as err:
            bad, text = True, 'cannot be deserialized: %s' % err
        yield (name + '-without-rows', bad,
               'np.zeros((0, 3)) in %s %s' % (type(prop).__name__, text))
