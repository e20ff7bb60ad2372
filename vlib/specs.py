"""Independent reference model of every property type

A Spec knows how to build the real property, how to draw candidate values, and
what the documentation says the property does with a value: ``model(value)``
returns the expected stored value (possibly an Exp object) or raises Reject,
or Unspec where the documentation does not settle the outcome.
"""
import datetime
import decimal
import fractions
import math
import random
import re
import uuid

import numpy as np
import vectormath as vmath

import properties as p
from properties.extras import URL

from . import canon as C
from .colors import NAMED, TWENTY


class Reject(Exception):
    pass


class Unspec(Exception):
    pass


# ------------------------------------------------- expected-value descriptions

class Exp(object):
    """Expected value that is not a literal"""

    def match(self, act):
        raise NotImplementedError


class Pred(Exp):
    def __init__(self, fn, text):
        self.fn, self.text = fn, text

    def match(self, act):
        return bool(self.fn(act))

    def __repr__(self):
        return '<%s>' % self.text


class Same(Exp):
    """The very same object"""

    def __init__(self, obj):
        self.obj = obj

    def match(self, act):
        return act is self.obj

    def __repr__(self):
        return '<the same %r>' % (self.obj,)


class NewInst(Exp):
    """A new instance of cls with these property values"""

    def __init__(self, cls, values):
        self.cls, self.values = cls, values

    def match(self, act):
        return type(act) is self.cls and all(
            match(v, getattr(act, k)) for k, v in self.values.items())

    def __repr__(self):
        return '<new %s %r>' % (self.cls.__name__, self.values)


class Cont(Exp):
    """A container of this exact kind (observing wrappers ignored)"""

    def __init__(self, cls, items):
        self.cls, self.items = cls, items

    def match(self, act):
        base = C.base_container(act)
        if base is None or not issubclass(self.cls, base):
            return False
        if C.container_kind(act) != self.cls.__module__ + '.' + \
                self.cls.__name__:
            return False
        if len(act) != len(self.items):
            return False
        if issubclass(self.cls, dict):
            left = list(act.items())
            for k, v in self.items:
                for i, (ak, av) in enumerate(left):
                    if match(k, ak) and match(v, av):
                        del left[i]
                        break
                else:
                    return False
            return True
        if issubclass(self.cls, set):
            left = list(act)
            for x in self.items:
                for i, ax in enumerate(left):
                    if match(x, ax):
                        del left[i]
                        break
                else:
                    return False
            return True
        return all(match(x, a) for x, a in zip(self.items, act))

    def __repr__(self):
        return '<%s %r>' % (self.cls.__name__, self.items)


def match(exp, act):
    if isinstance(exp, Exp):
        return exp.match(act)
    return C.canon(exp) == C.canon(act)


def arr_exp(arr, cls=None):
    """Expected array, values to 1e-12"""
    cls = cls or type(arr)
    plain = np.asarray(arr)

    def same(act):
        if type(act) is not cls or act.shape != plain.shape:
            return False
        act = np.asarray(act)
        return act.dtype.kind == plain.dtype.kind and np.array_equal(
            act, plain, equal_nan=act.dtype.kind in 'fc') or (
                act.dtype.kind == plain.dtype.kind == 'f' and
                np.allclose(act, plain, rtol=1e-12, atol=1e-12,
                            equal_nan=True))
    return Pred(same, '%s %r' % (cls.__name__, plain))


# ------------------------------------------------------------ hostile values

class StrSub(str):
    """User string subclass"""


class IntSub(int):
    """User integer subclass"""


class ListSub(list):
    """User list subclass"""


class TupleSub(tuple):
    """User tuple subclass"""


class SetSub(set):
    """User set subclass"""


class DictSub(dict):
    """User dict subclass"""


class Opaque(object):
    """Something no scalar property accepts"""

    def __repr__(self):
        return 'Opaque()'


class BadRepr(object):
    """Value whose printing is very long"""

    def __repr__(self):
        return 'long ' * 100


WORDS = ['a', 'b', 'ab', 'Hello', 'hello', ' hi ', '', 'x' * 120, 'red', 'Y',
         '5', '1.5', 'nan', 'inf', '1+2j', 'None', 'true', '2020/01/02',
         '2020-01-02T03:04:05Z', 'http://a.b/c?d#e', 'naïve', 'ß', '漢字',
         'A' * 6, 'fff', '#12', 'random', 'tab\t', '\n', '{}', '{0}', '%s']


def hostile(rng):
    """Any python value, weighted towards scalars"""
    return rng.choice(_HOSTILE)(rng)


def rand_float(rng):
    return rng.choice([
        lambda: rng.uniform(-10, 10), lambda: rng.uniform(-1e6, 1e6),
        lambda: float(rng.randint(-20, 20)),
        lambda: rng.randint(-20, 20) + rng.choice([-1, 1]) *
        rng.choice([1e-10, 5e-10, 2e-9, 1e-8, 1e-3]),
        lambda: 0.0, lambda: -0.0, lambda: 1e-300, lambda: 1e300,
        lambda: float('inf'), lambda: -float('inf'), lambda: float('nan'),
        lambda: 0.1 + 0.2, lambda: 5e-324,
    ])()


def rand_int(rng):
    return rng.choice([
        lambda: rng.randint(-5, 5), lambda: rng.randint(-300, 300),
        lambda: rng.choice([0, 1, -1, 2 ** 31, -2 ** 63, 2 ** 53 + 1,
                            10 ** 20, 255, 256]),
        lambda: 10 ** 400, lambda: IntSub(rng.randint(-5, 5)),
    ])()


_HOSTILE = [
    rand_float, rand_float, rand_int, rand_int,
    lambda r: r.choice([True, False]),
    lambda r: None,
    lambda r: r.choice(WORDS), lambda r: r.choice(WORDS),
    lambda r: StrSub(r.choice(WORDS)),
    lambda r: complex(r.randint(-3, 3), r.choice([0, 0, 1, -2, 1e-10])),
    lambda r: r.choice([np.bool_(True), np.bool_(False), np.int64(3),
                        np.int8(-7), np.float64(2.5), np.float32(0.1),
                        np.float64('nan'), np.float64(4.0), np.uint8(200),
                        np.complex128(1 + 0j)]),
    lambda r: fractions.Fraction(r.randint(-9, 9), r.choice([1, 1, 2, 3])),
    lambda r: r.choice([b'5', b'abc', b'', bytearray(b'5')]),
    lambda r: [r.randint(0, 260) for _ in range(r.randint(0, 4))],
    lambda r: tuple(r.randint(0, 260) for _ in range(r.randint(2, 4))),
    lambda r: set(r.choice(WORDS) for _ in range(r.randint(0, 3))),
    lambda r: {r.choice(WORDS): r.randint(0, 3)},
    lambda r: {},
    lambda r: r.choice([Opaque(), BadRepr(), object(), int, len, Ellipsis,
                        NotImplemented, range(3)]),
    lambda r: datetime.datetime(r.randint(1, 9999), 2, r.randint(1, 28),
                                r.randint(0, 23)),
    lambda r: datetime.date(2020, 1, 2),
    lambda r: uuid.UUID(int=r.getrandbits(128), version=4),
    lambda r: np.array([r.uniform(-2, 2) for _ in range(r.randint(1, 4))]),
    lambda r: np.arange(r.randint(1, 6)),
]


# ------------------------------------------------------------------- scalars

class Spec(object):
    """One configured property type"""
    json_ok = True       # survives the JSON round trip
    hash_ok = True       # stored values are hashable
    scalar = True
    dict_like = False    # accepts dicts (matters for unions and instances)

    def __init__(self, rng):
        self.kw = {}
        self.configure(rng)

    def configure(self, rng):
        pass

    def make(self, kw):
        raise NotImplementedError

    def build(self, **extra):
        kw = dict(self.kw)
        kw.update(extra)
        return self.make(kw)

    def model(self, val):
        raise NotImplementedError

    def good(self, rng):
        raise NotImplementedError

    def near(self, rng):
        """A candidate near the acceptance border"""
        return hostile(rng)

    def candidate(self, rng):
        roll = rng.random()
        if roll < 0.4:
            return self.good(rng)
        if roll < 0.75:
            return self.near(rng)
        return hostile(rng)

    def bad(self, rng):
        """A value this property rejects, or None"""
        for _ in range(40):
            val = self.near(rng) if rng.random() < 0.5 else hostile(rng)
            if val is p.undefined:
                continue
            try:
                self.model(val)
            except Reject:
                return val
            except Unspec:
                pass
        return Opaque()

    def accepts(self, val):
        """True, False, or None when unspecified"""
        try:
            self.model(val)
            return True
        except Reject:
            return False
        except Unspec:
            return None

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join(
            '%s=%r' % kv for kv in sorted(self.kw.items())))


def is_arr(val):
    return isinstance(val, np.ndarray)


class AnyS(Spec):
    """Base Property: accepts everything unchanged"""
    hash_ok = False

    def make(self, kw):
        return p.Property('any', **kw)

    def model(self, val):
        if type(val) in (str, int, float, bool, bytes, complex) or \
                isinstance(val, (np.generic, np.ndarray)):
            return val
        return Same(val)

    def good(self, rng):
        return rng.choice([1, 'a', 2.5, True, 'word', 7])

    def candidate(self, rng):
        # numpy itself cannot compare some values with huge integers
        val = hostile(rng)
        if isinstance(val, int) and abs(val) > 1e9:
            return 11
        # nor is nan equal to itself without a type that says so
        if isinstance(val, (float, complex, np.generic)) and val != val:
            return 2.25
        return val

    def bad(self, rng):
        return Opaque()          # nothing is rejected


def awkward(spec, val):
    """Values that == itself cannot compare, held by an unconstrained type"""
    return 'AnyS' in repr(spec) and bool(
        re.search(r'nan|[0-9]{12}', repr(val)))


class BoolS(Spec):
    def configure(self, rng):
        if rng.random() < 0.4:
            self.kw['cast'] = rng.random() < 0.8

    def make(self, kw):
        return p.Boolean('bool', **kw)

    def model(self, val):
        if self.kw.get('cast'):
            if is_arr(val):
                raise Unspec
            return bool(val)
        if isinstance(val, (bool, np.bool_)):
            return bool(val)
        raise Reject

    def good(self, rng):
        return rng.choice([True, False, True, False, np.bool_(True),
                           np.bool_(False)])

    def near(self, rng):
        return rng.choice([0, 1, 'True', 1.0, None, np.int64(1), 'yes', [],
                           ''])


def in_bounds(kw, val):
    lo, hi = kw.get('min'), kw.get('max')
    if lo is not None and not val >= lo:
        raise Reject
    if hi is not None and not val <= hi:
        raise Reject


def rand_bounds(rng, kw, num):
    if rng.random() < 0.6:
        a, b = sorted([num(rng), num(rng)])
        if rng.random() < 0.15:
            b = a
        if rng.random() < 0.75:
            kw['min'] = a
        if rng.random() < 0.75:
            kw['max'] = b


class IntS(Spec):
    def configure(self, rng):
        rand_bounds(rng, self.kw, lambda r: r.choice(
            [r.randint(-20, 20), r.randint(-20, 20), r.randint(0, 9) + 0.5]))
        lo, hi = self.kw.get('min'), self.kw.get('max')
        if lo is not None and hi is not None and \
                math.ceil(lo) > math.floor(hi):
            self.kw['max'] = math.ceil(lo)
        if rng.random() < 0.25:
            self.kw['cast'] = True

    def make(self, kw):
        return p.Integer('int', **kw)

    def model(self, val):
        if is_arr(val) or isinstance(val, decimal.Decimal):
            raise Unspec
        cast = self.kw.get('cast')
        if isinstance(val, (str, bytes, bytearray)):
            if not cast:
                raise Reject
            try:
                num = int(val)
            except ValueError:
                raise Reject
        elif isinstance(val, (bool, int, float, fractions.Fraction,
                              np.bool_, np.integer, np.floating)):
            if isinstance(val, (float, np.floating)) and not math.isfinite(
                    val):
                raise Reject
            exact = fractions.Fraction(float(val)) if isinstance(
                val, (float, np.floating)) else fractions.Fraction(
                    val if isinstance(val, fractions.Fraction) else int(val))
            num = math.trunc(exact)
            if not cast:
                gap = abs(exact - num)
                if abs(gap - fractions.Fraction(1, 10 ** 9)) < \
                        fractions.Fraction(1, 10 ** 11):
                    raise Unspec
                if 1 - gap <= fractions.Fraction(2, 10 ** 9):
                    raise Unspec         # just below an integer
                if gap > fractions.Fraction(1, 10 ** 9):
                    raise Reject
            if isinstance(val, np.bool_) and not cast:
                raise Unspec             # numpy bool arithmetic
        elif hasattr(val, '__int__') or hasattr(val, '__index__'):
            raise Unspec
        else:
            raise Reject
        in_bounds(self.kw, num)
        return num

    def good(self, rng):
        lo, hi = self.kw.get('min'), self.kw.get('max')
        lo = -30 if lo is None else math.ceil(lo)
        hi = max(lo, 30) if hi is None else math.floor(hi)
        lo = min(lo, hi)
        num = rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)])
        form = rng.random()
        if form < 0.6:
            return num
        if form < 0.75:
            return float(num)
        if form < 0.85:
            return np.int64(num)
        if form < 0.92:
            # just above in magnitude, coerced towards zero
            if num:
                return num + math.copysign(2e-10, num)
        return IntSub(num)

    def near(self, rng):
        lo, hi = self.kw.get('min'), self.kw.get('max')
        base = rng.choice([x for x in (lo, hi, 0) if x is not None])
        return rng.choice([
            base - 1, base + 1, base, base + 0.5, base + 1e-8, base - 1e-8,
            base + 1e-3, str(base), base - 1 + 1e-3, 1j, True,
            float('inf'), float('nan'), '7', '3.5', '', b'7'])


class FloatS(Spec):
    def configure(self, rng):
        rand_bounds(rng, self.kw, lambda r: r.choice(
            [r.uniform(-20, 20), r.randint(-20, 20), r.choice(
                [-float('inf'), float('inf'), 0, 1])]))
        if rng.random() < 0.25:
            self.kw['cast'] = True

    def make(self, kw):
        return p.Float('float', **kw)

    def model(self, val):
        if is_arr(val) or isinstance(val, decimal.Decimal):
            raise Unspec
        cast = self.kw.get('cast')
        if isinstance(val, (str, bytes, bytearray)):
            if not cast:
                raise Reject
            try:
                num = float(val)
            except ValueError:
                raise Reject
        elif isinstance(val, (bool, int, float, fractions.Fraction,
                              np.integer, np.floating)):
            try:
                num = float(val)
            except OverflowError:
                raise Reject
            if isinstance(val, fractions.Fraction) and not cast:
                pass
        elif isinstance(val, complex) and not isinstance(val, np.generic):
            raise Reject
        elif hasattr(val, '__float__') or hasattr(val, '__index__'):
            raise Unspec
        else:
            raise Reject
        in_bounds(self.kw, num)
        return num

    def good(self, rng):
        lo, hi = self.kw.get('min'), self.kw.get('max')
        nlo = -30.0 if lo is None or lo == -float('inf') else float(lo)
        nhi = max(nlo, 30.0) if hi is None or hi == float('inf') \
            else float(hi)
        nlo = min(nlo, nhi)
        if not math.isfinite(nlo) or not math.isfinite(nhi):
            return lo if lo is not None else hi
        num = rng.choice([nlo, nhi, rng.uniform(nlo, nhi),
                          rng.uniform(nlo, nhi)])
        num = min(max(num, nlo), nhi)
        if lo is None and hi is None and rng.random() < 0.25:
            return rng.choice([float('nan'), float('inf'), -float('inf'),
                               -0.0, 1e300, 3, True, 2 ** 53 + 1,
                               np.float32(0.1)])
        if rng.random() < 0.2:
            return np.float64(num)
        return num

    def near(self, rng):
        lo, hi = self.kw.get('min'), self.kw.get('max')
        base = rng.choice([x for x in (lo, hi, 0) if x is not None])
        return rng.choice([
            base - 1, base + 1, base, base * (1 + 1e-12), base - 1e-12,
            base + 1e-12, base - 1e-3, base + 1e-3, str(base), 1j, True,
            float('inf'), -float('inf'), float('nan'), 'nan', '1e3', '',
            10 ** 400, b'2.5'])


class ComplexS(Spec):
    def configure(self, rng):
        if rng.random() < 0.3:
            self.kw['cast'] = True

    def make(self, kw):
        return p.Complex('complex', **kw)

    def model(self, val):
        if is_arr(val) or isinstance(val, decimal.Decimal):
            raise Unspec
        cast = self.kw.get('cast')
        if isinstance(val, str):
            if not cast:
                raise Reject
            try:
                return complex(val)
            except ValueError:
                raise Reject
        if isinstance(val, (bool, int, float, complex, np.integer,
                            np.floating, np.complexfloating,
                            fractions.Fraction)):
            try:
                return complex(val)
            except OverflowError:
                raise Reject
        if hasattr(val, '__complex__') or hasattr(val, '__float__') or \
                hasattr(val, '__index__'):
            raise Unspec
        raise Reject

    def good(self, rng):
        return rng.choice([
            complex(rng.uniform(-5, 5), rng.uniform(-5, 5)), rng.randint(0, 9),
            rng.uniform(-1, 1), complex(0, 1), 0j, complex(float('inf'), 1),
            complex(2, float('nan')), np.complex128(1 - 2j)])

    def near(self, rng):
        return rng.choice(['1+2j', '1', 'j', '(1-2j)', '1 + 2j', b'1', None,
                           [1, 2], 10 ** 400])


REGEXES = ['^[A-Za-z ]*$', 'a', '.', '[0-9]']


class StringS(Spec):
    def configure(self, rng):
        roll = rng.random()
        # regexes are drawn so that coercion cannot leave the language
        if roll < 0.35:
            self.kw['strip'] = rng.choice([' ', 'a', 'A', 'ab', ' \t', 'xX'])
        if rng.random() < 0.35:
            self.kw['change_case'] = rng.choice(['upper', 'lower', None])
        if rng.random() < 0.25 and not self.kw:
            self.kw['regex'] = rng.choice(REGEXES)
        elif rng.random() < 0.15 and not self.kw.get('strip'):
            self.kw['regex'] = '^[A-Za-z ]*$'
        if rng.random() < 0.3:
            self.kw['unicode'] = rng.random() < 0.5

    def make(self, kw):
        kw = dict(kw)
        if 'regex' in kw and len(kw['regex']) % 2:
            kw['regex'] = re.compile(kw['regex'])
        if kw.get('change_case', 0) is None:
            kw.pop('change_case')
        return p.String('string', **kw)

    def model(self, val):
        if not isinstance(val, str):
            raise Reject
        kind = type(val)
        val = str(val)
        pat = self.kw.get('regex')
        if pat == '^[A-Za-z ]*$':
            body = val[:-1] if val.endswith('\n') else val
            if not all(c.isascii() and (c.isalpha() or c == ' ')
                       for c in body):
                raise Reject
        elif pat == 'a':
            if 'a' not in val:
                raise Reject
        elif pat == '.':
            if not val.replace('\n', ''):
                raise Reject
        elif pat == '[0-9]':
            if not any(c in '0123456789' for c in val):
                raise Reject
        cut = self.kw.get('strip', '')

        def trim(text):
            while text and text[0] in cut:
                text = text[1:]
            while text and text[-1] in cut:
                text = text[:-1]
            return text
        val = trim(val)
        case = self.kw.get('change_case')
        if case:
            val = trim(getattr(val, case)())
        return kind(val) if self.kw.get('unicode') is False else val

    def good(self, rng):
        letters = ' aAbBxX\t' if self.kw.get('regex') != '^[A-Za-z ]*$' \
            else ' aAbBxX'
        text = ''.join(rng.choice(letters) for _ in range(rng.randint(0, 8)))
        pat = self.kw.get('regex')
        if pat in ('a', '.'):
            text += 'a'
        elif pat == '[0-9]':
            text += '7'
        if pat is None and rng.random() < 0.3:
            text = rng.choice(WORDS)
        return StrSub(text) if rng.random() < 0.1 else text

    def near(self, rng):
        return rng.choice(WORDS + [b'bytes', 5, None, ['a']])


class ChoiceS(Spec):
    def configure(self, rng):
        names = rng.sample(['alpha', 'Beta', 'GAMMA', 'd', 'ee', 'x y', 'é'],
                           rng.randint(1, 4))
        extra = rng.sample(['one', 'Two', 'THREE', 'four', 'q'],
                           rng.randint(0, 4))
        self.sensitive = rng.random() < 0.4
        self.table = [(n, []) for n in names]
        if extra:
            for word in extra:
                rng.choice(self.table)[1].append(word)
            self.form = 'dict'
        else:
            self.form = rng.choice(['list', 'tuple', 'set', 'dict'])
        if self.sensitive and rng.random() < 0.3 and self.form != 'dict':
            self.table.append((names[0].swapcase(), []))
            if names[0].swapcase() == names[0]:
                self.table.pop()
        self.kw['case_sensitive'] = self.sensitive
        if rng.random() < 0.3:
            self.kw['descriptions'] = {n: 'about ' + n for n, _ in self.table}
        self.kw['choices'] = None

    def make(self, kw):
        kw = dict(kw)
        names = [n for n, _ in self.table]
        if self.form == 'dict':
            kw['choices'] = {
                n: (v[0] if len(v) == 1 and len(n) % 2 else list(v))
                for n, v in self.table}
        else:
            kw['choices'] = {'list': list, 'tuple': tuple,
                             'set': set}[self.form](names)
        return p.StringChoice('choice', **kw)

    def model(self, val):
        if not isinstance(val, str):
            raise Reject

        def norm(word):
            return word if self.sensitive else word.upper()
        for name, alts in self.table:
            if norm(str(val)) in [norm(name)] + [norm(a) for a in alts]:
                return name
        raise Reject

    def good(self, rng):
        name, alts = rng.choice(self.table)
        word = rng.choice([name] + alts)
        if not self.sensitive:
            word = rng.choice([word, word.upper(), word.lower(),
                               word.swapcase()])
        return word

    def near(self, rng):
        name, alts = rng.choice(self.table)
        word = rng.choice([name] + alts)
        return rng.choice([word.swapcase(), word + ' ', ' ' + word, word[:-1],
                           word + word, '', word.encode('utf-8'), [word],
                           word.upper(), word.lower()])

    def __repr__(self):
        return 'ChoiceS(%r, %s, sensitive=%s)' % (self.table, self.form,
                                                  self.sensitive)


HEX = '0123456789abcdefABCDEF'


def parse_hex(text):
    if text.startswith('##'):
        raise Unspec
    text = text[1:] if text.startswith('#') else text
    if any(c not in HEX for c in text):
        raise Reject
    if len(text) == 3:
        text = ''.join(c + c for c in text)
    if len(text) != 6:
        raise Reject
    return tuple(int(text[i:i + 2], 16) for i in (0, 2, 4))


class ColorS(Spec):
    def make(self, kw):
        return p.Color('color', **kw)

    def model(self, val):
        if isinstance(val, str):
            val = str(val)
            if val in NAMED:
                return parse_hex(NAMED[val])
            if val.lower() in NAMED:
                raise Unspec
            if val.upper() == 'RANDOM':
                return Pred(lambda act: act in [parse_hex(c) for c in TWENTY],
                            'one of the 20 colors')
            return parse_hex(val)
        if not isinstance(val, (list, tuple)) or len(val) != 3:
            raise Reject
        if not all(isinstance(v, int) and 0 <= v <= 255 for v in val):
            raise Reject
        return tuple(val)

    def good(self, rng):
        return rng.choice([
            lambda: rng.choice(sorted(NAMED)),
            lambda: [rng.choice([0, 255, rng.randint(0, 255)])
                     for _ in range(3)],
            lambda: tuple(rng.randint(0, 255) for _ in range(3)),
            lambda: '#' * rng.randint(0, 1) + ''.join(
                rng.choice(HEX) for _ in range(rng.choice([3, 6]))),
            lambda: rng.choice(['random', 'RANDOM', 'Random']),
        ])()

    def near(self, rng):
        return rng.choice([
            lambda: [rng.choice([-1, 256, 255, 0, 1.0, '1', None, 12])
                     for _ in range(3)],
            lambda: [rng.randint(0, 255) for _ in range(rng.choice([2, 4]))],
            lambda: ''.join(rng.choice(HEX + 'gG +-_x') for _ in range(
                rng.choice([3, 6, 3, 6, 4, 5, 7]))),
            lambda: '#', lambda: '', lambda: '0x12', lambda: 'notacolor',
            lambda: np.array([1, 2, 3]), lambda: {1, 2, 3},
            lambda: '+f+f+f', lambda: ' 1 2 3', lambda: '１２３',
            lambda: rng.choice(['%s#', '#%s#', '%s ', ' %s', '#%s;', '0x%s',
                                '%s#%s', '%%s']).replace(
                '%s', ''.join(rng.choice(HEX) for _ in range(
                    rng.choice([3, 6, 2, 5])))),
        ])()


class StillColorS(ColorS):
    """Colors without the random one"""

    def candidate(self, rng):
        val = super(StillColorS, self).candidate(rng)
        return 'red' if isinstance(val, str) and val.lower() == 'random' \
            else val

    def good(self, rng):
        val = super(StillColorS, self).good(rng)
        return 'red' if isinstance(val, str) and val.lower() == 'random' \
            else val


class DateTimeS(Spec):
    def make(self, kw):
        return p.DateTime('datetime', **kw)

    def model(self, val):
        if isinstance(val, datetime.datetime):
            return Same(val)
        if not isinstance(val, str):
            raise Reject
        val = str(val)
        day = re.match(r'^(\d{4})[-/](\d{2})[-/](\d{2})$', val, re.ASCII)
        full = re.match(r'^(\d{4})-(\d{2})-(\d{2})T(\d{2}):(\d{2}):(\d{2})Z$',
                        val, re.ASCII)
        got = day or full
        if got:
            nums = [int(g) for g in got.groups()]
            if full and nums[5] >= 60:
                raise Unspec
            try:
                return datetime.datetime(*nums)
            except ValueError:
                raise Reject
        if re.match(r'^\d{1,4}[-/]\d{1,2}[-/]\d{1,2}$', val, re.ASCII):
            raise Reject        # neither form
        if re.match(r'^\d{1,4}[-/] ?\d{1,2}[-/] ?\d{1,2}'
                    r'(T ?\d{1,2}: ?\d{1,2}: ?\d{1,2}Z)?$', val,
                    re.IGNORECASE):
            raise Unspec        # unpadded and similar spellings
        raise Reject

    def good(self, rng):
        stamp = datetime.datetime(
            rng.choice([1, 999, 1000, 1900, 1970, 2024, 9999,
                        rng.randint(1, 9999)]),
            rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
            rng.randint(0, 59), rng.randint(0, 59))
        form = rng.random()
        if form < 0.5:
            return stamp
        day = '%04d%s%02d%s%02d' % (
            stamp.year, rng.choice('-/'), stamp.month, rng.choice('-/'),
            stamp.day)
        if form < 0.75:
            return day
        return '%04d-%02d-%02dT%02d:%02d:%02dZ' % stamp.timetuple()[:6]

    def near(self, rng):
        return rng.choice([
            '2020-01-02T03:04:05+05:00', '2020-01-02T03:04:05',
            '2020-01-02T03:04:05.250Z', '2020-01-02T03:04:05Z+1',
            '2020-01-02T03:04Z', '2020/01/02T03:04:05Z', '2020-01-02Z',
            '2020-01-02 03:04:05', '20-01-02', '2020/01/023', '02/01/2020',
            '2020-01-02T03:04:05-00:00', '2020-01-02T03:04:05 Z',
            '2020/13/01', '2020/02/30', '2021-02-29', '2020-02-29',
            '2020/00/10', '2020-01-01T24:00:00Z', '2020-01-01T10:60:00Z',
            '2020-12-31T23:59:59Z', 'today', '', 20200101, 1.5,
            datetime.date(2020, 1, 2), None, 'ten chars!', 'Z',
            '2020/1/2', '2020-1-12', '2020/11/2', '999/01/02', '95/08/12',
            '0001-01-01T00:00:00Z', datetime.time(1, 2)])


class UrlS(Spec):
    def configure(self, rng):
        for key in ('remove_parameters', 'remove_fragment'):
            if rng.random() < 0.5:
                self.kw[key] = rng.random() < 0.8

    def make(self, kw):
        return URL('url', **kw)

    PARTS = re.compile(r'^(https?|ftp)://([a-z0-9.:@\[\]-]+)(/[a-z0-9/._~-]*)?'
                       r'(;[a-z0-9=]+)?(\?[a-z0-9=&]+)?(#[a-z0-9/?]+)?$')

    def model(self, val):
        if not isinstance(val, str):
            raise Reject
        val = str(val)
        got = self.PARTS.match(val)
        if not got or '[' in val:
            if '://' not in val or val.startswith('://') or val in (
                    'http://', 'file:///etc', 'http:///p'):
                raise Reject
            raise Unspec
        scheme, loc, path, par, query, frag = [g or '' for g in got.groups()]
        if not path and par:
            raise Unspec
        if self.kw.get('remove_parameters'):
            par = query = ''
        if self.kw.get('remove_fragment'):
            frag = ''
        return scheme + '://' + loc + path + par + query + frag

    def good(self, rng):
        text = rng.choice(['http', 'https', 'ftp']) + '://' + rng.choice(
            ['a.com', 'localhost:80', 'u:p@h.org', '127.0.0.1'])
        if rng.random() < 0.7:
            text += rng.choice(['/', '/a', '/a/b.c', '/~u/'])
            if rng.random() < 0.3:
                text += ';p=1'
        if rng.random() < 0.5:
            text += rng.choice(['?q=1', '?a=1&b=2'])
        if rng.random() < 0.5:
            text += rng.choice(['#f', '#a/b?c'])
        return text

    def near(self, rng):
        return rng.choice(['a.com', 'http:', '//a.com/x', 'http://', '',
                           '/path', 'mailto:a@b', 'http:///p', '?q', '#f', 5,
                           b'http://a.com', None, 'http:a.com'])


# ---------------------------------------------------------------- containers

class BadEq(object):
    """unused"""


class ContS(Spec):
    scalar = False
    hash_ok = False
    base = None
    subs = ()

    def __init__(self, rng, elem=None, depth=1, observe=None, elems=None,
                 bounded=True):
        self.elem = elem if elem is not None else draw(
            rng, depth - 1, hashable=self.base is set, pool=elems)
        self.observe = observe
        self.bounded = bounded
        super(ContS, self).__init__(rng)

    def configure(self, rng):
        if rng.random() < 0.3:
            self.kw['coerce'] = rng.random() < 0.7
        if self.bounded:
            if rng.random() < 0.3:
                self.kw['min_length'] = rng.randint(0, 2)
            if rng.random() < 0.3:
                self.kw['max_length'] = self.kw.get('min_length', 0) + \
                    rng.randint(0, 3)
        if self.base is not tuple:
            obs = self.observe
            if obs is None:
                obs = rng.random() < 0.3
            if obs:
                self.kw['observe_mutations'] = True
        self.no_prop = isinstance(self.elem, AnyS) and rng.random() < 0.5

    @property
    def json_ok(self):
        return self.elem.json_ok

    def make(self, kw):
        kw = dict(kw)
        if not self.no_prop:
            kw['prop'] = self.elem.build()
        return self.cls()('container', **kw)

    def model(self, val):
        if isinstance(val, (list, tuple, set, np.ndarray)) and not (
                is_arr(val) and not self.kw.get('coerce')):
            pass
        elif not self.kw.get('coerce'):
            raise Reject
        if not isinstance(val, self.base):
            if not self.kw.get('coerce'):
                raise Reject
            if not isinstance(val, (list, tuple, set, np.ndarray)) or (
                    is_arr(val) and val.ndim == 0):
                val = [val]
            kind = self.base
        else:
            kind = type(val)
        items = []
        rejected = unspec = False
        for v in val:
            try:
                items.append(self.elem.model(v))
            except Reject:
                rejected = True
            except Unspec:
                unspec = True
        if rejected:
            raise Reject
        if unspec:
            raise Unspec
        if self.base is set:
            items = merge(items)
        while kind.__name__.startswith('Observable'):
            kind = kind.__mro__[1]
        return Cont(kind, items)

    def length_ok(self, n):
        return self.kw.get('min_length', 0) <= n <= self.kw.get(
            'max_length', 10 ** 9)

    def some_len(self, rng):
        lo = self.kw.get('min_length', 0)
        return rng.randint(lo, self.kw.get('max_length', lo + 3))

    def good(self, rng):
        want = self.some_len(rng)
        if self.base is set:
            out = set()
            for _ in range(want * 6):
                if len(out) >= want:
                    break
                item = self.elem.good(rng)
                try:
                    exp = self.elem.model(item)
                except (Reject, Unspec):
                    continue
                if isinstance(exp, Pred) or exp != exp:
                    continue
                if isinstance(exp, (float, complex)) or (
                        isinstance(exp, Exp) and not isinstance(exp, Same)):
                    continue
                if any(match(exp, o) or o == exp for o in out):
                    continue
                if isinstance(exp, Same):
                    exp = exp.obj
                out.add(exp)
        else:
            out = [self.elem.good(rng) for _ in range(want)]
        kind = self.base
        if rng.random() < 0.2:
            kind = rng.choice(self.subs)
        if self.kw.get('coerce') and self.base is not set and \
                rng.random() < 0.3:
            kind = rng.choice([list, tuple])
        return kind(out)

    def near(self, rng):
        size = rng.randint(1, 4)
        items = [self.elem.good(rng) for _ in range(size)]
        roll = rng.random()
        if roll < 0.6:
            items[rng.randrange(size)] = self.elem.candidate(rng)
        kind = rng.choice([self.base, self.base, list, tuple] +
                          list(self.subs))
        try:
            if roll > 0.9:
                return self.elem.good(rng)
            return kind(items)
        except TypeError:
            return items

    def __repr__(self):
        return '%s(%r, %s)' % (type(self).__name__, self.elem, self.kw)


def merge(items):
    """Expected elements of a set: duplicates by value collapse"""
    out = []
    for item in items:
        if isinstance(item, Exp) and not isinstance(item, Same):
            raise Unspec
        val = item.obj if isinstance(item, Same) else item
        try:
            if not any((o.obj if isinstance(o, Same) else o) == val
                       for o in out):
                out.append(item)
        except (ValueError, TypeError):
            raise Unspec
    if any((o.obj if isinstance(o, Same) else o) !=
           (o.obj if isinstance(o, Same) else o) for o in out):
        raise Unspec
    return out


class TupleS(ContS):
    base = tuple
    subs = (TupleSub,)

    @property
    def hash_ok(self):
        return self.elem.hash_ok

    def cls(self):
        return p.Tuple


class ListS(ContS):
    base = list
    subs = (ListSub,)

    def cls(self):
        return p.List


class SetS(ContS):
    base = set
    subs = (SetSub,)

    def cls(self):
        return p.Set


class DictS(Spec):
    scalar = False
    hash_ok = False
    dict_like = True

    def __init__(self, rng, key=None, val=None, depth=1, observe=None,
                 elems=None):
        self.key = key if key is not None else rng.choice(
            [StringS, IntS, ChoiceS, StringS])(rng)
        self.val = val if val is not None else draw(rng, depth - 1,
                                                    pool=elems)
        self.observe = observe
        super(DictS, self).__init__(rng)

    def configure(self, rng):
        if rng.random() < 0.25:
            self.kw['coerce'] = rng.random() < 0.7
        obs = self.observe
        if obs is None:
            obs = rng.random() < 0.3
        if obs:
            self.kw['observe_mutations'] = True
        self.bare = isinstance(self.val, AnyS) and rng.random() < 0.5

    @property
    def json_ok(self):
        return isinstance(self.key, (StringS, ChoiceS)) and self.val.json_ok

    def make(self, kw):
        kw = dict(kw)
        kw['key_prop'] = self.key.build()
        if not self.bare:
            kw['value_prop'] = self.val.build()
        return p.Dictionary('dictionary', **kw)

    def model(self, val):
        if self.kw.get('coerce'):
            try:
                val = dict(val)
            except (TypeError, ValueError):
                raise Reject
        elif not isinstance(val, dict):
            raise Reject
        kind = type(val)
        while kind.__name__.startswith('Observable'):
            kind = kind.__mro__[1]
        out = {}
        rejected = unspec = False
        for k, v in val.items():
            ek = ev = None
            try:
                ek = self.key.model(k)
            except Reject:
                rejected = True
            except Unspec:
                unspec = True
            try:
                ev = self.val.model(v)
            except Reject:
                rejected = True
            except Unspec:
                unspec = True
            if isinstance(ek, Exp):
                unspec = True
            elif not rejected and not unspec:
                out[ek] = ev       # later keys win after coercion
        if rejected:
            raise Reject
        if unspec:
            raise Unspec
        return Cont(kind, list(out.items()))

    def good(self, rng):
        out = {}
        for _ in range(rng.randint(0, 3)):
            out[self.key.good(rng)] = self.val.good(rng)
        if rng.random() < 0.2:
            return DictSub(out)
        if self.kw.get('coerce') and rng.random() < 0.3:
            return list(out.items())
        return out

    def near(self, rng):
        out = {}
        for _ in range(rng.randint(1, 3)):
            out[self.key.good(rng)] = self.val.good(rng)
        if rng.random() < 0.5:
            out[self.key.good(rng)] = self.val.candidate(rng)
        elif rng.random() < 0.6:
            key = self.key.candidate(rng)
            try:
                out[key] = self.val.good(rng)
            except TypeError:
                pass
        else:
            return rng.choice([list(out.items()), list(out), tuple(out), None,
                               [(1, 2, 3)]])
        return out

    def __repr__(self):
        return 'DictS(%r: %r, %s)' % (self.key, self.val, self.kw)


class UnionS(Spec):
    scalar = False

    def __init__(self, rng, depth=1, parts=None, elems=None):
        self.parts = parts or [draw(rng, depth - 1, pool=elems)
                               for _ in range(rng.randint(1, 4))]
        super(UnionS, self).__init__(rng)

    @property
    def hash_ok(self):
        return all(s.hash_ok for s in self.parts)

    @property
    def json_ok(self):
        return False           # ambiguous unions legitimately lose information

    @property
    def dict_like(self):
        return any(s.dict_like for s in self.parts)

    def make(self, kw):
        return p.Union('union', props=[s.build() for s in self.parts], **kw)

    def model(self, val):
        for part in self.parts:
            try:
                return part.model(val)
            except Reject:
                continue
        raise Reject

    def good(self, rng):
        return rng.choice(self.parts).good(rng)

    def near(self, rng):
        return rng.choice(self.parts).near(rng)

    def __repr__(self):
        return 'UnionS(%r)' % (self.parts,)


# ------------------------------------------------------------------- vectors

class ArrayS(Spec):
    scalar = False
    hash_ok = False

    def configure(self, rng):
        self.shapes = {('*',)}
        if rng.random() < 0.75:
            self.shapes = rng.choice([
                {('*', 3)}, {(2,)}, {(2, 2)}, {('*', '*')}, {('*',), (2, 2)},
                {(3,), (4,)}, {(1, '*', 2)}, None, {()}, {(2, 3), ('*', 2)}])
            self.kw['shape'] = self.shapes
            if self.shapes and len(self.shapes) == 1 and rng.random() < 0.7:
                self.kw['shape'] = list(self.shapes)[0]
        self.types = (float, int)
        if rng.random() < 0.6:
            self.types = rng.choice([(float,), (int,), (bool,), (int, float),
                                     (bool, int), (float, bool),
                                     (bool, int, float), (complex,),
                                     (float, complex)])
            self.kw['dtype'] = self.types if len(self.types) > 1 or \
                rng.random() < 0.5 else self.types[0]
        if rng.random() < 0.25:
            self.kw['coerce'] = rng.random() < 0.4

    @property
    def json_ok(self):
        return complex not in self.types

    def make(self, kw):
        return p.Array('array', **kw)

    KINDS = {float: 'f', int: 'ui', bool: 'b', complex: 'c'}

    def model(self, val):
        if not isinstance(val, (tuple, list, np.ndarray)):
            raise Reject
        if self.kw.get('coerce', True):
            try:
                arr = np.array(val)
            except ValueError:
                raise Reject      # ragged
        elif not isinstance(val, np.ndarray):
            raise Reject
        else:
            arr = val
        if arr.dtype.kind not in ''.join(self.KINDS[t] for t in self.types):
            raise Reject
        if self.shapes is not None and not any(
                len(s) == arr.ndim and all(
                    w == '*' or w == n for w, n in zip(s, arr.shape))
                for s in self.shapes):
            raise Reject
        if not self.kw.get('coerce', True):
            return Same(val)
        return arr_exp(arr, np.ndarray)

    def draw_shape(self, rng):
        if self.shapes is None:
            return tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 3)))
        shape = rng.choice(sorted(self.shapes, key=repr))
        return tuple(rng.randint(1, 4) if n == '*' else n for n in shape)

    def fill(self, rng, shape, typ):
        size = int(np.prod(shape)) if shape else 1
        if typ is float:
            flat = [rng.choice([rng.uniform(-9, 9), rng.uniform(-9, 9),
                                float('nan'), float('inf'), -float('inf'),
                                0.0, 1e300, 2.5])
                    for _ in range(size)]
        elif typ is int:
            flat = [rng.choice([rng.randint(-9, 9), 2 ** 40, 0])
                    for _ in range(size)]
        elif typ is complex:
            flat = [complex(rng.randint(-3, 3), rng.randint(-3, 3))
                    for _ in range(size)]
        else:
            flat = [rng.random() < 0.5 for _ in range(size)]
        return np.array(flat, dtype=typ).reshape(shape)

    def good(self, rng):
        arr = self.fill(rng, self.draw_shape(rng), rng.choice(self.types))
        if self.kw.get('coerce', True) and arr.ndim and rng.random() < 0.5:
            return arr.tolist() if rng.random() < 0.7 else tuple(arr.tolist())
        if arr.dtype.kind == 'i' and rng.random() < 0.2:
            return np.abs(arr).astype('uint16')
        return arr

    def near(self, rng):
        shape = list(self.draw_shape(rng))
        roll = rng.random()
        if roll < 0.3 and shape:
            shape[rng.randrange(len(shape))] += rng.choice([1, 1, -1])
            shape = [max(n, 0) for n in shape]
        elif roll < 0.45:
            shape.append(rng.randint(1, 3))
        elif roll < 0.55 and shape:
            shape.pop()
        elif roll < 0.65:
            return rng.choice([[[1], [1, 2]], ['a', 'b'], [None], [], [[]],
                               {1}, 5, 'abc', [object()], range(3)])
        arr = self.fill(rng, tuple(shape), rng.choice(
            [float, int, bool, complex]))
        return arr.tolist() if rng.random() < 0.3 and arr.ndim else arr

    def __repr__(self):
        return 'ArrayS(%r)' % (self.kw,)


DIRS3 = {'ZERO': (0, 0, 0), 'X': (1, 0, 0), 'Y': (0, 1, 0), 'Z': (0, 0, 1),
         '-X': (-1, 0, 0), '-Y': (0, -1, 0), '-Z': (0, 0, -1),
         'EAST': (1, 0, 0), 'WEST': (-1, 0, 0), 'NORTH': (0, 1, 0),
         'SOUTH': (0, -1, 0), 'UP': (0, 0, 1), 'DOWN': (0, 0, -1)}


class VecS(Spec):
    scalar = False
    hash_ok = False

    def __init__(self, rng, dim=None, many=None):
        self.dim = dim or rng.choice([2, 3])
        self.many = rng.random() < 0.5 if many is None else many
        super(VecS, self).__init__(rng)

    def configure(self, rng):
        if rng.random() < 0.45:
            self.kw['length'] = rng.choice([1, 1.0, 2.5, 10, 0.01])
        if rng.random() < 0.2:
            self.kw['coerce'] = False
        self.rows = None
        if self.many and rng.random() < 0.3:
            self.rows = rng.randint(1, 3)
            self.kw['shape'] = (self.rows, self.dim)

    def wrapper(self):
        return getattr(vmath, 'Vector%d%s' % (
            self.dim, 'Array' if self.many else ''))

    def make(self, kw):
        cls = getattr(p, 'Vector%d%s' % (self.dim,
                                         'Array' if self.many else ''))
        return cls('vector', **kw)

    def direction(self, word):
        word = str(word).upper()
        if word not in DIRS3 or (self.dim == 2 and DIRS3[word][2]):
            raise Reject
        return list(DIRS3[word][:self.dim])

    def model(self, val):
        coerce = self.kw.get('coerce', True)
        if self.many:
            if not isinstance(val, (tuple, list, np.ndarray)):
                raise Reject
            if not is_arr(val):
                val = [self.direction(v) if isinstance(v, str) else v
                       for v in val]
        elif isinstance(val, str):
            val = self.direction(val)
        if not isinstance(val, (tuple, list, np.ndarray)):
            raise Reject
        if not coerce and type(val) is not self.wrapper():
            raise Reject
        if not self.many and not is_arr(val) and any(v is None for v in val):
            raise Unspec         # None is an omitted vectormath argument
        try:
            arr = np.array(np.asarray(val).tolist(), dtype=float)
        except (TypeError, ValueError, OverflowError):
            raise Reject
        src = np.asarray(val)
        if src.dtype.kind in 'US':
            raise Unspec      # numeric strings
        if src.dtype.kind == 'c':
            raise Unspec
        if src.dtype.kind == 'O':
            raise Unspec
        if self.many:
            if arr.size == 0:
                raise Unspec
            thin = np.squeeze(arr)
            if (arr.ndim != 2 or arr.shape[1] != self.dim) and (
                    thin.size == self.dim or (
                        thin.ndim == 2 and thin.shape[1] == self.dim)):
                # the vectormath class reads these as rows
                raise Unspec
            if arr.ndim != 2 or arr.shape[1] != self.dim:
                raise Reject
            if self.rows is not None and arr.shape[0] != self.rows:
                raise Reject
        elif arr.shape != (self.dim,):
            if arr.shape == (1, self.dim) or arr.size == self.dim:
                raise Unspec
            raise Reject
        length = self.kw.get('length')
        if length is not None:
            # scaling nan or infinite vectors is plain arithmetic
            if not np.all(np.isfinite(arr)):
                raise Unspec
            rows = np.atleast_2d(arr)
            big = np.abs(rows).max(axis=1)
            if np.any(big == 0):
                raise Reject
            # squares of extreme values cannot be represented
            rows = rows / np.where((big > 1e100) | (big < 1e-100), big,
                                   1)[:, None]
            size = np.sqrt((rows ** 2).sum(axis=1))
            arr = (rows / size[:, None] * float(length)).reshape(arr.shape)
        elif not coerce:
            return Same(val)
        return arr_exp(arr, self.wrapper())

    def one(self, rng):
        return [rng.choice([rng.uniform(-5, 5), rng.randint(-3, 3), 1.0])
                for _ in range(self.dim)]

    def nonzero(self, rng):
        vec = self.one(rng)
        if not any(vec):
            vec[rng.randrange(self.dim)] = 1.0
        return vec

    def good(self, rng):
        coerce = self.kw.get('coerce', True)
        names = [n for n in DIRS3 if (self.dim == 3 or not DIRS3[n][2]) and
                 (n != 'ZERO' or 'length' not in self.kw)]
        vec = self.nonzero if 'length' in self.kw else self.one
        if self.many:
            n = self.rows or rng.randint(2, 4)
            rows = [vec(rng) for _ in range(n)]
            if not coerce:
                return self.wrapper()(np.array(rows, dtype=float))
            if rng.random() < 0.4:
                rows[rng.randrange(n)] = rng.choice(
                    [str, str.lower, str.title])(rng.choice(names))
                return rows if rng.random() < 0.7 else tuple(rows)
            return rng.choice([list, np.array])(rows)
        if not coerce:
            return self.wrapper()(*[float(v) for v in vec(rng)])
        if rng.random() < 0.4:
            return rng.choice([str, str.lower, str.title])(rng.choice(names))
        return rng.choice([list, tuple, np.array, self.wrapper()])(vec(rng))

    def near(self, rng):
        pick = rng.random()
        if pick < 0.3:
            return rng.choice(['zero', 'up', 'DOWN', 'z', '-Z', 'xx', '', '+x',
                               '- x', 'Z', 'nowhere'])
        if pick < 0.5:
            vec = self.one(rng)
            return rng.choice([vec[:-1], vec + [1.0], [vec, vec], [[vec]],
                               [0.0] * self.dim, [0] * self.dim])
        if pick < 0.7:
            return [self.one(rng), rng.choice(
                ['up', 'zero', 'nope', [0] * self.dim, [1.0], None, 'x'])]
        if pick < 0.8:
            vec = [rng.choice([0.0, 1e300, -1.7e308, 5e-324, 1e-200, 1e200])
                   for _ in range(self.dim)]
            return [vec, self.nonzero(rng)] if self.many else vec
        return hostile(rng)

    @property
    def json_ok(self):
        return True

    def __repr__(self):
        return 'VecS(%s%s, %r)' % (self.dim, '[]' if self.many else '',
                                   self.kw)


SCALARS = [BoolS, IntS, FloatS, ComplexS, StringS, ChoiceS, ColorS, DateTimeS,
           UrlS]


def draw(rng, depth=1, hashable=False, pool=None, json=False):
    """A random spec up to this nesting depth"""
    if pool and rng.random() < 0.35:
        cand = [s for s in pool if s.hash_ok or not hashable]
        if cand:
            return rng.choice(cand)
    roll = rng.random()
    if depth <= 0 or roll < 0.5 or hashable:
        if hashable:
            return rng.choice([BoolS, IntS, StringS, ChoiceS, ColorS, UrlS,
                               DateTimeS])(rng)
        if roll < 0.08 and not json:
            return AnyS(rng)
        if roll > 0.92:
            return rng.choice([ArrayS, VecS])(rng)
        return rng.choice(SCALARS)(rng)
    kind = rng.choice([TupleS, ListS, SetS, DictS, UnionS, ListS])
    if kind is UnionS and json:
        kind = ListS
    out = kind(rng, depth=depth, elems=pool)
    return out
