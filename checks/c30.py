"""C30: property types defined by users take part in everything"""
import json
import warnings

import properties as p
from properties.extras import HasUID, Pointer  # noqa: F401

from vlib.canon import canon

RULE = ('A case writes a property class as documented: validate from a '
        'random table of inputs, rejecting in every documented way, its own '
        'equal, to_json, from_json, default, keyword and description (old '
        'spellings included), derived from Property, GettableProperty or a '
        'built-in type; the class is used directly, by an old name, in '
        'lists, sets, tuples, dictionaries, unions, nested instances and '
        'dynamically. Assignments, notifications, equality, JSON, copies, '
        'defaults, errors and documentation are compared with the table. '
        'Non-trivial: an operation on such a property, by place and form.')
CASES = {'quick': 2500, 'thorough': 25000}
FLOORS = {'assigned': 17818, 'broken': 1253, 'derived': 1250, 'different':
          1435, 'dynamic': 4436, 'equal': 1054, 'garbage': 1603, 'immutable':
          1250, 'refused': 2634, 'round_trips': 2500, 'strict_different': 789,
          'strict_equal': 635}


class Own(p.ValidationError):
    """An error class of the user"""


class Plain(ValueError):
    """An error class that is no ValidationError"""


class Token(object):
    """A value equal only to itself"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'Token(%d)' % self.n


class Table(object):
    """What the generated class must do, decided by a table"""

    def __init__(self, rng):
        n = self.n = rng.randint(3, 6)
        self.kind = rng.choice(['str', 'int', 'tuple', 'token', 'frozen'])
        self.stored = [{
            'str': 's%d' % i, 'int': 100 + i, 'tuple': ('t', i),
            'token': Token(i), 'frozen': frozenset([i, 'x'])}[self.kind]
            for i in range(n)]
        self.raw = {}
        forms = [lambda i: 'raw %d' % i, lambda i: i, lambda i: ['raw', i],
                 lambda i: {'raw': i}, lambda i: i + .5]
        for i in range(n):
            for form in rng.sample(forms, rng.randint(1, 3)):
                self.raw[repr(form(i))] = (form(i), i)
        self.wrong = [v for v in ('nothing', -3, [], 2.25, None, Token(99),
                                  b'x', {'raw': 77}, object)
                      if repr(v) not in self.raw]
        self.style = rng.choice(['error', 'extra', 'own', 'plain', 'raise',
                                 'raise own', 'key'])
        # groups of values that count as equal
        self.group = [rng.randrange(n) for _ in range(n)] \
            if rng.random() < 0.6 else None
        self.json = rng.choice([None, 'bijection', 'raw', 'nested'])
        if self.kind in ('token', 'frozen', 'tuple') and self.json is None \
                and rng.random() < 0.8:
            self.json = 'bijection'
        self.default = rng.choice([None, None, 'value', 'callable'])
        self.default_i = rng.randrange(n)
        self.info = rng.choice(['class', 'property', 'text', 'call', 'none'])
        self.options = []
        self.seen = []
        self.made = 0

    def index(self, value):
        """Which entry a value is, raw or stored; None when refused"""
        for i, val in enumerate(self.stored):
            if val is value or (self.kind != 'token' and
                                type(val) is type(value) and val == value):
                return i
        try:
            return self.raw[repr(value)][1] if not isinstance(
                value, (Token, type)) else None
        except KeyError:
            return None

    def same(self, i, j):
        if self.group is None:
            return i == j
        return self.group[i] == self.group[j]

    def words(self):
        return {'class': 'a tabled thing', 'property': 'one tabled thing',
                'text': 'an old text', 'call': 'an old call',
                'none': ''}[self.info]

    def dump(self, i):
        if self.json == 'bijection':
            return 'json %d' % i
        if self.json == 'nested':
            return {'number': [i]}
        if self.json == 'raw':
            return 'json %d' % i
        return self.stored[i]

    def good(self, rng):
        """An accepted value, and its entry"""
        if rng.random() < 0.4:
            i = rng.randrange(self.n)
            return self.stored[i], i
        return rng.choice(list(self.raw.values()))


def define(rng, tab, base=p.Property):
    """The property class, written as the documentation says"""
    def validate(self, instance, value):
        tab.seen.append((instance, self.name))
        i = tab.index(value)
        if i is not None:
            return tab.stored[i]
        if tab.style == 'error':
            self.error(instance, value)
        if tab.style == 'extra':
            self.error(instance, value, extra='Extra words.')
        if tab.style == 'own':
            self.error(instance, value, Own)
        if tab.style == 'plain':
            self.error(instance, value, error_class=Plain)
        if tab.style == 'raise':
            raise ValueError('not in the table')
        if tab.style == 'raise own':
            raise Own('not in the table', 'invalid', self.name, instance)
        raise Plain('not in the table')

    ns = {'validate': validate, '__module__': 'somewhere.mine'}
    if tab.info == 'class':
        ns['class_info'] = tab.words()
    elif tab.info == 'text':
        ns['info_text'] = tab.words()
    elif tab.info == 'property':
        ns['info'] = property(lambda self: tab.words())
    elif tab.info == 'call':
        ns['info'] = lambda self: tab.words()
    if tab.group is not None:
        ns['equal'] = lambda self, a, b: tab.same(tab.index(a), tab.index(b))
    if tab.json:
        def to_json(value, **kwargs):
            tab.options.append(kwargs)
            return tab.dump(tab.index(value))

        def from_json(value, **kwargs):
            tab.options.append(kwargs)
            for i in range(tab.n):
                if tab.dump(i) == value:
                    if tab.json == 'raw':
                        return next((r for r, j in tab.raw.values()
                                     if j == i and type(r).__hash__),
                                    tab.stored[i])
                    return tab.stored[i]
            raise ValueError('unknown JSON %r' % (value,))
        ns['to_json'] = staticmethod(to_json)
        ns['from_json'] = staticmethod(from_json)
    if tab.default == 'value':
        ns['_class_default'] = tab.stored[tab.default_i]
    elif tab.default == 'callable':
        def make(*_):
            tab.made += 1
            return tab.stored[tab.default_i]
        ns['_class_default'] = staticmethod(make)
    limit = {}

    def set_limit(self, value):
        if not isinstance(value, int):
            raise TypeError('limit must be an integer')
        self._limit = value
    ns['limit'] = property(lambda self: getattr(self, '_limit', 3), set_limit)
    with warnings.catch_warnings(record=True) as said:
        warnings.simplefilter('always')
        cls = type('Tabled', (base,), ns)
    old = tab.info in ('text', 'call')
    return cls, old == any(issubclass(w.category, FutureWarning)
                           for w in said) and limit == {}


class Run(object):
    """The generated type on a class that uses it everywhere"""

    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        rng = ctx.rng
        self.tab = tab = Table(rng)
        self.typ, told = define(rng, tab)
        ctx.check(told, 'an old spelling is not announced, or a new one is',
                  tab.info)
        ctx.note('table', tab.kind, tab.style, tab.group, tab.json,
                 tab.default, tab.info)
        typ = self.typ
        self.log = []

        def make(**kw):
            return typ('some doc', required=False, **kw)
        inner = {'_REGISTRY': {}, 'val': make()}
        registry = inner['_REGISTRY']
        self.inner = type('Inner', (p.HasProperties,), inner)
        quiet = {'default': p.undefined} if tab.default else {}

        def elem():
            return typ('element', **quiet)
        self.places = {
            'val': make(),
            'many': p.List('', elem(), required=False,
                           observe_mutations=rng.random() < 0.3),
            'pair': p.Tuple('', elem(), required=False),
            'group': p.Set('', elem(), required=False),
            'tab': p.Dictionary('', key_prop=p.String(''),
                                value_prop=elem(), required=False),
            'keys': p.Dictionary('', key_prop=elem(),
                                 value_prop=p.Integer(''), required=False),
            'either': p.Union('', rng.sample([p.Boolean(''), elem()], 2),
                              required=False),
            'deep': p.List('', p.Union('', [p.List('', elem()), elem()]),
                           required=False),
            'inst': p.Instance('', self.inner, required=False),
        }
        if not tab.json or tab.json == 'nested':
            del self.places['keys']
        ns = {'_REGISTRY': registry, 'old': p.Renamed('val', warn=False),
              'source': p.Property('', required=False)}
        ns.update(self.places)

        def getter(this):
            return this.source

        def setter(this, value):
            self.log.append(('dynamic set', value))
            this.source = value

        def deleter(this):
            this.source = p.undefined
        for func in (getter, setter, deleter):
            func.__name__ = 'dyn'
        dyn = elem()(getter)
        dyn.setter(setter)
        dyn.deleter(deleter)
        ns['dyn'] = dyn

        def observe(this, change):
            self.log.append((change['mode'], change['name'],
                             change['previous'], change['value']))
        ns['on_set'] = p.observer(list(self.places))(observe)
        ns['on_change'] = p.observer(list(self.places), change_only=True)(
            lambda this, change: observe(this, change))

        def hook(this, entries):
            self.log.append(('hook', [(e.reason, e.prop, e.instance)
                                      for e in entries]))
        ns['_error_hook'] = hook
        self.cls = type('Host', (p.HasProperties,), ns)
        self.objs = [self.cls() for _ in range(2)]
        self.model = [{} for _ in self.objs]
        self.check_defaults()

    def check_defaults(self):
        ctx, tab = self.ctx, self.tab
        made = tab.made
        obj = self.cls()
        if tab.default:
            want = tab.stored[tab.default_i]
            ctx.check(obj.val is want and obj.old is want, 'the default of '
                      'the type is not used', obj.val, want)
            for model in self.model:
                model['val'] = tab.default_i
            if tab.default == 'callable':
                ctx.check(tab.made > made, 'a callable default was not '
                          'called for a new instance')
            obj.val = tab.stored[(tab.default_i + 1) % tab.n]
            obj._reset('val')
            ctx.check(obj.val is want, 'reset to something else', obj.val)
        else:
            ctx.check(obj.val is None, 'a value without default', obj.val)
        i = self.rng.randrange(tab.n)
        kid = type('Kid', (self.cls,), {
            '_defaults': {'val': tab.stored[i]}})
        ctx.check(kid().val is tab.stored[i], 'a default of the class is '
                  'not used', kid().val)
        try:
            type('Bad', (self.cls,), {'_defaults': {'val': Token(-1)}})
            ctx.fail('an invalid default was accepted')
        except (ValueError, AttributeError):
            pass
        own = self.typ('', default=tab.stored[i], required=False, limit=7)
        ctx.check(own.limit == 7 and own.default is tab.stored[i] and
                  self.typ('').limit == 3, 'a keyword of the user\'s type is '
                  'lost')
        for bad, err in (({'limit': 'x'}, TypeError),
                         ({'limits': 3}, AttributeError),
                         ({'default': Token(-1)}, ValueError)):
            try:
                self.typ('', **bad)
            except err:
                continue
            ctx.fail('a wrong keyword was accepted', bad)
        del self.log[:]

    def draw(self, place):
        """A value for a place, its model or None when refused"""
        rng, tab = self.rng, self.tab
        wrong = rng.random() < 0.25

        def one():
            if wrong and rng.random() < 0.6:
                return rng.choice(tab.wrong), None
            return tab.good(rng)
        if place in ('val', 'either', 'dyn', 'source'):
            if place == 'either' and rng.random() < 0.2:
                flag = rng.random() < 0.5
                return flag, ('flag', flag)
            return one()
        if place == 'inst':
            val, i = one()
            return ({'val': val}, None if i is None else ('inst', i))
        size = rng.randint(0, 4)
        items = [one() for _ in range(size)]
        if place == 'group' and any(
                type(v).__hash__ is None for v, _ in items):
            items = [(v, i) for v, i in items if type(v).__hash__]
        if place == 'keys':
            items = [(v, i) for v, i in items if type(v).__hash__]
        vals = [v for v, _ in items]
        idx = [i for _, i in items]
        bad = None in idx
        if place == 'many':
            return vals, None if bad else tuple(idx)
        if place == 'pair':
            return tuple(vals), None if bad else tuple(idx)
        if place == 'group':
            out = set(vals)
            want = [i for v, i in items]
            return out, None if bad else tuple(sorted(set(want)))
        if place == 'tab':
            names = ['k%d' % rng.randint(0, 5) for _ in vals]
            data = dict(zip(names, vals))
            model = {n: dict(zip(names, idx))[n] for n in data}
            return data, None if None in model.values() else tuple(
                sorted(model.items()))
        if place == 'keys':
            if len({i for i in idx}) != len(idx):
                return None, 'skip'
            if len(set(vals)) != len(vals):
                return None, 'skip'
            data = {v: k for k, v in enumerate(vals)}
            return data, None if bad else tuple(sorted(
                (i, k) for k, i in enumerate(idx)))
        # deep: lists and single values; raw lists are ambiguous
        out, model = [], []
        for v, i in items:
            if isinstance(v, (list, tuple)):
                continue
            if rng.random() < 0.5:
                out.append([v, v])
                model.append(None if i is None else (i, i))
            else:
                out.append(v)
                model.append(i)
        return out, None if None in model else tuple(model)

    def read(self, place, value):
        """The model of a stored value"""
        index = self.tab.stored.index if self.tab.kind != 'token' else (
            lambda v: [w is v for w in self.tab.stored].index(True))
        if value is None:
            return None
        if place == 'either' and isinstance(value, bool):
            return 'flag', value
        if place in ('val', 'either', 'dyn'):
            return index(value)
        if place == 'inst':
            return 'inst', index(value.val)
        if place in ('many', 'pair'):
            return tuple(index(v) for v in value)
        if place == 'group':
            return tuple(sorted(index(v) for v in value))
        if place == 'tab':
            return tuple(sorted((k, index(v)) for k, v in value.items()))
        if place == 'keys':
            return tuple(sorted((index(k), v) for k, v in value.items()))
        return tuple(tuple(index(w) for w in v) if isinstance(v, list)
                     else index(v) for v in value)

    def same(self, place, a, b):
        """Equality of two models"""
        same = self.tab.same
        if a is None or b is None:
            return a is b
        if place == 'either':
            if isinstance(a, tuple) or isinstance(b, tuple):
                return a == b
            return same(a, b)
        if place == 'val':
            return same(a, b)
        if place == 'inst':
            return same(a[1], b[1])
        if len(a) != len(b):
            return False
        if place in ('many', 'pair'):
            return all(same(i, j) for i, j in zip(a, b))
        if place == 'group':
            if self.tab.group is None:
                return a == b
            return sorted(self.tab.group[i] for i in a) == sorted(
                self.tab.group[i] for i in b)
        if place == 'tab':
            return all(k == l and same(i, j)
                       for (k, i), (l, j) in zip(a, b))
        if place == 'keys':
            return a == b
        return all(
            (isinstance(i, tuple) and isinstance(j, tuple) and
             all(same(x, y) for x, y in zip(i, j)))
            if isinstance(i, tuple) or isinstance(j, tuple) else same(i, j)
            for i, j in zip(a, b))

    def dump(self, place, m):
        d = self.tab.dump
        if place == 'either' and isinstance(m, tuple):
            return m[1]
        if place in ('val', 'either'):
            return d(m)
        if place == 'inst':
            return {'val': d(m[1])}
        if place in ('many', 'pair', 'group'):
            return [d(i) for i in m]
        if place == 'tab':
            return {k: d(i) for k, i in m}
        if place == 'keys':
            return {d(i): k for i, k in m}
        return [[d(i) for i in v] if isinstance(v, tuple) else d(v)
                for v in m]

    def assign(self):
        ctx, rng, tab = self.ctx, self.rng, self.tab
        k = rng.randrange(len(self.objs))
        obj, model = self.objs[k], self.model[k]
        place = rng.choice(list(self.places))
        value, want = self.draw(place)
        if want == 'skip':
            return
        if place == 'deep' and tab.kind == 'tuple':
            return
        by = 'old' if place == 'val' and rng.random() < 0.4 else place
        prev, held = model.get(place), getattr(obj, place)
        del self.log[:], tab.seen[:]
        ctx.count('assigned')
        ctx.nontrivial('set', place, tab.kind, tab.style, repr(value)[:60])
        ctx.note('set', k, by, value, want)
        try:
            if rng.random() < 0.5:
                setattr(obj, by, value)
            else:
                obj.__class__.__dict__[by].fset(obj, value)
        except ValueError as err:
            ctx.check(want is None, 'a value of the table was refused',
                      place, value, err)
            ctx.check(getattr(obj, place) is held, 'a refused value changed '
                      'something', place)
            ctx.check(not [e for e in self.log if e[0] != 'hook'],
                      'a refused value notified', self.log)
            if place == 'val':
                cls = {'own': Own, 'plain': Plain, 'raise own': Own,
                       'key': Plain}.get(tab.style, ValueError)
                ctx.check(isinstance(err, cls), 'another kind of error was '
                          'raised', tab.style, type(err))
                if tab.style in ('error', 'extra', 'own', 'plain'):
                    ctx.check(not tab.words() or tab.words() in str(err),
                              'an error does not name the description', err)
                if tab.style in ('error', 'extra', 'own', 'raise own'):
                    ctx.check(self.log == [('hook', [
                        ('invalid', 'val', obj)])], 'the hook was not '
                        'called exactly once', self.log)
                if tab.style == 'extra':
                    ctx.check('Extra words.' in str(err), 'extra words lost')
            ctx.count('refused')
            return
        if want is None:
            if place == 'inst':
                ctx.fail('an invalid nested value was accepted', value)
            ctx.fail('a value that is not in the table was accepted', place,
                     value)
        model[place] = want
        got = getattr(obj, place)
        ctx.check(self.read(place, got) == want, 'another value was stored '
                  'than validate returned', place, value, want, got)
        ctx.check(getattr(obj, 'old') is obj.val, 'the old name differs')
        if place == 'val':
            ctx.check(any(inst is obj and name == 'val'
                          for inst, name in tab.seen),
                      'validate was not given the instance', tab.seen)
        ctx.check(tab.seen == [] or all(
            inst is obj or inst is None or isinstance(inst, self.inner)
            for inst, _ in tab.seen), 'validate was given another instance')
        events = [e for e in self.log if e[0] != 'hook']
        modes = ['observe_set'] if self.same(place, prev, want) else [
            'observe_change', 'observe_set']
        ctx.check([e[:2] for e in events] == [(m, place) for m in modes],
                  'notifications do not follow the type\'s own equality',
                  place, prev, want, tab.group, events)
        for e in events:
            ctx.check(e[3] is got and (
                e[2] is held or held is None and e[2] is p.undefined),
                'a notification carries other values', e, held, got)

    def dynamic(self):
        """The type as decorator"""
        ctx, rng, tab = self.ctx, self.rng, self.tab
        obj = rng.choice(self.objs)
        value, want = self.draw('val')
        ctx.nontrivial('dynamic', tab.kind, tab.style, repr(value)[:60])
        ctx.count('dynamic')
        del self.log[:]
        before = obj.source
        if rng.random() < 0.5:
            try:
                obj.dyn = value
            except ValueError:
                ctx.check(want is None and obj.source is before and not
                          [e for e in self.log if e[0] == 'dynamic set'],
                          'a dynamic assignment was refused', value, want)
                return
            ctx.check(want is not None, 'a dynamic value was accepted',
                      value)
            ctx.check(self.log == [('dynamic set', tab.stored[want])] and
                      self.log[0][1] is obj.source, 'the setter got another '
                      'value', self.log)
        else:
            obj.source = value if value is not None else p.undefined
            try:
                got = obj.dyn
            except ValueError:
                ctx.check(want is None and value is not None,
                          'a computed value was refused', value)
                obj.source = p.undefined
                return
            if value is None:
                ctx.check(got is None, 'none is a value', got)
            else:
                ctx.check(want is not None and got is tab.stored[want],
                          'a computed value is not validated', value, got)
        if obj.source is not None:
            data = obj.serialize(include_class=False, save_dynamic=True)
            ctx.check(data.get('dyn') == tab.dump(want), 'a dynamic value '
                      'is serialized otherwise', data.get('dyn'))
        del obj.dyn
        ctx.check(obj.dyn is None, 'a deleted dynamic value reads back')

    def wholes(self):
        """Equality, validation, JSON and copies of whole instances"""
        ctx, rng, tab = self.ctx, self.rng, self.tab
        one, two = self.objs
        a, b = self.model
        want = all(self.same(n, a.get(n), b.get(n)) for n in self.places)
        ctx.count('equal' if want else 'different')
        ctx.check(bool(p.equal(one, two)) is want and
                  bool(p.equal(two, one)) is want, 'equality does not follow '
                  'the type\'s own', a, b, tab.group)
        ctx.check(one.validate(), 'accepted values do not validate')
        del tab.options[:], self.log[:]
        data = one.serialize(include_class=False, word='option')
        expect = {n: self.dump(n, a[n]) for n in a if a[n] is not None}
        got = dict(data)
        for d in (got, expect):
            if 'group' in d:
                d['group'] = sorted(map(repr, d['group']))
        ctx.check(canon(got) == canon(expect) or
                  tab.kind == 'token' and got == expect,
                  'serialized otherwise', got, expect)
        ctx.check(all(o.get('word') == 'option' for o in tab.options),
                  'options do not reach to_json', tab.options[:2])
        if tab.json:
            ctx.check(bool(tab.options) or not any(
                n != 'either' or not isinstance(m, tuple)
                for n, m in a.items() if m not in (None, ())),
                'to_json was not used')
            data = json.loads(json.dumps(data))
        del tab.options[:]
        back = self.cls.deserialize(data, word='option')
        for n in self.places:
            ctx.check(self.read(n, getattr(back, n)) == (
                a.get(n) if a.get(n) is not None else
                tab.default_i if n == 'val' and tab.default else None),
                'deserialized otherwise', n, data.get(n), a.get(n),
                getattr(back, n))
        ctx.check(all(o.get('word') == 'option' for o in tab.options),
                  'options do not reach from_json', tab.options[:2])
        ctx.check(not self.log, 'serialization notified', self.log)
        ctx.count('round_trips')
        twin = p.copy(one)
        for n in self.places:
            if a.get(n) is not None:
                ctx.check(self.read(n, getattr(twin, n)) == a[n],
                          'a copy has another value', n)
        if tab.json and 'val' in data:
            data['val'] = 'garbage'
            try:
                self.cls.deserialize(data)
            except ValueError:
                ctx.count('garbage')
            else:
                ctx.fail('garbage was deserialized', tab.json)

    def mirror(self):
        """Give the second instance values that are, or nearly, equal"""
        rng, tab = self.rng, self.tab
        one, two = self.objs
        off = rng.choice(list(self.places)) if rng.random() < 0.5 else None

        def twin(m, place):
            if isinstance(m, str) or isinstance(m, bool):
                return m
            if isinstance(m, tuple):
                return tuple(twin(x, place) for x in m)
            alike = [j for j in range(tab.n) if tab.same(m, j)]
            if place == off:
                alike = range(tab.n)
            return rng.choice(list(alike))

        def real(m, place):
            if place == 'either' and isinstance(m, tuple):
                return m[1]
            if place == 'inst':
                return self.inner(val=tab.stored[m[1]])
            if place == 'tab':
                return {k: tab.stored[i] for k, i in m}
            if place == 'keys':
                return {tab.stored[i]: k for i, k in m}
            if isinstance(m, tuple):
                kind = {'pair': tuple, 'group': set}.get(place, list)
                return kind(real(x, None) for x in m)
            return tab.stored[m]
        for place in self.places:
            m = self.model[0].get(place)
            if place == 'keys' or place == 'tab':
                if m is not None and place == 'tab':
                    m = tuple((k, twin(i, place)) for k, i in m)
            elif place == 'group':
                if m is not None:
                    new = twin(m, place)
                    m = new if len(set(new)) == len(m) else m
                    m = tuple(sorted(m))
            elif m is not None:
                m = twin(m, place)
            if m is None:
                setattr(two, place, p.undefined)
                self.model[1].pop(place, None)
                continue
            setattr(two, place, real(m, place))
            self.model[1][place] = m
            got = self.read(place, getattr(two, place))
            self.ctx.check(got == m, 'a value of the type was stored '
                           'otherwise', place, m, got)

    def documents(self):
        ctx, tab = self.ctx, self.tab
        text = self.cls.__doc__
        line = [l for l in text.splitlines() if l.startswith('* **val**')]
        ctx.check(len(line) == 1 and 'some doc' in line[0] and
                  tab.words() in line[0] and
                  ':class:`Tabled <somewhere.mine.Tabled>`' in line[0],
                  'the documentation does not describe the type', line)
        prop = self.cls._props['val']
        ctx.check(prop.info == tab.words() and prop.name == 'val',
                  'the description is wrong', prop.info)
        for name in ('many', 'pair', 'group', 'tab', 'deep'):
            line = [l for l in text.splitlines()
                    if l.startswith('* **%s**' % name)]
            ctx.check(len(line) == 1 and tab.words() in line[0],
                      'the description of a container leaves out its items',
                      line)

    def immutable(self):
        """The same table as an immutable property"""
        ctx, rng, tab = self.ctx, self.rng, self.tab
        typ, _ = define(rng, tab, p.GettableProperty)
        i = rng.randrange(tab.n)
        raw, j = tab.good(rng)
        kw, want = {}, tab.default_i if tab.default else None
        if raw is not None and not callable(raw) and rng.random() < 0.7:
            kw, want = {'default': raw}, j
        cls = type('Fixed', (p.HasProperties,), {
            '_REGISTRY': {}, 'const': typ('fixed', **kw)})
        obj = cls()
        want = None if want is None else tab.stored[want]
        ctx.nontrivial('immutable', tab.kind, tab.default, repr(raw)[:40])
        ctx.count('immutable')
        ctx.check(obj.const is want, 'an immutable value is not its default',
                  obj.const, want)
        for act in (lambda: setattr(obj, 'const', tab.stored[i]),
                    lambda: delattr(obj, 'const'),
                    lambda: cls(const=tab.stored[i]),
                    lambda: obj._reset('const')):
            try:
                act()
            except (AttributeError, ValueError):
                pass
            else:
                ctx.fail('an immutable value was changed')
        ctx.check(obj.const is want, 'an immutable value changed')
        if tab.json and want is not None:
            data = {'const': tab.dump(i)}
            ctx.check(cls.deserialize(data).const is tab.stored[i],
                      'an immutable value is not deserialized')
            ctx.check(obj.serialize(include_class=False) == {
                'const': tab.dump(tab.index(want))},
                'an immutable value is serialized otherwise')
            ctx.check(p.copy(obj).const is want, 'a copy differs')


BUILT = {
    'even': (p.Integer, {}, lambda v: v % 2 == 0,
             [0, 2, 4.0, -6, '8', 3, '5', 1.0, True, 2.5, 'x', None, 10**20]),
    'short': (p.String, {'change_case': 'lower', 'strip': ' '},
              lambda v: len(v) < 4,
              ['', 'a', ' ABC ', 'abcd', ' ab c', 5, None, 'abc']),
    'upward': (p.List, {'prop': p.Integer('')}, lambda v: v == sorted(v),
               [[], [1], [1, 2], [2, 1], [1, 1], ['1', 2.0], 'x', (1, 2),
                [1, 'x'], None]),
    'dark': (p.Color, {}, lambda v: max(v) < 128,
             ['black', 'navy', '#000', '#ffffff', 'white', (1, 2, 3),
              [200, 0, 0], [127] * 3, 5, None, 'maroon', 'red']),
    'plus': (p.Float, {'min': -5}, lambda v: v >= 0,
             [0, 1.5, -1, -6, '2', 'x', None, 7, -0.0]),
    'known': (p.StringChoice, {'choices': ['one', 'two', 'three']},
              lambda v: v != 'two',
              ['one', 'TWO', 'two', 'Three', 'four', 5, None]),
    'flat': (p.Dictionary, {'value_prop': p.Integer('')},
             lambda v: len(v) < 3,
             [{}, {'a': 1}, {'a': '1', 'b': 2}, {'a': 1, 'b': 2, 'c': 3},
              [], {'a': 'x'}, None]),
}


def derived(ctx, rng):
    """A built-in type with a further condition"""
    name = rng.choice(sorted(BUILT))
    base, kw, extra, values = BUILT[name]

    def validate(self, instance, value):
        value = super(cls, self).validate(instance, value)
        if not extra(value):
            self.error(instance, value, extra='Too special.')
        return value
    cls = type(name.title(), (base,), {'validate': validate})
    plain = base('', **kw)
    choices = kw.get('choices')

    def make(**more):
        return cls('doc', **dict(kw, **more))
    other = p.Tuple('', p.String(''))
    host = type('Host', (p.HasProperties,), {
        '_REGISTRY': {}, 'val': make(required=False),
        'many': p.List('', make(), required=False),
        'either': p.Union('', [make(), other], required=False),
        'rest': p.Union('', [make(), plain], required=False)})
    obj = host()
    ctx.count('derived')
    for _ in range(5):
        value = rng.choice(values + [('q', 'r')])
        try:
            want = plain.validate(None, value)
            whole = True
        except ValueError:
            want, whole = None, False
        good = whole and extra(want)
        ctx.nontrivial('derived', name, repr(value))
        for place, given in (('val', value), ('many', [value]),
                             ('either', value), ('rest', value)):
            accept, result = good, want
            if place == 'either' and not good:
                try:
                    result = other.validate(None, value)
                    accept = True
                except ValueError:
                    pass
            if place == 'rest':
                accept = whole
            held = canon(getattr(obj, place))
            try:
                setattr(obj, place, given)
            except ValueError as err:
                ctx.check(not accept, 'a derived type refused a value', name,
                          place, value, err)
                ctx.check(canon(getattr(obj, place)) == held,
                          'a refused value was stored')
                continue
            ctx.check(accept, 'a derived type accepted a value', name, place,
                      value)
            got = getattr(obj, place)
            ctx.check(canon(got) == canon([result] if place == 'many'
                                          else result),
                      'a derived type stored another value', name, place,
                      value, got)
        ctx.check(obj.validate(), 'derived values do not validate')
        back = host.deserialize(json.loads(json.dumps(obj.serialize())))
        ctx.check(p.equal(back, obj), 'derived values do not come back',
                  obj.serialize())
        # stored values that break the condition are found
        if whole and not extra(want):
            obj._backend['val'] = want
            try:
                obj.validate()
            except ValueError:
                pass
            else:
                ctx.fail('a broken condition was not found', name, want)
            obj._backend.pop('val')
            ctx.count('broken')
    ctx.check(choices is None or make().choices.keys() ==
              plain.choices.keys(), 'choices differ')


STRICT = [1, True, 1.0, 0, False, 0.0, 'a', 'b', (1,), (True,)]


def strict(ctx, rng):
    """An equality that is stricter than =="""
    def same(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return type(a[0]) is type(b[0]) and a == b
        return type(a) is type(b) and a == b

    Strict = type('Strict', (p.Property,), {
        'equal': lambda self, a, b: same(a, b)})
    places = {
        'val': Strict('one'), 'many': p.List('some', Strict('one')),
        'pair': p.Tuple('fixed', Strict('one')),
        'tab': p.Dictionary('table', key_prop=p.String('key'),
                            value_prop=Strict('one')),
        'deep': p.List('deep', p.List('some', Strict('one'))),
        'either': p.Union('either', [Strict('one')]),
        'watched': p.List('some', Strict('one'), observe_mutations=True)}
    seen = []
    ns = dict(places)
    ns['watch'] = p.observer(p.everything, change_only=True)(
        lambda self, change: seen.append(change['name']))
    ns['_REGISTRY'] = {}
    cls = type('Holder', (p.HasProperties,), ns)

    def draw(place):
        if place in ('val', 'either'):
            return rng.choice(STRICT)
        size = rng.randint(0, 2)
        if place == 'tab':
            return {k: rng.choice(STRICT) for k in ['x', 'y'][:size]}
        if place == 'deep':
            return [[rng.choice(STRICT) for _ in range(rng.randint(0, 2))]
                    for _ in range(size)]
        return [rng.choice(STRICT) for _ in range(size)]

    def vary(val):
        if isinstance(val, list):
            return [vary(v) for v in val]
        if isinstance(val, dict):
            return {k: vary(v) for k, v in val.items()}
        return rng.choice([v for v in STRICT if v == val])

    def alike(a, b):
        if isinstance(a, list):
            return len(a) == len(b) and all(map(alike, a, b))
        if isinstance(a, dict):
            return set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
        return same(a, b)

    for _ in range(4):
        place = rng.choice(list(places))
        one = draw(place)
        two = vary(one) if rng.random() < 0.7 else draw(place)
        want = alike(one, two)

        def given(val):
            return tuple(val) if place == 'pair' else val
        ctx.note('strict', place, one, two)
        obj, other = cls(), cls()
        setattr(obj, place, given(one))
        setattr(other, place, given(two))
        ctx.check(bool(p.equal(obj, other)) is want and
                  bool(p.equal(other, obj)) is want, 'equality does not '
                  'follow the type\'s own', place, one, two)
        ctx.check(bool(cls._props[place].equal(
            getattr(obj, place), getattr(other, place))) is want,
                  'values compare otherwise', place, one, two)
        del seen[:]
        setattr(obj, place, given(two))
        ctx.check(seen == ([] if want else [place]), 'notifications do not '
                  'follow the type\'s own equality', place, one, two, seen)
        ctx.count('strict_equal' if want else 'strict_different')
        ctx.nontrivial('strict', place, repr(one), repr(two))


def run_case(ctx):
    rng = ctx.rng
    if rng.random() < 0.3:
        strict(ctx, rng)
    run = Run(ctx)
    run.documents()
    for _ in range(rng.randint(8, 16)):
        run.assign()
        if rng.random() < 0.3:
            run.dynamic()
    run.wholes()
    for _ in range(3):
        run.assign()
    run.mirror()
    run.wholes()
    run.immutable()
    derived(ctx, rng)
