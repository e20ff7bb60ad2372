"""C21: at most one singleton exists per name and registry"""
import json

import properties as p
from properties.extras import Singleton

RULE = ('A case declares several singleton classes over one to three '
        'registries (with and without a name property, coercing names, '
        'validators, observers, nested singletons) and runs a history of '
        'constructing, failing, changing, serializing, deserializing (own '
        'and hand-made data, several options), copying and nesting, against '
        'a model of each registry and of every singleton\'s values. '
        'Non-trivial: a request that finds, makes or refuses a singleton, '
        'by class, operation and state.')
CASES = {'quick': 2000, 'thorough': 16000}
FLOORS = {'changes': 2683, 'copies': 2053, 'failed_constructions': 2095,
          'failed_loads': 1675, 'found': 10594, 'found_loads': 2928, 'loads':
          1299, 'made': 3350, 'name_changes': 1449, 'nested': 3901,
          'parent_copies': 2242, 'refused_changes': 1155, 'refused_data': 4468,
          'refused_nesting': 770, 'same_name_other_registry': 505, 'saved':
          2510, 'saved_renamed': 845}

EVENTS = []


class Kind(object):
    """A singleton class with its part of the model"""

    def __init__(self, cls, table, name, least):
        self.cls, self.table, self.name, self.least = cls, table, name, least

    def coerce(self, val):
        """(accepted, stored) for the name"""
        if self.name is None:
            return True, val
        if self.name == 'num':
            return isinstance(val, int), val
        if not isinstance(val, str):
            return False, None
        if self.name == 'upper':
            return True, val.upper()
        if self.name == 'short':
            return len(val) < 4, val
        return True, val


def observe(self, change):
    EVENTS.append((id(self), change['name'], change['mode']))


def veto(self, change):
    if change['value'] == 666:
        raise p.ValidationError('veto', 'invalid', 'x', self)


def bad_seven(self):
    if self.x == 7:
        raise p.ValidationError('seven', 'invalid', 'x', self)


def kinds(rng):
    """[Kind]: a base class and subclasses, some with new registries"""
    root = {'_SINGLETONS': {}, '_REGISTRY': {},
            'x': p.Integer('', default=1, min=0),
            'items': p.List('', p.Integer(''), default=list),
            'seen': p.observer(p.everything)(observe),
            'veto': p.validator('x')(veto),
            'seven': p.validator(bad_seven)}
    names = {'plain': lambda: p.String(''),
             'upper': lambda: p.String('', change_case='upper'),
             'short': lambda: p.String('', regex='^.{0,3}$'),
             'num': lambda: p.Integer('')}
    name = rng.choice([None, 'plain', 'plain', 'upper', 'short'])
    if name:
        root['name'] = names[name]()
    top = type('Top', (Singleton,), root)
    out = [Kind(top, top._SINGLETONS, name, 0)]
    for i in range(rng.randint(1, 4)):
        parent = rng.choice(out)
        ns = {}
        table, name = parent.table, parent.name
        if rng.random() < 0.35:
            table = ns['_SINGLETONS'] = {}
        if rng.random() < 0.3:
            name = rng.choice(list(names))
            ns['name'] = names[name]()
        if rng.random() < 0.4:
            ns['y%d' % i] = p.String('', default='why')
        cls = type('Kind%d' % i, (parent.cls,), ns)
        out.append(Kind(cls, table, name, 0))
    for kind in out:
        kind.cls_name = kind.cls.__name__
    return out


class World(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.kinds = kinds(rng)
        self.by_name = {k.cls_name: k for k in self.kinds}
        self.known = {}         # (id(table), ident) -> record
        self.saved = []
        holder = {'_REGISTRY': {}}
        for i, kind in enumerate(self.kinds):
            holder['s%d' % i] = p.Instance('', kind.cls, required=False)
        holder['many'] = p.List('', p.Instance('', self.kinds[0].cls),
                                required=False)
        self.holder = type('Holder', (p.HasProperties,), holder)

    # ---- model

    def find(self, kind, ident):
        return self.known.get((id(kind.table), ident))

    def add(self, kind, ident, obj, name, vals):
        rec = {'obj': obj, 'kind': kind, 'ident': ident, 'name': name,
               'x': 1, 'items': []}
        rec.update(vals)
        self.known[(id(kind.table), ident)] = rec
        return rec

    def verify(self, why):
        ctx = self.ctx
        tables = {id(k.table): k.table for k in self.kinds}
        for key, table in tables.items():
            want = {i: r['obj'] for (t, i), r in self.known.items()
                    if t == key}
            ctx.check(set(table) == set(want), 'wrong singletons registered '
                      'after %s' % why, sorted(map(repr, table)),
                      sorted(map(repr, want)))
            for ident, obj in want.items():
                ctx.check(table[ident] is obj, 'another singleton took a '
                          'name after %s' % why, ident)
        for rec in self.known.values():
            obj = rec['obj']
            ctx.check(type(obj) is rec['kind'].cls, 'wrong class')
            for name in ('name', 'x', 'items'):
                ctx.check(getattr(obj, name) == rec[name], 'a singleton has '
                          'changed after %s' % why, name, rec[name],
                          getattr(obj, name))

    def ident(self, kind):
        rng = self.rng
        if rng.random() < 0.55 and self.known:
            return rng.choice(sorted(
                (r['ident'] for r in self.known.values()), key=repr))
        pool = ['a', 'b', 'A', 'long name', '\u00e9', '', 'abc']
        if kind.name is None:
            pool += [5, ('t', 1), 2.5]
        elif kind.name == 'num':
            pool += [5, 6, 7, 8]
        else:
            pool += [5]
        return rng.choice(pool)

    def values(self):
        """(keywords, model values, acceptable?)"""
        rng = self.rng
        kw, ok = {}, True
        if rng.random() < 0.5:
            kw['x'] = rng.choice([0, 3, 7, -1, 'text', 666])
            ok = kw['x'] in (0, 3, 7)
        if rng.random() < 0.3:
            kw['items'] = rng.choice([[1, 2], [], [3], ['bad']])
            ok = ok and kw['items'] != ['bad']
        return kw, dict(kw), ok

    def expect_found(self, rec, obj, why):
        ctx = self.ctx
        ctx.count('found')
        ctx.check(obj is rec['obj'], 'a second singleton was made by ' + why,
                  rec['ident'], obj)
        ctx.check(not EVENTS, 'finding a singleton notified listeners',
                  EVENTS)

    # ---- operations

    def construct(self):
        ctx, rng = self.ctx, self.rng
        kind = rng.choice(self.kinds)
        ident = self.ident(kind)
        kw, vals, ok = self.values()
        fine, stored = kind.coerce(ident)
        rec = self.find(kind, ident)
        unknown = rng.random() < 0.08
        if unknown:
            kw['nothing'] = 1
        ctx.note('construct', kind.cls_name, ident, kw)
        ctx.nontrivial('construct', kind.name, kind.cls_name, ident,
                       sorted(kw.items(), key=str), rec is not None)
        del EVENTS[:]
        try:
            if rng.random() < 0.5:
                obj = kind.cls(ident, **kw)
            else:
                obj = kind.cls(name=ident, **kw)
        except (ValueError, AttributeError) as err:
            ctx.check(rec is None, 'an existing singleton was refused', err)
            ctx.check(not (fine and ok) or unknown, 'a good singleton was '
                      'refused', ident, kw, err)
            ctx.count('failed_constructions')
            return self.verify('a failed construction')
        if rec:
            self.expect_found(rec, obj, 'constructing')
        else:
            ctx.check(fine and ok and not unknown, 'a bad singleton was '
                      'made', ident, kw)
            self.add(kind, ident, obj, stored, vals)
            ctx.count('made')
            if any(r['ident'] == ident and r['obj'] is not obj
                   for r in self.known.values()):
                ctx.count('same_name_other_registry')
        self.verify('construction')

    def change(self):
        ctx, rng = self.ctx, self.rng
        if not self.known:
            return
        rec = rng.choice(list(self.known.values()))
        obj, kind = rec['obj'], rec['kind']
        name = rng.choice(['name', 'name', 'x', 'items'])
        if name == 'name':
            val = rng.choice(['b', 'new', 'longer', 12, ''])
            fine, stored = kind.coerce(val)
        elif name == 'x':
            val = stored = rng.choice([2, 7, 9, -4, 666])
            fine = 0 <= val < 100
        else:
            val = stored = rng.choice([[7], [8, 9], ['q']])
            fine = val != ['q']
        ctx.note('change', rec['ident'], name, val)
        try:
            setattr(obj, name, val)
        except ValueError as err:
            ctx.check(not fine, 'a good value was refused', name, val, err)
            ctx.count('refused_changes')
        else:
            ctx.check(fine, 'a bad value was accepted', name, val)
            rec[name] = stored
            ctx.count('changes')
            if name == 'name':
                ctx.count('name_changes')
        self.verify('a change')

    def as_data(self, rec, include):
        data = {'_singleton_id': rec['ident'], 'x': rec['x'],
                'items': list(rec['items'])}
        if rec['kind'].name is not None:
            data['name'] = rec['name']
        for key, prop in rec['obj']._props.items():
            if key.startswith('y'):
                data[key] = 'why'
        if include:
            data['__class__'] = rec['kind'].cls_name
        return data

    def save(self):
        ctx, rng = self.ctx, self.rng
        if not self.known:
            return
        rec = rng.choice(list(self.known.values()))
        include = rng.random() < 0.8
        del EVENTS[:]
        data = rec['obj'].serialize(include_class=include)
        ctx.check(data == self.as_data(rec, include), 'a singleton '
                  'serializes wrongly', data, self.as_data(rec, include))
        ctx.check(not EVENTS, 'serializing notified listeners')
        if rec['kind'].name is not None and rec['name'] != rec['ident']:
            ctx.count('saved_renamed')
        if isinstance(rec['ident'], (str, int)):
            data = json.loads(json.dumps(data))
        self.saved.append((rec['kind'], data))
        ctx.count('saved')

    def forget(self):
        """As if saved data were loaded by another process"""
        rng = self.rng
        kind = rng.choice(self.kinds)
        for key in [k for k in self.known if k[0] == id(kind.table)]:
            if rng.random() < 0.6:
                del kind.table[key[1]]
                del self.known[key]

    def load(self):
        ctx, rng = self.ctx, self.rng
        if self.saved and rng.random() < 0.6:
            kind, data = rng.choice(self.saved)
            data = dict(data)
            if rng.random() < 0.2:
                kind = rng.choice(self.kinds)
            if rng.random() < 0.25:
                data.pop('_singleton_id')
        else:
            kind = rng.choice(self.kinds)
            data, _, _ = self.values()
            if rng.random() < 0.7:
                data['_singleton_id'] = self.ident(kind)
            if rng.random() < 0.7:
                data['name'] = self.ident(kind)
            if rng.random() < 0.3:
                data['__class__'] = rng.choice(
                    list(self.by_name) + ['Unknown'])
            if rng.random() < 0.1:
                data['extra'] = 5
        opts = {}
        for name in ('trusted', 'strict', 'assert_valid'):
            if rng.random() < 0.4:
                opts[name] = True
        self.deserialize(kind, data, opts)

    def target(self, kind, data, opts):
        """The class made, or None when refused"""
        named = data.get('__class__')
        if opts.get('trusted') and named in self.by_name:
            return self.by_name[named]
        if opts.get('strict') and named and named != kind.cls_name:
            return None
        return kind

    def deserialize(self, kind, data, opts, nested=False):
        ctx, rng = self.ctx, self.rng
        ident = data.get('_singleton_id', data.get('name'))
        if any(k.name == 'num' for k in self.kinds) and any(
                isinstance(v, (float, tuple)) for v in (
                    ident, data.get('name'))):
            return          # numbers may be read from these
        bad = ident is None
        rec = None
        stored = None
        out = kind
        if not bad:
            out = self.target(kind, data, opts)
            if out is None:
                bad = True
            else:
                rec = self.find(out, ident)
        if not bad and rec is None:
            fine, stored = out.coerce(ident)
            if fine and 'name' in data:
                fine, stored = out.coerce(data['name'])
            x = data.get('x', 1)
            bad = not fine or x in (-1, 'text') or \
                data.get('items') == ['bad']
            known = set(out.cls._props) | {'_singleton_id', '__class__',
                                           'name'}
            if opts.get('strict') and not set(data) <= known:
                bad = True
            if opts.get('assert_valid') and x in (7, 666):
                bad = True
        before = json.dumps(data, sort_keys=True, default=repr)
        ctx.note('deserialize', kind.cls_name, data, opts)
        ctx.nontrivial('deserialize', kind.name, kind.cls_name, before,
                       sorted(opts), rec is not None)
        del EVENTS[:]
        try:
            obj = kind.cls.deserialize(data, **opts)
        except (ValueError, TypeError) as err:
            ctx.check(bad, 'good singleton data was refused', data, opts,
                      err)
            ctx.check(isinstance(err, ValueError), 'wrong error', err)
            ctx.count('failed_loads')
            return self.verify('a failed deserialization')
        ctx.check(not bad, 'bad singleton data was accepted', data, opts)
        ctx.check(before == json.dumps(data, sort_keys=True, default=repr),
                  'deserializing changed its input')
        ctx.check(not EVENTS, 'deserializing notified listeners', EVENTS)
        if rec:
            self.expect_found(rec, obj, 'deserializing')
            ctx.count('found_loads')
        else:
            self.add(out, ident, obj, stored, {
                k: data[k] for k in ('x', 'items') if k in data})
            ctx.count('loads')
        self.verify('deserializing')

    def copies(self):
        ctx, rng = self.ctx, self.rng
        if not self.known:
            return
        rec = rng.choice(list(self.known.values()))
        del EVENTS[:]
        obj = p.copy(rec['obj'])
        ctx.count('copies')
        self.expect_found(rec, obj, 'copying')
        data = rec['obj'].serialize()
        obj = rec['kind'].cls.deserialize(data)
        self.expect_found(rec, obj, 'a round trip')
        self.verify('copying')

    def nested(self):
        ctx, rng = self.ctx, self.rng
        i = rng.randrange(len(self.kinds))
        kind = self.kinds[i]
        ident = self.ident(kind)
        kw, vals, ok = self.values()
        how = rng.choice(['data', 'arg', 'object'])
        if isinstance(ident, dict):
            return
        holder = self.holder()
        fine, stored = kind.coerce(ident)
        rec = self.find(kind, ident)
        del EVENTS[:]
        ctx.note('nested', how, kind.cls_name, ident, kw)
        ctx.nontrivial('nested', how, kind.name, kind.cls_name, ident,
                       rec is not None)
        ctx.count('nested')
        if how == 'object':
            if rec is None or not isinstance(rec['obj'], kind.cls):
                return
            setattr(holder, 's%d' % i, rec['obj'])
        else:
            val = dict(kw, name=ident) if how == 'data' else ident
            if how == 'arg':
                ok, vals = True, {}
            try:
                setattr(holder, 's%d' % i, val)
            except ValueError as err:
                other = rec and not isinstance(rec['obj'], kind.cls)
                ctx.check(other or rec is None and not (ok and fine),
                          'a good nested singleton was refused', val, err)
                ctx.count('refused_nesting')
                return self.verify('a failed nesting')
            obj = getattr(holder, 's%d' % i)
            if rec is None:
                ctx.check(ok and fine, 'a bad nested singleton was made')
                rec = self.add(kind, ident, obj, stored, vals)
                ctx.count('made')
            else:
                ctx.check(obj is rec['obj'], 'nesting made a second '
                          'singleton')
        if isinstance(rec['obj'], self.kinds[0].cls):
            holder.many = [rec['obj'], rec['obj']]
        twin = p.copy(holder)
        ctx.check(twin is not holder and getattr(twin, 's%d' % i) is
                  rec['obj'], 'copying a parent copied its singleton')
        if holder.many:
            ctx.check(all(v is rec['obj'] for v in twin.many), 'copying a '
                      'list copied its singletons')
        ctx.count('parent_copies')
        self.verify('nesting')

    def wrong(self):
        ctx, rng = self.ctx, self.rng
        kind = rng.choice(self.kinds)
        for bad in (None, 5, 'text', [], {}, {'x': 5}, {'name': None},
                    {'_singleton_id': None, 'x': 1}):
            try:
                kind.cls.deserialize(bad)
            except ValueError:
                ctx.count('refused_data')
            else:
                ctx.fail('nameless data was deserialized', bad)
        self.verify('refused data')


def run_case(ctx):
    rng = ctx.rng
    world = World(ctx, rng)
    for _ in range(30):
        roll = rng.random()
        if roll < 0.27:
            world.construct()
        elif roll < 0.42:
            world.change()
        elif roll < 0.52:
            world.save()
        elif roll < 0.57:
            world.forget()
        elif roll < 0.77:
            world.load()
        elif roll < 0.85:
            world.copies()
        elif roll < 0.98:
            world.nested()
        else:
            world.wrong()
