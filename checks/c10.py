"""C10: trust, strictness and assert_valid of deserialization"""
import copy
import itertools

import properties as p

RULE = ('A case builds a registry of related and unrelated classes (nested '
        'instances, lists, dictionaries, unions, a second registry) whose '
        'constructors are recorded, mutates serialized data (foreign, '
        'unregistered and missing class names, extra keys, attribute names '
        'as keys, invalid and missing values) and deserializes it under '
        'every trusted/strict/assert_valid combination against a model. '
        'Non-trivial: data carrying a class name or a fault.')
CASES = {'quick': 2000, 'thorough': 16000}
FLOORS = {'accepted': 14307, 'classes_constructed': 37183, 'deserialized':
          32000, 'extra_keys': 8984, 'foreign_names': 19184,
          'invalid_results_refused': 2398, 'rejected': 17664,
          'single_properties': 6386}

NAMES = ['Leaf', 'SubLeaf', 'Other', 'Holder', 'SubHolder', 'Alien',
         'Nowhere', '', None, 5, 'object', 'HasProperties', 'Top']
# names of attributes that are not properties
ATTRS = ['validate', '_backend', '_props', 'serialize', 'extra', 'bogus',
         '_error_hook', 'helper', '_listeners', '__init__', 'old name', '']


class Rej(Exception):
    pass


class World(object):
    def __init__(self, rng):
        self.made, self.fired = [], []
        self.muted = False
        self.reg = {}
        self.alien_reg = {}
        world = self

        def body(**extra):
            def init(self, **kwargs):
                world.made.append(type(self))
                super(extra['holder'][0], self).__init__(**kwargs)

            def seen(self, change):
                world.fired.append((type(self).__name__, change['mode']))

            def seen2(self, change):
                world.fired.append((type(self).__name__, change['mode']))

            def seen3(self, change):
                # validation itself legitimately calls validators
                if not world.validating:
                    world.fired.append((type(self).__name__,
                                        change['mode']))

            def validate(self):
                world.validating += 1
                try:
                    return super(extra['holder'][0], self).validate()
                finally:
                    world.validating -= 1

            def positive(self):
                return getattr(self, 'num', None) != 13
            return {'__init__': init, 'helper': 3, 'validate': validate,
                    'on_change': p.observer(p.everything, change_only=True)(
                        seen),
                    'on_set': p.observer(p.everything)(seen2),
                    'on_valid': p.validator(p.everything)(seen3),
                    'not_13': p.validator(positive)}
        self.validating = 0

        def make(name, bases, props, registry=None):
            holder = []
            ns = body(holder=holder)
            if registry is not None:
                ns['_REGISTRY'] = registry
            ns.update(props)
            cls = type(name, bases, ns)
            holder.append(cls)
            return cls
        req = rng.random() < 0.5
        hp = (p.HasProperties,)
        self.Leaf = make('Leaf', hp, {
            'num': p.Integer('n', required=req, min=0),
            'tag': p.String('t', required=False),
            'hidden': p.GettableProperty('constant', default=4)}, self.reg)
        self.SubLeaf = make('SubLeaf', (self.Leaf,), {
            'more': p.Float('m', required=False)})
        self.Other = make('Other', hp, {
            'size': p.Integer('n', required=False),
            'tag': p.String('t', required=False)}, self.reg)
        self.Alien = make('Alien', hp, {
            'num': p.Integer('n', required=False)}, self.alien_reg)
        self.strict_union = rng.random() < 0.5
        union = [self.Leaf, self.Other]
        rng.shuffle(union)
        self.union = union
        self.Holder = make('Holder', hp, {
            'leaf': p.Instance('l', self.Leaf, required=False),
            'many': p.List('l', self.Leaf, required=False),
            'row': p.Tuple('l', self.Leaf, required=False),
            'table': p.Dictionary(
                'd', key_prop=p.String(''),
                value_prop=p.Instance('', self.Leaf), required=False),
            'either': p.Union('u', union + [p.Integer('')], required=False,
                              strict_instances=self.strict_union),
            'num': p.Integer('n', required=False),
        }, self.reg)
        self.SubHolder = make('SubHolder', (self.Holder,), {
            'deep': p.Instance('h', self.Holder, required=False)})

    # ------------------------------------------------------------- model

    def is_leaf(self, cls):
        return issubclass(cls, self.Leaf)

    def desr(self, cls, data, trusted, strict, assert_valid=False):
        """Model value: (class, {prop: value})"""
        if not isinstance(data, dict):
            raise Rej
        name = data.get('__class__')
        registry = self.alien_reg if cls is self.Alien else self.reg
        if not name or name == cls.__name__:
            out = cls
        elif trusted and name in registry:
            out = registry[name]
        elif strict:
            raise Rej
        else:
            out = cls
        vals = {}
        props = out._props
        unused = [k for k in data if k not in props and k != '__class__']
        if unused and strict:
            raise Rej
        for key, val in data.items():
            if key in props:
                vals[key] = self.value(out, key, val, trusted, strict)
        vals = {k: v for k, v in vals.items() if v is not None}
        if issubclass(out, self.Leaf):
            vals.setdefault('hidden', 4)
        res = (out, vals)
        if assert_valid and not self.valid(res):
            raise Rej
        return res

    def value(self, cls, key, val, trusted, strict):
        if val is None:
            return None
        if key in ('num', 'size'):
            if not isinstance(val, int):
                raise Rej
            if val < 0 and key == 'num' and self.is_leaf(cls):
                raise Rej
            return int(val)
        if key == 'tag':
            if not isinstance(val, str):
                raise Rej
            return val
        if key == 'hidden':
            return val
        if key == 'more':
            if not isinstance(val, (int, float)):
                raise Rej
            return float(val)
        if key == 'leaf':
            return self.nested(self.Leaf, val, trusted, strict)
        if key == 'deep':
            return self.nested(self.Holder, val, trusted, strict)
        if key in ('many', 'row'):
            if not isinstance(val, list):
                raise Rej
            return [self.nested(self.Leaf, v, trusted, strict) for v in val]
        if key == 'table':
            if not isinstance(val, dict):
                raise Rej
            return {k: self.nested(self.Leaf, v, trusted, strict)
                    for k, v in val.items()}
        assert key == 'either'
        strict = strict or self.strict_union
        if isinstance(val, dict) and val.get('__class__'):
            for part in self.union:
                if part.__name__ == val['__class__']:
                    return self.desr(part, val, trusted, strict,
                                     self.strict_union)
        for part in self.union:
            try:
                out = self.desr(part, val, trusted, strict,
                                self.strict_union)
            except Rej:
                continue
            if issubclass(out[0], part):
                return out
        if isinstance(val, int):
            return int(val)
        raise Rej

    def nested(self, cls, val, trusted, strict):
        if val is None:
            # None is no instance: Instance refuses to build from it
            raise Rej
        out = self.desr(cls, val, trusted, strict)
        if not issubclass(out[0], cls):
            raise Rej
        return out

    def valid(self, res):
        cls, vals = res
        if vals.get('num') == 13:
            return False
        for prop in cls._props.values():
            if getattr(prop, 'required', False) and prop.name not in vals:
                return False
        for val in vals.values():
            for part in (val if isinstance(val, list) else
                         val.values() if isinstance(val, dict) else [val]):
                if isinstance(part, tuple) and not self.valid(part):
                    return False
        return True

    def allowed(self, cls, out):
        """Classes an untrusted deserialization may construct"""
        if cls in (self.Leaf, self.SubLeaf, self.Other, self.Alien):
            out.add(cls)
            return out
        out.update([cls, self.Leaf, self.Other])
        if cls is self.SubHolder:
            out.add(self.Holder)
        return out

    # --------------------------------------------------------- generation

    def leaf(self, rng, depth=0):
        out = {}
        if rng.random() < 0.85:
            out['num'] = rng.choice([0, 3, 13, 7, 7, 7])
        if rng.random() < 0.4:
            out['tag'] = rng.choice(['a', ''])
        if rng.random() < 0.2:
            out['hidden'] = rng.choice([4, 9])
        return out

    def any(self, rng, depth=0):
        roll = rng.random()
        if roll < 0.5:
            out = self.leaf(rng)
            if rng.random() < 0.2:
                out['more'] = 1.5
        elif roll < 0.7:
            out = {'size': 3}
        else:
            out = self.holder(rng, depth + 1)
        return self.mutate(rng, out)

    def holder(self, rng, depth=0):
        out = {}
        if rng.random() < 0.5:
            out['leaf'] = self.mutate(rng, self.leaf(rng))
        if rng.random() < 0.3:
            out['many'] = [self.mutate(rng, self.leaf(rng))
                           for _ in range(rng.randint(0, 2))]
        if rng.random() < 0.2:
            out['row'] = [self.mutate(rng, self.leaf(rng))]
        if rng.random() < 0.2:
            out['table'] = {'k': self.mutate(rng, self.leaf(rng))}
        if rng.random() < 0.5:
            out['either'] = rng.choice([
                lambda: self.mutate(rng, self.leaf(rng)),
                lambda: self.mutate(rng, {'size': 2}),
                lambda: self.mutate(rng, {'tag': 'x'}),
                lambda: 5])()
        if rng.random() < 0.3:
            out['num'] = rng.choice([1, 13])
        if depth < 2 and rng.random() < 0.3:
            out['deep'] = self.mutate(rng, self.holder(rng, depth + 1))
        return out

    def mutate(self, rng, data):
        if rng.random() < 0.4:
            data['__class__'] = rng.choice(NAMES)
        if rng.random() < 0.12:
            data[rng.choice(ATTRS)] = rng.choice([1, 'x', {}, None])
        if rng.random() < 0.04:
            data['num'] = rng.choice([-1, 'bad', 13])
        if rng.random() < 0.02:
            return rng.choice([5, 'text', [data], True])
        return data


def same(world, act, exp):
    if isinstance(exp, tuple):
        cls, vals = exp
        if type(act) is not cls:
            return False
        return all(same(world, getattr(act, key), vals.get(key))
                   for key in cls._props)
    if isinstance(exp, list):
        return isinstance(act, (list, tuple)) and len(act) == len(exp) and \
            all(same(world, a, e) for a, e in zip(act, exp))
    if isinstance(exp, dict):
        return isinstance(act, dict) and set(act) == set(exp) and \
            all(same(world, act[k], exp[k]) for k in exp)
    return type(act) is type(exp) and act == exp


def clean(act, cls_by_props):
    """No attribute of a built instance was set from the data"""
    out = []
    for name in ('validate', 'serialize', 'helper', 'extra', 'bogus'):
        if name in act.__dict__:
            out.append(name)
    if not isinstance(act._props, dict):
        out.append('_props')
    return out


def facts(data):
    """(class names, number of extra-ish keys) anywhere in the data"""
    if isinstance(data, dict):
        names = [data['__class__']] if data.get('__class__') else []
        extra = sum(1 for k in data if k in ATTRS)
        for v in data.values():
            n, e = facts(v)
            names += n
            extra += e
        return names, extra
    if isinstance(data, list):
        parts = [facts(v) for v in data]
        return [n for p_ in parts for n in p_[0]], sum(p_[1] for p_ in parts)
    return [], 0


def single_property(ctx, rng, world):
    """One property deserializes a value; untrusted unless told otherwise"""
    cls = rng.choice([world.Holder, world.SubHolder])
    data = {k: v for k, v in world.holder(rng).items() if k in cls._props}
    for key, val in sorted(data.items()):
        prop = cls._props[key]
        options = rng.choice([{}, {}, {'trusted': False}, {'trusted': True},
                              {'strict': True}, {'strict': False}])
        ctx.note(cls.__name__, key, val, options)
        ctx.count('single_properties')
        where = (cls.__name__, key, val, options)
        names = facts(val)[0]
        if names:
            ctx.nontrivial('single', key, val, options)
        try:
            exp = world.value(cls, key, val, options.get('trusted', False),
                              options.get('strict', False))
        except Rej:
            exp = Rej
        del world.made[:]
        del world.fired[:]
        try:
            act = prop.deserialize(val, **options)
        except (ValueError, TypeError) as err:
            # what is not a list or a dictionary need not be reported well
            ctx.check(exp is Rej, 'a property rejected valid data',
                      *(where + (exp, err)))
        else:
            ctx.check(exp is Rej or same(world, act, exp), 'a property '
                      'deserialized something else', *(where + (act, exp)))
        if not options.get('trusted', False):
            bad = set(world.made) - world.allowed(cls, set())
            ctx.check(not bad, 'untrusted data chose a class',
                      *(where + (bad,)))
        ctx.check(not world.fired, 'listeners fired while deserializing',
                  *(where + (world.fired,)))


def run_case(ctx):
    rng = ctx.rng
    world = World(rng)
    for _ in range(3):
        single_property(ctx, rng, world)
    run_whole(ctx, rng, world)


def run_whole(ctx, rng, world):
    classes = [world.Leaf, world.SubLeaf, world.Other, world.Holder,
               world.SubHolder, world.Holder, world.SubHolder, world.Alien]
    for _ in range(4):
        cls = rng.choice(classes)
        data = world.any(rng) if rng.random() < 0.3 else world.mutate(
            rng, world.holder(rng))
        snap = copy.deepcopy(data)
        names, extra = facts(data)
        ctx.note(cls.__name__, data)
        for trusted, strict, valid in itertools.product(
                (False, True), repeat=3):
            ctx.count('deserialized')
            if names:
                ctx.count('foreign_names')
            if extra:
                ctx.count('extra_keys')
            del world.made[:]
            del world.fired[:]
            try:
                exp = world.desr(cls, data, trusted, strict)
            except Rej:
                exp = Rej
            if exp is not Rej and valid and not world.valid(exp):
                ctx.count('invalid_results_refused')
                exp = Rej
            if names or extra or exp is Rej:
                ctx.nontrivial(cls.__name__, data, trusted, strict, valid)
            where = (cls.__name__, data, 'trusted=%s strict=%s '
                     'assert_valid=%s' % (trusted, strict, valid))
            options = {k: v for k, v in [
                ('trusted', trusted), ('strict', strict),
                ('assert_valid', valid)] if v or rng.random() < 0.5}
            try:
                act = cls.deserialize(data, **options)
            except ValueError as err:
                ctx.count('rejected')
                ctx.check(exp is Rej, 'valid data was rejected', *(
                    where + (exp, err)))
                act = None
            except (KeyError, TypeError, AttributeError) as err:
                ctx.fail('rejected with %s, not a ValueError: %s' % (
                    type(err).__name__, err), *where)
            else:
                ctx.count('accepted')
                ctx.check(exp is not Rej, 'data was accepted that must be '
                          'rejected', *(where + (act.serialize(),)))
                ctx.check(same(world, act, exp), 'wrong object built',
                          *(where + (exp, act.serialize())))
                ctx.check(not clean(act, None), 'attributes were set from '
                          'the data', *(where + (clean(act, None),)))
                if valid:
                    ctx.check(act.validate() is True, 'invalid', *where)
            ctx.count('classes_constructed', len(world.made))
            if not trusted:
                bad = set(world.made) - world.allowed(cls, set())
                ctx.check(not bad, 'untrusted data chose a class',
                          *(where + (bad,)))
            else:
                wrong = [c for c in world.made if c not in
                         list(world.reg.values()) + [world.Alien]]
                ctx.check(not wrong, 'unregistered class constructed',
                          *(where + (wrong,)))
            modes = set(world.fired)
            ctx.check(not [m for m in modes], 'listeners fired while '
                      'deserializing', *(where + (modes,)))
            ctx.check(data == snap, 'input data was changed',
                      *(where + (snap,)))
            if act is not None:
                # listeners work again afterwards
                act.tag = 'set' if 'tag' in act._props else None
                if 'tag' in act._props:
                    ctx.check(len(world.fired) == 3,
                              'listeners do not fire after deserializing',
                              *(where + (world.fired,)))
