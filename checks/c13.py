"""C13: declarations in force follow the method resolution order"""
import properties as p

RULE = ('A case builds a random graph of classes (diamonds, several bases, '
        'plain mixins) which declare, redeclare and remove properties, '
        'observers and validators of the same names, then compares what is '
        'in force on every class, by identity and by behaviour of its '
        'instances, with a plain attribute lookup through its method '
        'resolution order; it also tries invalid declarations and follows '
        'the registries. Non-trivial: a class with more than one ancestor '
        'defining the same name.')
CASES = {'quick': 3000, 'thorough': 24000}
FLOORS = {'classes': 6956, 'instances_exercised': 6956, 'mixin_overrides': 394,
          'multiple_bases': 2157, 'redefined': 17776, 'refused': 3000,
          'registries': 2873, 'removed': 4195}

NAMES = ['aa', 'bb', 'cc', 'dd', 'ee', 'ff']


class Own(object):
    def __init__(self, kind, **info):
        self.kind = kind
        self.__dict__.update(info)

    def __repr__(self):
        return self.kind


class Family(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.log = []
        self.own = {}           # class -> {name: Own}
        self.plain_cls = []
        self.classes = []
        self.registry = {}
        self.regs = {}          # id(registry) -> {name: cls}
        self.serial = 0

    def lookup(self, mro, name):
        for cls in mro:
            if name in self.own.get(cls, {}):
                return self.own[cls][name], cls
        return None, None

    def in_force(self, mro, kinds):
        out = {}
        for name in NAMES:
            own, _ = self.lookup(mro, name)
            if own is not None and own.kind in kinds:
                out[name] = own
        return out

    # -------------------------------------------------------- declarations

    def draw(self, known):
        rng, log = self.rng, self.log
        self.serial += 1
        tag = self.serial
        kind = rng.choice(['prop', 'prop', 'prop', 'prop', 'const', 'obs',
                           'obs', 'val', 'plain', 'plain', 'renamed',
                           'dynamic', 'method'])
        if kind == 'prop':
            obj = p.Integer('p%d' % tag, min=tag, required=False)
        elif kind == 'const':
            obj = p.GettableProperty('c%d' % tag, default=tag)
        elif kind == 'renamed':
            if not known:
                return self.draw(known)
            obj = p.Renamed(rng.choice(known), warn=False)
        elif kind == 'dynamic':
            obj = None      # needs its name
        elif kind == 'obs':
            names = p.everything if rng.random() < 0.4 or not known else \
                rng.sample(known, rng.randint(1, len(known)))
            mode = rng.choice(['set', 'change', 'valid'])

            def seen(self, change):
                log.append((tag, id(self), change['name']))
            obj = p.validator(names)(seen) if mode == 'valid' else \
                p.observer(names, change_only=mode == 'change')(seen)
            return Own('obs', tag=tag, obj=obj, names=names)
        elif kind == 'val':
            def check(self):
                log.append((tag, id(self), None))
            obj = p.validator(check)
        elif kind == 'method':
            def method(self, *args):
                log.append((tag, id(self), 'method'))
                return tag
            obj = method
            kind = 'plain'
        else:
            obj = rng.choice([tag, None, 'text', [], True])
        return Own(kind, tag=tag, obj=obj)

    def make_class(self):
        ctx, rng = self.ctx, self.rng
        if rng.random() < 0.15:
            own = {n: Own('plain', tag=None, obj=rng.choice(['mix', None]))
                   for n in rng.sample(NAMES, rng.randint(1, 2))}
            bases = tuple(rng.sample(self.plain_cls, 1)) \
                if self.plain_cls and rng.random() < 0.3 else (object,)
            cls = type('Mixin', bases, {n: o.obj for n, o in own.items()})
            self.own[cls] = own
            self.plain_cls.append(cls)
            return
        pool = self.classes
        bases = [p.HasProperties]
        if pool:
            bases = rng.sample(pool, min(len(pool),
                                         rng.choice([1, 1, 2, 2, 3])))
        if self.plain_cls and rng.random() < 0.35:
            bases.insert(rng.randint(0, len(bases)),
                         rng.choice(self.plain_cls))
        try:
            probe = type('Probe', tuple(bases), {})
        except TypeError:
            return                    # no consistent resolution order
        mro = probe.__mro__[1:]
        self.forget(probe)
        # declarations may refer to what will be in force
        own, ns = {}, {}
        names = rng.sample(NAMES, rng.randint(0, 4))
        plan = {}
        mutable = set(self.in_force(mro, ('prop',)))
        every = set(self.in_force(mro, ('prop', 'const', 'dynamic')))
        later = []
        for name in names:
            decl = self.draw([])
            plan[name] = decl
            mutable.discard(name)
            every.discard(name)
            if decl.kind == 'prop':
                mutable.add(name)
                every.add(name)
            elif decl.kind in ('const', 'dynamic'):
                every.add(name)
        for name, decl in plan.items():
            if decl.kind == 'obs' and decl.names is p.everything and \
                    mutable and rng.random() < 0.6:
                known = sorted(mutable)
                fresh = self.draw(known)
                while fresh.kind != 'obs':
                    fresh = self.draw(known)
                decl = plan[name] = fresh
            if decl.kind == 'plain' and every and rng.random() < 0.15:
                target = rng.choice(sorted(every - {name}) or [None])
                if target:
                    decl = plan[name] = Own(
                        'renamed', tag=decl.tag,
                        obj=p.Renamed(target, warn=False))
            if decl.kind == 'dynamic':
                tag = decl.tag

                def getter(self, tag=None):
                    return 5
                getter = eval('lambda self: %d' % tag)
                getter.__name__ = name
                decl.obj = p.Integer('d%d' % tag)(getter)
            own[name] = decl
            later.append(name)
            ns[name] = decl.obj
        if rng.random() < 0.25:
            ns['_REGISTRY'] = {}
        elif not pool:
            ns['_REGISTRY'] = self.registry
        name = 'Kind%d' % rng.choice([0, 1, 2, 3, 4, 5, 6, 7])
        parents = [b for b in self.classes]
        snaps = [self.snapshot(b) for b in parents]
        ctx.note(name, [b.__name__ for b in bases], own)
        cls = type(name, tuple(bases), ns)
        ctx.count('classes')
        if len(bases) > 1:
            ctx.count('multiple_bases')
        ctx.check([self.snapshot(b) for b in parents] == snaps,
                  'creating a child changed a parent', cls.__mro__)
        self.own[cls] = own
        self.classes.append(cls)
        self.check_registry(cls, name, ns.get('_REGISTRY'))
        self.check_class(cls)

    def forget(self, probe):
        reg = probe.__dict__.get('_REGISTRY') or probe._REGISTRY
        reg.pop('Probe', None)

    def snapshot(self, cls):
        return ([(k, id(v)) for k, v in cls._props.items()],
                sorted(cls._prop_observers), sorted(cls._class_validators),
                dict(cls._defaults), cls.__doc__, cls._doc_private
                if hasattr(cls, '_doc_private') else None,
                sorted(cls.__dict__), [v.name for v in cls._props.values()])

    # -------------------------------------------------------------- oracle

    def check_registry(self, cls, name, declared):
        ctx = self.ctx
        if declared is not None:
            reg = declared
            self.regs.setdefault(id(reg), (reg, {}))
            ctx.count('registries')
        else:
            for base in cls.__mro__:
                if '_REGISTRY' in base.__dict__:
                    reg = base.__dict__['_REGISTRY']
                    break
        table = self.regs.setdefault(id(reg), (reg, {}))[1]
        table[name] = cls
        ctx.check(cls._REGISTRY is reg, 'wrong registry', cls.__mro__)
        for _, (have, want) in self.regs.items():
            ctx.check({k: v for k, v in have.items() if k != 'Probe'} == want,
                      'registry contents are wrong', sorted(have),
                      sorted(want))

    def check_class(self, cls):
        ctx = self.ctx
        mro = cls.__mro__
        props = self.in_force(mro, ('prop', 'const', 'renamed', 'dynamic'))
        multi = [n for n in NAMES if sum(
            n in self.own.get(b, {}) for b in mro) > 1]
        where = [(b.__name__, self.own.get(b)) for b in mro[:-2]]
        if multi:
            ctx.nontrivial(where)
        ctx.check({k: id(v) for k, v in cls._props.items()} ==
                  {k: id(v.obj) for k, v in props.items()},
                  'properties in force are not those the method resolution '
                  'order finds', sorted(cls._props), sorted(props), where)
        for name in NAMES:
            own, owner = self.lookup(mro, name)
            depth = sum(name in self.own.get(b, {}) for b in mro)
            if depth > 1:
                ctx.count('redefined')
            if own is None:
                ctx.check(not hasattr(cls, name), 'unknown name', name)
            elif own.kind == 'plain':
                if depth > 1:
                    ctx.count('removed')
                if owner in self.plain_cls and depth > 1:
                    ctx.count('mixin_overrides')
                ctx.check(getattr(cls, name) is own.obj,
                          'plain attribute lost', name, where)
        for attr, kind in (('_prop_observers', 'obs'),
                           ('_class_validators', 'val')):
            have = set(getattr(cls, attr)) - {'_validate_props'}
            want = set(self.in_force(mro, (kind,)))
            ctx.check(have == want, '%s in force are wrong' % attr, have,
                      want, where)

    def exercise(self, cls):
        """The declarations in force, seen through an instance"""
        ctx, log, mro = self.ctx, self.log, cls.__mro__
        props = self.in_force(mro, ('prop', 'const', 'renamed', 'dynamic'))
        observers = self.in_force(mro, ('obs',))
        del log[:]
        obj = cls()
        ctx.count('instances_exercised')
        ctx.check(not log, 'construction called listeners', log)
        for name, own in props.items():
            if own.kind == 'const':
                ctx.check(getattr(obj, name) == own.tag,
                          'wrong constant', name, getattr(obj, name))
                try:
                    setattr(obj, name, 1)
                except AttributeError:
                    continue
                ctx.fail('constant was set', name)
            if own.kind == 'dynamic':
                ctx.check(getattr(obj, name) == own.tag, 'wrong dynamic',
                          name)
                continue
            if own.kind == 'renamed':
                target = own.obj.new_name
                tgt, _ = self.lookup(mro, target)
                if tgt is not None and tgt.kind in ('prop', 'const'):
                    ctx.check(getattr(obj, name) == getattr(obj, target),
                              'renamed property misses its target', name)
                continue
            try:
                setattr(obj, name, own.tag - 1)
            except ValueError:
                pass
            else:
                ctx.fail('another declaration of %s is in force' % name,
                         own.tag)
            del log[:]
            setattr(obj, name, own.tag)
            want = sorted((o.tag, id(obj), name) for o in observers.values()
                          if o.names is p.everything or name in o.names)
            ctx.check(sorted(log, key=repr) == sorted(want, key=repr),
                      'wrong listeners called', name, log, want)
            ctx.check(getattr(obj, name) == own.tag, 'value lost', name)
        del log[:]
        obj.validate()
        want = sorted(o.tag for o in self.in_force(mro, ('val',)).values())
        got = sorted(e[0] for e in log if e[2] is None)
        ctx.check(got == want, 'wrong class validators called', got, want)

    # --------------------------------------------------- bad declarations

    def bad_class(self):
        ctx, rng = self.ctx, self.rng
        base = rng.choice(self.classes)
        mro = base.__mro__
        mutable = self.in_force(mro, ('prop',))
        fixed = self.in_force(mro, ('const', 'dynamic', 'renamed'))
        gone = [n for n in NAMES if n not in
                self.in_force(mro, ('prop', 'const', 'dynamic', 'renamed'))]

        def func(self, change):
            pass
        choices = [
            ({'zz': p.observer('no_such')(func)}, TypeError),
            ({'zz': p.validator(['no_such'])(func)}, TypeError),
            ({'zz': p.Renamed('no_such')}, TypeError),
            ({'_defaults': {'no_such': 1}}, AttributeError),
            ({'_doc_order': 5}, AttributeError),
            ({'_doc_order': ['no_such']}, AttributeError),
            # all the names, but in no order that is a list
            ({'_doc_order': rng.choice([set, dict.fromkeys, frozenset, iter])(
                sorted(base._props))}, AttributeError),
            ({'_doc_private': 'yes'}, AttributeError),
            ({'zz': p.Integer(''), 'yy': p.observer(['zz', 'no'])(func)},
             TypeError),
        ]
        if gone:
            choices.append(({'zz': p.observer(gone[0])(func)}, TypeError))
            choices.append(({'zz': p.Renamed(gone[0])}, TypeError))
            choices.append(({'_defaults': {gone[0]: 1}}, AttributeError))
        if mutable:
            name = rng.choice(sorted(mutable))
            choices += [
                ({'_defaults': {name: 'not a number'}}, AttributeError),
                ({'_defaults': {name: mutable[name].tag - 1}},
                 AttributeError),
                ({'_defaults': {name: lambda: 'bad'}}, AttributeError),
                # removed by this very class
                ({name: 5, 'zz': p.observer(name)(func)}, TypeError),
                ({name: None, 'zz': p.Renamed(name)}, TypeError),
                ({name: None, '_defaults': {name: mutable[name].tag}},
                 AttributeError),
                ({'_doc_order': [n for n in sorted(base._props)
                                 if n != name]}, AttributeError),
                ({'_doc_order': sorted(base._props) + [name]},
                 AttributeError),
            ]
        if fixed:
            name = rng.choice(sorted(fixed))
            choices.append(({'zz': p.observer(name)(func)}, TypeError))
        ns, error = rng.choice(choices)
        snaps = [self.snapshot(b) for b in self.classes]
        regs = {k: dict(r[0]) for k, r in self.regs.items()}
        ctx.count('refused')
        ctx.note('bad', ns, base._props)
        try:
            type('Refused', (base,), dict(ns))
        except error:
            pass
        else:
            ctx.fail('invalid declaration was accepted', ns, base._props)
        ctx.check([self.snapshot(b) for b in self.classes] == snaps,
                  'a refused class changed its parents', ns)
        ctx.check({k: dict(r[0]) for k, r in self.regs.items()} == regs,
                  'a refused class was registered', ns)


def run_case(ctx):
    fam = Family(ctx, ctx.rng)
    fam.regs[id(fam.registry)] = (fam.registry, {})
    for _ in range(ctx.rng.randint(4, 10)):
        fam.make_class()
    if not fam.classes:
        return
    for cls in fam.classes:
        fam.check_class(cls)
        fam.exercise(cls)
    for _ in range(2):
        fam.bad_class()
