"""C14: generated class documentation"""
import re

import properties as p

RULE = ('A case builds a random graph of classes (several bases, diamonds, '
        'plain mixins) declaring, redeclaring and removing public and private '
        'properties of every kind with documentation order and privacy '
        'options, parses the generated documentation of each class and '
        'compares the parsed entries with a model; own order and privacy '
        'options that do not fit must be refused. Non-trivial: documentation '
        'with at least two groups or a non-alphabetical order.')
CASES = {'quick': 6000, 'thorough': 48000}
FLOORS = {'classes': 11593, 'entries': 33655, 'multiple_bases': 2682,
          'orders_dropped': 1478, 'orders_inherited': 342, 'orders_own': 4059,
          'privates_hidden': 8304, 'privates_listed': 4095, 'refused': 3456,
          'removed': 3469}

PUBLIC = ['alpha', 'beta', 'Gamma', 'delta', 'z9', 'A', 'b_c']
PRIVATE = ['_alpha', '_x', '__twice']
HEADS = ['Required', 'Optional', 'Other', 'Private']


class Leaf(p.HasProperties):
    _REGISTRY = {}


class Plain(object):
    pass


class Decl(object):
    def __init__(self, prop, group, doc, info, default):
        self.prop, self.group, self.doc = prop, group, doc
        self.info, self.default = info, default


class Custom(p.Integer):
    class_info = 'a custom kind'


def make_prop(rng, serial, known):
    doc = rng.choice(['text %d', 'see **bold** %d', '%d: a, b; c', '%d',
                      'unicode \xe9 %d', 'curly {x} {} %d', '%d * star'])
    doc = doc.replace('%d', str(serial))
    required = rng.random() < 0.5
    kw = {'required': required}
    group = 'Required' if required else 'Optional'
    info = default = None
    kind = rng.choice(['int', 'int', 'bounded', 'str', 'bool', 'list', 'inst',
                       'union', 'const', 'uuid', 'dynamic', 'renamed',
                       'custom', 'choice', 'color', 'dict', 'array', 'call'])
    if kind == 'int':
        if rng.random() < 0.5:
            kw['default'] = rng.choice([0, serial])
            default = str(kw['default'])
        prop = p.Integer(doc, **kw)
        info = 'an integer'
    elif kind == 'bounded':
        prop = p.Float(doc, min=serial, max=serial + 1, **kw)
        info = 'a float in range [%s, %s]' % (serial, serial + 1)
    elif kind == 'str':
        if rng.random() < 0.5:
            kw['default'] = rng.choice(['', 'word', 'w', '0', ' ', 'two words'])
            default = kw['default'] or None
        prop = p.String(doc, **kw)
        info = 'a unicode string'
    elif kind == 'bool':
        if rng.random() < 0.5:
            kw['default'] = rng.random() < 0.5
            default = str(kw['default'])
        prop = p.Boolean(doc, **kw)
        info = 'a boolean'
    elif kind == 'list':
        if rng.random() < 0.5:
            kw['default'] = list
        prop = p.List(doc, rng.choice([p.Integer(''), p.String('')]), **kw)
        if rng.random() < 0.5:
            many = [serial] * rng.randint(1, 3)
            prop = p.List(doc, p.Integer(''), required=required,
                          default=rng.choice([many, lambda: list(many)]))
            default = 'new instance of list' if callable(prop.default) \
                else str(many)
    elif kind == 'dict':
        prop = p.Dictionary(doc, **kw)
    elif kind == 'inst':
        prop = p.Instance(doc, Leaf, **kw)
        info = 'Leaf'
    elif kind == 'union':
        prop = p.Union(doc, [p.Integer(''), Leaf], **kw)
    elif kind == 'choice':
        prop = p.StringChoice(doc, ['one', 'two'], **kw)
    elif kind == 'color':
        prop = p.Color(doc, **kw)
    elif kind == 'array':
        prop = p.Array(doc, **kw)
    elif kind == 'call':
        kw['default'] = lambda: serial
        prop = p.Integer(doc, **kw)
        default = 'new instance of int'
    elif kind == 'custom':
        prop = Custom(doc, **kw)
        info = 'a custom kind'
    elif kind == 'const':
        prop, group = p.GettableProperty(doc, default=serial), 'Other'
    elif kind == 'uuid':
        prop, group = p.Uuid(doc), 'Other'
    elif kind == 'dynamic':
        prop, group = p.Integer(doc)(lambda self: serial), 'Other'
    else:
        if not known:
            return make_prop(rng, serial, known)
        prop, group = p.Renamed(rng.choice(known), warn=False), 'Other'
        if rng.random() < 0.5:
            prop.doc = doc
        else:
            doc = None
    return Decl(prop, group, doc, info, default)


ENTRY = re.compile(r'^\* \*\*([^*]+)\*\*(.*)$')


def parse(ctx, text, author):
    """[(group, [(name, rest)])] of a generated documentation text"""
    ctx.check(text.startswith(author), 'documentation does not start with '
              "the author's text", text, author)
    groups = []
    for line in text[len(author):].split('\n'):
        head = re.match(r'^\*\*(\w+) Properties:\*\*$', line)
        if head:
            groups.append((head.group(1), []))
            continue
        if not line.strip():
            continue
        entry = ENTRY.match(line)
        ctx.check(entry and groups, 'unexpected documentation line', line,
                  text)
        groups[-1][1].append((entry.group(1), entry.group(2)))
    return groups


def lookup(mro, own, name):
    for cls in mro:
        if name in own.get(cls, {}):
            return own[cls][name]
    return None


def attribute(mro, options, name, default):
    for cls in mro:
        if name in options.get(cls, {}):
            return options[cls][name], cls
    return default, None


def run_case(ctx):
    rng = ctx.rng
    own, options, classes, mixins = {}, {}, [], []
    registry = {}
    serial = rng.randint(1, 50)
    for i in range(rng.randint(3, 7)):
        if rng.random() < 0.12:
            ns = {}
            if rng.random() < 0.6:
                ns['_doc_private'] = rng.random() < 0.5
            if rng.random() < 0.5:
                cls = type('Mixin', (object,), dict(
                    ns, __doc__='Mixin text\n\n**Required Properties:**\n\n'
                    '* **zzz**: not a property'))
            else:
                cls = type('Mixin', (object,), dict(ns))
            options[cls] = ns
            own[cls] = {}
            mixins.append(cls)
            continue
        bases = [p.HasProperties]
        if classes and rng.random() < 0.8:
            bases = rng.sample(classes, min(len(classes),
                                            rng.choice([1, 1, 2, 2, 3])))
        if mixins and rng.random() < 0.4:
            bases.insert(rng.randint(0, len(bases)), rng.choice(mixins))
        try:
            probe = type('Probe', tuple(bases), {'_REGISTRY': {}})
        except TypeError:
            continue
        except AttributeError:
            ctx.fail('a class with nothing of its own was refused',
                     [b.__name__ for b in bases])
        mro = probe.__mro__[1:]
        mine = {}
        known = sorted(n for n in PUBLIC + PRIVATE
                       if lookup(mro, own, n) is not None and
                       lookup(mro, own, n).group in ('Required', 'Optional'))
        for name in rng.sample(PUBLIC + PRIVATE, rng.randint(0, 5)):
            serial += 1
            if rng.random() < 0.12:
                mine[name] = None
                ctx.count('removed')
            else:
                mine[name] = make_prop(rng, serial, [])
        targets = [n for n in known if n not in mine]
        if targets and rng.random() < 0.2:
            name = rng.choice([n for n in PUBLIC if n not in targets] or
                              [None])
            if name and not any(
                    d is not None and d.group == 'Other' for d in [
                        mine.get(name)]):
                decl = make_prop(rng, serial, targets)
                while not isinstance(decl.prop, p.Renamed):
                    decl = make_prop(rng, serial, targets)
                mine[name] = decl
        opts = {}
        if rng.random() < 0.3:
            opts['_doc_private'] = rng.random() < 0.6
        own_model = dict(own)
        own_model['new'] = mine
        opt_model = dict(options)
        opt_model['new'] = opts
        chain = ('new',) + tuple(mro)
        # a renamed property's target may be removed by this very class
        skip = False
        for name in PUBLIC + PRIVATE:
            decl = lookup(chain, own_model, name)
            if decl is not None and isinstance(decl.prop, p.Renamed) and \
                    name in mine and lookup(chain, own_model,
                                            decl.prop.new_name) is None:
                skip = True
        if skip:
            continue
        private = attribute(chain, opt_model, '_doc_private', False)[0]
        present = {n: lookup(chain, own_model, n)
                   for n in PUBLIC + PRIVATE
                   if lookup(chain, own_model, n) is not None}
        documented = sorted(n for n in present
                            if private or not n.startswith('_'))
        roll = rng.random()
        if roll < 0.35:
            opts['_doc_order'] = rng.sample(documented, len(documented))
            if rng.random() < 0.3:
                opts['_doc_order'] = tuple(opts['_doc_order'])
        elif roll < 0.4:
            opts['_doc_order'] = None
        author = rng.choice(['', 'Author text', 'Two\n\nparagraphs\n',
                             'with **bold** and * star'])
        cls = build(ctx, rng, 'Kind%d' % i, bases, mine, opts, author,
                    registry, documented, present)
        own[cls], options[cls] = mine, opts
        classes.append(cls)
        ctx.count('classes')
        if len(bases) > 1:
            ctx.count('multiple_bases')
        order, owner = attribute(chain, opt_model, '_doc_order', None)
        if owner == 'new' and order is not None:
            ctx.count('orders_own')
        elif order is not None:
            if sorted(order) == documented:
                ctx.count('orders_inherited')
            else:
                ctx.count('orders_dropped')
                order = None
        if order is None:
            order = documented
        verify(ctx, cls, author, list(order), present, private, documented)


def namespace(mine, opts, author, registry):
    ns = {n: (d.prop if d is not None else None) for n, d in mine.items()}
    ns.update(opts)
    ns['_REGISTRY'] = registry
    if author:
        ns['__doc__'] = author
    return ns


def build(ctx, rng, name, bases, mine, opts, author, registry, documented,
          present):
    """The class, after trying options which must be refused"""
    for _ in range(rng.choice([0, 0, 1])):
        wrong = dict(opts)
        kind = rng.choice(['missing', 'extra', 'twice', 'number', 'text',
                           'flag', 'flag2', 'swap'])
        if kind == 'missing' and documented:
            wrong['_doc_order'] = documented[:-1]
        elif kind == 'extra':
            wrong['_doc_order'] = documented + ['no_such']
        elif kind == 'twice' and documented:
            wrong['_doc_order'] = documented + documented[:1]
        elif kind == 'number':
            wrong['_doc_order'] = rng.choice([
                5, 0, True, 1.5, set(documented), dict.fromkeys(documented),
                iter(documented)])
        elif kind == 'text':
            wrong['_doc_order'] = ''.join(documented)
        elif kind == 'swap' and documented:
            wrong['_doc_order'] = documented[1:] + ['no_such']
        elif kind == 'flag':
            wrong['_doc_private'] = rng.choice([0, 1, 'yes', None])
        else:
            hidden = sorted(n for n in present if n.startswith('_') and
                            n not in documented)
            if not hidden:
                continue
            wrong['_doc_order'] = documented + hidden
        try:
            type('Refused', tuple(bases), namespace(
                mine, wrong, author, registry))
        except AttributeError:
            ctx.count('refused')
        else:
            ctx.fail('wrong documentation options were accepted', wrong,
                     documented)
    ctx.note(name, [b.__name__ for b in bases], sorted(mine), opts)
    return type(name, tuple(bases), namespace(mine, opts, author, registry))


def verify(ctx, cls, author, order, present, private, documented):
    text = cls.__doc__
    groups = parse(ctx, text, author)
    want = {}
    for name in order:
        group = 'Private' if name.startswith('_') else present[name].group
        want.setdefault(group, []).append(name)
    got = [(g, [n for n, _ in entries]) for g, entries in groups]
    exp = [(g, want[g]) for g in HEADS if g in want]
    if len(exp) > 1 or order != documented:
        ctx.nontrivial(exp)
    ctx.check(got == exp, 'documented groups are wrong', exp, got, text)
    hidden = [n for n in present if n.startswith('_') and not private]
    ctx.count('privates_hidden', len(hidden))
    ctx.count('privates_listed', len(want.get('Private', [])))
    for _, entries in groups:
        for name, rest in entries:
            ctx.count('entries')
            decl = present[name]
            label = 'entry of %s' % name
            doc = decl.doc
            if doc is None:
                doc = decl.prop.doc
                ctx.check(decl.prop.new_name in rest, 'a renamed property '
                          'does not say its new name', rest)
            ctx.check(': ' + doc in rest, label + ' lacks its description',
                      rest, doc)
            tail = rest.split(': ' + doc, 1)[1]
            if decl.info:
                ctx.check(decl.info in tail, label + ' lacks its value '
                          'information', rest, decl.info)
            if decl.default is not None:
                ctx.check('Default: ' + decl.default in tail, label +
                          ' lacks its default', rest, decl.default)
            own = getattr(cls, name)
            ctx.check(isinstance(own, property) and doc in own.__doc__,
                      'attribute documentation lacks the description', name,
                      own)
