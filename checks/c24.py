"""C24: file and image properties check, close and preserve content"""
import base64
import io
import json
import os
import pathlib
import shutil
import tempfile

import png
import properties as p

RULE = ('A case declares a file or image property (mode, valid modes), then '
        'offers names (present, missing, directories, impossible) and open, '
        'closed, foreign and lookalike files in every mode, with reads, '
        'seeks, deletions and JSON round trips in between, all inside one '
        'scratch directory; a model decides acceptance and content. '
        'Non-trivial: a decision, by declaration and input form.')
CASES = {'quick': 3600, 'thorough': 40000}
FLOORS = {'accepted': 5202, 'bad_data': 533, 'bad_declarations': 4180,
          'bytes_compared': 2203, 'closed_elsewhere': 636, 'copies': 531,
          'deleted': 1484, 'deleted_closed': 146, 'lists': 540, 'opened': 699,
          'pixels_compared': 302, 'refused': 6860, 'refused_deletions': 650,
          'round_trips': 1100}
MODES = ['r', 'r+', 'rb', 'rb+', 'w', 'w+', 'wb', 'wb+', 'a', 'a+', 'ab',
         'ab+']
IMAGE_MODES = ['rb', 'rb+', 'wb+', 'ab+']
SIGN = b'\x89PNG\r\n\x1a\n'


class Veto(object):
    """Refuses changes of a property while it is armed"""

    def __init__(self, how):
        self.how, self.armed = how, False

    def __call__(self, obj, change):
        if not self.armed:
            return
        if self.how == 'error':
            raise p.ValidationError('not now', 'invalid', change['name'], obj)
        raise RuntimeError('not now')


def refuse_deletion(ctx, obj, name, veto, told):
    """A deletion that a validator refuses leaves the file as it was"""
    old = getattr(obj, name)
    at = where_in(old)
    veto.armed = True
    try:
        delattr(obj, name)
    except (ValueError, RuntimeError):
        ctx.count('refused_deletions')
    else:
        ctx.fail('a refused deletion raised nothing', told)
    finally:
        veto.armed = False
    ctx.check(getattr(obj, name) is old and where_in(old) == at,
              'a refused deletion changed or closed the file', told, old)


class Scratch(object):
    """A directory of files for one case"""

    def __init__(self, rng):
        self.rng, self.count, self.opened = rng, 0, []

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='c24_')
        return self

    def __exit__(self, *exc):
        for fid in self.opened:
            try:
                fid.close()
            except Exception:        # pylint: disable=broad-except
                pass
        shutil.rmtree(self.path)

    def name(self):
        self.count += 1
        return os.path.join(self.path, self.rng.choice(
            ['f%d', 'file %d.txt', 'ünï%d.bin', '%d']) % self.count)

    def file(self, content):
        name = self.name()
        with open(name, 'wb') as fid:
            fid.write(content)
        return name

    def open(self, name, mode):
        fid = open(name, mode)
        self.opened.append(fid)
        return fid


class Like(object):
    """Like a file, as far as the attributes go"""

    def __init__(self, content=b'abc', **attrs):
        self.inner = io.BytesIO(content)
        self.__dict__.update(attrs)

    def read(self, *args):
        return self.inner.read(*args)

    def seek(self, *args):
        return self.inner.seek(*args)

    def close(self):
        self.inner.close()
        self.closed = True


class NoSeek(object):
    def read(self, *_):
        return b''


class NoRead(object):
    def seek(self, *_):
        return None


def file_fits(val, mode, valid):
    if isinstance(val, str):
        return False
    if not (hasattr(val, 'read') and hasattr(val, 'seek')):
        return False
    if hasattr(val, 'mode') and valid is not None:
        if val.mode not in valid and not (
                val.mode == 'rb+' and 'wb+' in valid):
            return False
    return not getattr(val, 'closed', False)


def draw_modes(rng):
    """(keywords, mode, valid modes)"""
    mode = rng.choice(MODES + [None, None, None])
    kw = {} if mode is None else {'mode': mode}
    if mode is None:
        return kw, None, None
    if rng.random() < 0.5:
        return kw, mode, [mode]
    valid = sorted({mode} | set(rng.sample(MODES, rng.randint(0, 5))))
    kw['valid_modes'] = rng.choice([list, tuple, set])(valid)
    if valid == [mode] and rng.random() < 0.5:
        kw['valid_modes'] = mode
    return kw, mode, valid


def file_input(rng, box, mode):
    """(form, value)"""
    roll = rng.random()
    content = bytes(rng.randrange(97, 123) for _ in range(rng.randint(0, 20)))
    if roll < 0.35:
        how = rng.choice(['there', 'there', 'there', 'missing', 'dir',
                          'nodir', 'null', 'empty', 'path', 'bytes'])
        if how == 'there':
            return 'name', box.file(content)
        return 'name:' + how, {
            'missing': lambda: box.name(), 'dir': lambda: box.path,
            'nodir': lambda: os.path.join(box.name(), 'x'),
            'null': lambda: box.path + '/a\0b', 'empty': lambda: '',
            'path': lambda: pathlib.Path(box.file(content)),
            'bytes': lambda: os.fsencode(box.file(content))}[how]()
    if roll < 0.72:
        how = rng.choice(MODES) if mode is None or rng.random() < 0.6 else \
            mode
        if rng.random() < 0.1:
            how = rng.choice(['r+b', 'w+b', 'a+b', 'rt', 'xb', 'x', 'wt'])
        name = box.name() if how[0] == 'x' else box.file(content)
        fid = box.open(name, how)
        if rng.random() < 0.2:
            fid.close()
            return 'closed ' + how, fid
        if how[0] == 'r' and content and rng.random() < 0.3:
            fid.seek(rng.randint(0, len(content)))
        return 'open ' + how, fid
    pick = rng.choice(['bytesio', 'stringio', 'closedio', 'like', 'likemode',
                       'likeclosed', 'liketrue', 'noseek', 'noread', 'int',
                       'obj', 'class', 'tmp', 'odd', 'buffered', 'list'])
    made = {
        'bytesio': lambda: io.BytesIO(content),
        'stringio': lambda: io.StringIO('text'),
        'closedio': lambda: closed(io.BytesIO(content)),
        'like': lambda: Like(content),
        'likemode': lambda: Like(content, mode=rng.choice(MODES)),
        'likeclosed': lambda: Like(content, closed=True),
        'liketrue': lambda: Like(content, closed=False, mode='r'),
        'odd': lambda: Like(content, mode=rng.choice(['R', 'br', 'rw', ''])),
        'noseek': NoSeek, 'noread': NoRead, 'int': lambda: 3,
        'obj': object, 'class': lambda: int, 'list': lambda: [content],
        'tmp': lambda: tempfile.TemporaryFile(dir=box.path),
        'buffered': lambda: io.BufferedReader(io.BytesIO(content)),
    }[pick]()
    if pick == 'tmp':
        box.opened.append(made)
    return pick, made


def closed(fid):
    fid.close()
    return fid


def is_closed(fid):
    return bool(getattr(fid, 'closed', False))


def where_in(fid):
    """Position and state of an offered file, or None"""
    try:
        return is_closed(fid), fid.tell()
    except Exception:                # pylint: disable=broad-except
        return is_closed(fid)


def open_name(name, mode):
    """Can this name be opened? (decided before the library opens it)"""
    if '\0' in name or not name:
        return False
    if os.path.isdir(name):
        return False
    if not os.path.isdir(os.path.dirname(name)):
        return False
    return mode[0] != 'r' or os.path.exists(name)


def file_case(ctx, rng, box):
    kw, mode, valid = draw_modes(rng)
    prop = p.File('file', required=False, **kw)
    veto = Veto(rng.choice(['error', 'crash']))
    cls = type('Holder', (p.HasProperties,), {
        '_REGISTRY': {}, 'fid': prop, 'veto': p.validator('fid')(
            lambda self, change: veto(self, change))})
    obj = cls()
    told = 'File(%r)' % (kw,)
    for _ in range(10):
        old = obj.fid
        old_at = None if old is None else where_in(old)
        if old is not None and rng.random() < 0.2:
            ctx.note(told, 'delete', old)
            if rng.random() < 0.4:
                refuse_deletion(ctx, obj, 'fid', veto, told)
            was_closed = is_closed(old)
            del obj.fid
            ctx.count('deleted')
            ctx.check(obj.fid is None, 'a deleted file is still there', told)
            ctx.check(is_closed(old), 'deleting did not close the file',
                      told, old)
            if was_closed:
                ctx.count('deleted_closed')
            continue
        if old is not None and rng.random() < 0.15 and not is_closed(old):
            ctx.note(told, 'close it elsewhere')
            old.close()
            ctx.count('closed_elsewhere')
            try:
                obj.validate()
            except ValueError:
                continue
            ctx.fail('a closed file is valid', told, old)
        form, val = file_input(rng, box, mode)
        where = '%s value: %s %r' % (told, form, val)
        ctx.note(where)
        if isinstance(val, str):
            fits = mode is not None and open_name(val, mode)
            content = open(val, 'rb').read() if os.path.isfile(val) else None
        else:
            fits = file_fits(val, mode, valid)
        at = where_in(val)
        ctx.nontrivial(mode, sorted(valid or []), form, fits)
        listing = sorted(os.listdir(box.path))
        try:
            obj.fid = val
        except ValueError:
            ctx.count('refused')
            ctx.check(not fits, 'an acceptable file was rejected', where)
            ctx.check(obj.fid is old, 'a refused file changed the value',
                      where)
            ctx.check(old is None or where_in(old) == old_at,
                      'a refused file changed the stored file', where)
            ctx.check(where_in(val) == at, 'a refused file was changed',
                      where)
            if isinstance(val, str):
                ctx.check(sorted(os.listdir(box.path)) == listing,
                          'a refused name created files', where)
            continue
        ctx.count('accepted')
        ctx.check(fits, 'a file that must be rejected was accepted', where)
        got = obj.fid
        if isinstance(val, str):
            ctx.count('opened')
            box.opened.append(got)
            ctx.check(not is_closed(got) and os.path.samefile(
                got.name, val), 'a name was not opened', where, got)
            ctx.check(got.mode == mode.replace('wb+', 'rb+'),
                      'opened in another mode', where, got.mode)
            if mode[0] == 'r':
                ctx.check(as_bytes(got.read()) == content,
                          'opened another file', where)
                got.seek(0)
            else:
                left = open(val, 'rb').read()
                ctx.check(left == (b'' if mode[0] == 'w' else content or b''),
                          'opening changed the content', where, left)
        else:
            ctx.check(got is val, 'an open file was replaced', where, got)
            ctx.check(where_in(val) == at, 'accepting moved or closed the '
                      'file', where)
        ctx.check(prop.validate(obj, got) is got and obj.validate() is True,
                  'an accepted file is not valid', where)
        ctx.check(prop.equal(got, got) is True and
                  prop.equal(got, io.BytesIO()) is False,
                  'file equality is not identity', where)


def as_bytes(text):
    return text if isinstance(text, bytes) else text.encode('utf-8')


# ---------------------------------------------------------------- images

def draw_image(rng):
    """(png.Image, size, planes, rows)"""
    kind, planes = rng.choice([('L', 1), ('RGB', 3), ('RGBA', 4), ('LA', 2)])
    depth = rng.choice([8, 16] if planes > 1 else [1, 2, 4, 8, 16])
    width, height = rng.randint(1, 9), rng.randint(1, 9)
    rows = [[rng.randrange(2 ** depth) for _ in range(width * planes)]
            for _ in range(height)]
    image = png.from_array(rows, '%s;%d' % (kind, depth))
    return image, (width, height, planes, depth), rows


def png_bytes(rng):
    image, size, rows = draw_image(rng)
    out = io.BytesIO()
    image.write(out)
    data = out.getvalue()
    if rng.random() < 0.2:           # trailing bytes belong to the content
        data += bytes(rng.randrange(256) for _ in range(rng.randint(1, 9)))
    return data


def not_png(rng):
    data = png_bytes(rng)
    i = rng.randrange(8)
    return rng.choice([
        b'', SIGN[:rng.randint(1, 7)], b'GIF89a' + data, b'\xff\xd8\xff\xe0',
        data[:i] + bytes([data[i] ^ 1 << rng.randrange(8)]) + data[i + 1:],
        data[1:], b' ' + data, b'\0' * 8 + data, data[::-1], b'PNG' + data])


def image_input(rng, box):
    """(form, value, content bytes or rows or None when unacceptable)"""
    good = rng.random() < 0.68
    data = png_bytes(rng) if good else not_png(rng)
    keep = data if good else None
    pick = rng.choice(['name', 'open', 'open', 'bytesio', 'bytesio', 'image',
                       'like', 'tmp', 'text', 'bad'])
    if pick == 'name':
        return pick, box.file(data), keep
    if pick == 'open':
        mode = rng.choice(IMAGE_MODES)
        fid = box.open(box.file(b'' if mode == 'wb+' else data), mode)
        if mode == 'wb+':
            fid.write(data)
        if rng.random() < 0.6:
            fid.seek(rng.choice([0, 3, len(data)]))
        return 'open ' + mode, fid, keep
    if pick == 'bytesio':
        fid = io.BytesIO(data)
        fid.seek(rng.choice([0, 0, 1, 8, len(data)]))
        if rng.random() < 0.1:
            return 'closed', closed(fid), None
        return pick, fid, keep
    if pick == 'like':
        return pick, Like(data), keep
    if pick == 'tmp':
        fid = tempfile.TemporaryFile(dir=box.path)
        box.opened.append(fid)
        fid.write(data)
        return pick, fid, keep
    if pick == 'image':
        image, size, rows = draw_image(rng)
        if good:
            return pick, image, (size, rows)
        if rng.random() < 0.5:
            image.write(io.BytesIO())         # its rows are used up
        else:
            image.info['size'] = (99, 99)
        return 'bad image', image, None
    if pick == 'text':
        if rng.random() < 0.5:
            mode = rng.choice(['r', 'w', 'a', 'wb', 'ab', 'r+', 'w+'])
            return 'open ' + mode, box.open(box.file(data), mode), None
        return 'stringio', io.StringIO(data.decode('latin1')), None
    return 'bad', rng.choice([
        box.name(), box.path, 5, data, [data], base64.b64encode(data), '',
        base64.b64encode(data).decode(), object(), png, True,
        'data:image/png;base64,' + base64.b64encode(data).decode(),
        png.Reader(bytes=data), NoSeek(), NoRead(), 'a\0b']), None


def decoded(data):
    width, height, rows, info = png.Reader(bytes=data).read()
    return (width, height, info['planes'], info['bitdepth']), \
        [list(r) for r in rows]


def image_case(ctx, rng, box):
    kw = {}
    if rng.random() < 0.3:
        kw['filename'] = rng.choice(['a.png', 'plain', 'ü.png'])
    if rng.random() < 0.2:
        kw['mode'] = rng.choice(['rb', 'rb+', 'ab+'])
    prop = p.ImagePNG('image', required=False, **kw)
    veto = Veto(rng.choice(['error', 'crash']))
    cls = type('Holder', (p.HasProperties,), {
        '_REGISTRY': {}, 'img': prop, 'veto': p.validator('img')(
            lambda self, change: veto(self, change)),
        'imgs': p.List('images', p.ImagePNG(''), required=False)})
    obj, other = cls(), cls()
    content = None
    told = 'ImagePNG(%r)' % (kw,)
    for _ in range(9):
        old = obj.img
        roll = rng.random()
        if old is not None and roll < 0.12:
            ctx.note('delete')
            if rng.random() < 0.5:
                refuse_deletion(ctx, obj, 'img', veto, told)
            del obj.img
            ctx.count('deleted')
            ctx.check(obj.img is None and old.closed,
                      'deleting an image did not close it', told)
            content = None
            continue
        if old is not None and roll < 0.5:
            image_steps(ctx, rng, obj, other, cls, content, told)
            if obj.img.closed:
                break
            continue
        form, val, keep = image_input(rng, box)
        if isinstance(val, str) and kw.get('mode', 'rb') == 'ab+' and \
                keep is None and not os.path.exists(val):
            continue                 # would create the file
        where = '%s value: %s %r' % (told, form, val)
        ctx.note(where)
        ctx.nontrivial(sorted(kw.items()), form, keep is not None,
                       isinstance(keep, bytes) and len(keep) % 7)
        at = where_in(val)
        try:
            obj.img = val
        except ValueError:
            ctx.count('refused')
            ctx.check(keep is None, 'a PNG image was rejected', where)
            ctx.check(obj.img is old and (old is None or (
                not old.closed and old.getvalue() == content)),
                      'a refused image changed the value', where)
            ctx.check(is_closed(val) == (at is True or isinstance(
                at, tuple) and at[0]), 'a refused file was closed', where)
            continue
        ctx.count('accepted')
        ctx.check(keep is not None, 'accepted something else than a PNG image',
                  where)
        got = obj.img
        ctx.check(isinstance(got, io.BytesIO) and got is not val and
                  not got.closed, 'the image is not a private open stream',
                  where, got)
        ctx.check(got.name == kw.get('filename', 'texture.png'),
                  'the stream has another name', where, got.name)
        content = got.getvalue()
        ctx.check(got.read() == content, 'a new image is not at its start',
                  where)
        if isinstance(keep, bytes):
            ctx.count('bytes_compared')
            ctx.check(content == keep, 'the image is not the content of its '
                      'source', where)
        else:
            ctx.count('pixels_compared')
            ctx.check(decoded(content) == keep, 'the pixels differ', where)
        # whatever happens to the source does not matter
        if isinstance(val, str):
            with open(val, 'wb') as fid:
                fid.write(b'gone')
        elif isinstance(val, io.BytesIO) and not val.closed:
            val.seek(0)
            val.truncate(0)
        elif form.startswith('open') and os.path.exists(val.name):
            with open(val.name, 'wb') as fid:
                fid.write(b'gone')
        ctx.check(obj.img is got and got.getvalue() == content,
                  'the image follows its source', where)
        ctx.check(obj.validate() is True and prop.validate(obj, got) is got,
                  'an accepted image is not valid', where)


def image_steps(ctx, rng, obj, other, cls, content, told):
    """Reads, seeks, serialization and copies of the stored image"""
    img = obj.img
    for _ in range(rng.randint(1, 4)):
        step = rng.choice(['read', 'seek', 'json', 'json', 'copy', 'validate',
                           'list', 'baddata'])
        ctx.note(step, img.tell())
        ctx.nontrivial('step', step, img.tell() == 0,
                       img.tell() >= len(content))
        at = img.tell()
        if step == 'read':
            img.read(rng.choice([1, 8, len(content), -1]))
        elif step == 'seek':
            img.seek(rng.choice([0, 5, len(content), len(content) + 9]))
        elif step == 'validate':
            ctx.check(obj.validate() is True and obj.img is img,
                      'an image stopped being valid', told)
        elif step == 'json':
            ctx.count('round_trips')
            text = json.dumps(obj.serialize())
            data = json.loads(text)['img']
            head = 'data:image/png;base64,'
            ctx.check(data.startswith(head) and base64.b64decode(
                data[len(head):]) == content,
                      'the data is not the base64 of the image', told, data)
            back = cls.deserialize(json.loads(text),
                                   trusted=rng.random() < 0.5)
            ctx.check(back.img.getvalue() == content and
                      back.img.read() == content and back.img is not img,
                      'the image changed in the JSON round trip', told)
            again = back.serialize()
            ctx.check(again['img'] == data, 'serialized again, it differs',
                      told)
        elif step == 'copy':
            ctx.count('copies')
            twin = p.copy(obj)
            ctx.check(twin.img is not img and twin.img.getvalue() == content
                      and twin.img.read() == content,
                      'the copy has another image', told)
            twin.img.seek(0)
            twin.img.write(b'xx')
            ctx.check(img.getvalue() == content, 'the copy shares the image',
                      told)
            del twin.img
            ctx.check(not img.closed, 'deleting in the copy closed the image',
                      told)
        elif step == 'list':
            ctx.count('lists')
            obj.imgs = [io.BytesIO(content), io.BytesIO(content)]
            text = json.dumps(obj.serialize())
            back = cls.deserialize(json.loads(text))
            ctx.check([i.getvalue() for i in back.imgs] == [content] * 2 and
                      back.imgs[0] is not back.imgs[1],
                      'images in a list changed in the JSON round trip', told)
            obj.imgs = []
        else:
            good = base64.b64encode(content).decode()
            ctx.count('bad_data')
            data = rng.choice([
                good, 'data:image/jpeg;base64,' + good, '', 5, None and 0,
                [good], {'a': good}, 'data:image/png;base64,',
                'data:image/png;base64,' + good[1:5],
                'data:image/png;base64,' + base64.b64encode(
                    not_png(rng)).decode(), content, True, b'',
                ' data:image/png;base64,' + good, 2.5])
            try:
                back = cls.deserialize({'__class__': 'Holder', 'img': data})
            except ValueError:
                continue
            ctx.fail('deserialized an image from bad data', told, data)
        if step not in ('read', 'seek'):
            ctx.check(img.tell() in (0, at), 'the image cannot be read from '
                      'its start, or from where it was, after an operation '
                      'that is no read', step, told, at, img.tell())
    if rng.random() < 0.1:
        ctx.count('closed_elsewhere')
        img.close()
        try:
            obj.validate()
        except ValueError:
            return
        ctx.fail('a closed image is valid', told)


def declaration_case(ctx, rng):
    def refused(make, what):
        ctx.count('bad_declarations')
        try:
            make()
        except TypeError:
            return
        ctx.fail('meaningless declaration accepted', what)
    for mode in ['x', 'rw', '', 5, 'R', 'br', 'rt', True, 'U', ('r',)]:
        refused(lambda: p.File('', mode=mode), ('File mode', mode))
        refused(lambda: p.ImagePNG('', mode=mode), ('image mode', mode))
        refused(lambda: p.File('', mode='r', valid_modes=('r', mode)),
                ('valid modes', mode))
    for mode in MODES:
        p.File('', mode=mode)
        rest = [m for m in MODES if m != mode]
        refused(lambda: p.File('', mode=mode, valid_modes=rest),
                ('valid modes', mode, rest))
        refused(lambda: p.File('', valid_modes=mode), ('valid modes', mode))
        if mode not in IMAGE_MODES:
            refused(lambda: p.ImagePNG('', mode=mode), ('image mode', mode))
            refused(lambda: p.ImagePNG('', valid_modes=('rb', mode)),
                    ('image modes', mode))
        else:
            p.ImagePNG('', mode=mode)
        got = p.File('', mode=mode, valid_modes=set(MODES)).valid_modes
        ctx.check(set(got) == set(MODES), 'valid modes are not kept', got)
        ctx.check(tuple(p.File('', mode=mode).valid_modes) == (mode,),
                  'by default only its own mode is valid', mode)
    for name in [5, None, True, b'a.png', ['x'], object()]:
        refused(lambda: p.ImagePNG('', filename=name), ('filename', name))
    ctx.check(p.File('').valid_modes is None, 'modes are restricted')
    ctx.nontrivial('declarations')


def run_case(ctx):
    rng = ctx.rng
    roll = rng.random()
    if roll < 0.03:
        declaration_case(ctx, rng)
        return
    with Scratch(rng) as box:
        if roll < 0.52:
            file_case(ctx, rng, box)
        else:
            image_case(ctx, rng, box)
