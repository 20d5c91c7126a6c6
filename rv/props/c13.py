"""Text data is read to exactly the values in the file."""
import io

import numpy as np

import channelpack as cp
from rv import gen, textgen as tg
from rv.core import Phase

PROP = 'C13'
LEVEL = 'exploration'
FILES = ['readtext.py']
RULE = ('Tables are generated together with the value each field denotes '
        '(any delimiter, decimal sign, notation, padding, blank lines, '
        'missing and extra fields, skipped rows, encodings), written out '
        'and read by textpack from a path, text stream or byte stream; '
        'every channel is compared element by element and by dtype with '
        'the values. Non-trivial: distinct (shape, kinds, delimiter, '
        'options, first lines).')
ASSUME = ['lines end with \\n or \\r\\n',
          'no line has fewer fields than the first data line',
          'fields hold no NUL characters',
          'python float() decides what text is a number']


def conv_len(s):
    return len(s)


def conv_double(s):
    if isinstance(s, bytes):
        s = s.decode('utf-8')
    return 2 * float(s.strip().replace(',', '.') or 'nan')


def conv_tag(s):
    if isinstance(s, bytes):
        return '<' + s.decode('utf-8') + '>'
    return '<' + s + '>'


def conv_same(s):
    return s


CONVS = (conv_len, conv_tag, conv_same)


def read(cx):
    rng = cx.rng
    kind = rng.choice(('path', 'path', 'textio', 'textio', 'bytes',
                       'bytesenc', 'file'))
    if kind == 'path':
        enc = rng.choice(('utf-8', 'latin-1', 'utf-16', 'cp1252', 'ascii',
                          'utf-8-sig', 'utf-8'))
    elif kind in ('bytes', 'bytesenc'):
        enc = rng.choice(('utf-8', 'utf-8', 'latin-1', 'ascii'))
    else:
        enc = 'utf-8'
    t = tg.Table(cx, encoding=enc)
    skip = rng.choice((0, 0, 0, 1, 2, 3, rng.randint(0, 30)))
    head = tg.header(rng, skip, 'ascii' if enc in ('ascii', 'cp1252') or
                     kind == 'bytes' else enc)
    kw = {}
    if t.delim is not None or rng.random() < .2:
        kw['delimiter'] = t.delim
    if skip or rng.random() < .1:
        kw['skiprows'] = skip
    strip = rng.random() < .3
    if strip or rng.random() < .1:
        kw['stripstrings'] = strip
    names = None
    if skip and rng.random() < .5:
        names = tg.field_names(rng, t)
        head[-1] = tg.names_line(rng, t, names)
        kw['hasnames'] = True
    # expected columns
    want = t.columns(strip)
    convs = {}
    if rng.random() < .3:
        for c in range(t.ncols):
            if rng.random() < .4:
                f = rng.choice(CONVS)
                if t.kinds[c] == 'n' and rng.random() < .5:
                    f = conv_double
                convs[c] = f
        if convs:
            kw['converters'] = convs
    bytesrc = kind in ('bytes', 'bytesenc')

    def raw(c):
        fs = [f[c] for f in t.fields]
        return [f.encode(enc) for f in fs] if bytesrc else fs
    decode_ok = enc in ('utf-8', 'ascii')
    for c, f in list(convs.items()):
        if bytesrc and not decode_ok and f in (conv_tag, conv_double):
            f = convs[c] = conv_len
        want[c] = [f(x) for x in raw(c)]
    if kind == 'bytes':
        for c in range(t.ncols):
            if t.kinds[c] == 's' and c not in convs:
                want[c] = [x.strip() if strip else x for x in raw(c)]
    data = tg.content(rng, head + t.lines)
    if kind == 'path':
        src = tg.write(cx, data.encode(enc))
        if enc != 'ascii' or rng.random() < .5:
            kw['encoding'] = enc
    elif kind == 'textio':
        src = io.StringIO(data, newline=None if '\r' in data else '\n')
    elif kind == 'file':
        src = io.open(tg.write(cx, data.encode(enc)), encoding=enc)
    else:
        src = io.BytesIO(data.encode(enc))
        if kw.get('delimiter') is not None:
            kw['delimiter'] = t.delim.encode(enc)
        if kind == 'bytesenc':
            kw['encoding'] = enc
    cx.note('source', kind, enc, 'keywords', kw)
    convs0 = dict(convs)
    try:
        p = cp.textpack(src, **kw)
    finally:
        if kind == 'file':
            src.close()
    cx.check(sorted(p.data) == list(range(t.ncols)), 'channels',
             sorted(p.data), 'expected', t.ncols, 'columns')
    cx.check(convs == convs0, 'the converters given were altered to', convs)
    for c in range(t.ncols):
        d = tg.column_diff(p.data[c], want[c])
        cx.check(d is None, 'column', c, d, 'got', p.data[c][:20],
                 'expected', want[c][:20])
        cx.count('fields compared', t.nrows)
        if kind == 'bytes':
            continue
    if names is not None:
        exp = names
        if kind == 'bytes':
            exp = [n.encode(enc) for n in names]
        cx.check(dict(p.names) == dict(enumerate(exp)), 'names',
                 dict(p.names), 'expected', exp)
    else:
        cx.check(not p.names, 'names with no names in the file', p.names)
    cx.check(p.mask.dtype == bool and len(p.mask) == t.nrows and
             p.mask.all(), 'mask of a fresh pack')
    cx.sig(kind, enc, t.delim, t.dec, ''.join(t.kinds), t.nrows, skip, strip,
           sorted(convs), t.lines[:3])


def big(cx):
    """Long tables, wide tables, long fields."""
    rng = cx.rng
    shape = rng.choice(((1, 5000), (2, 9000), (60, 40), (300, 5), (3, 3000)))
    t = tg.Table(cx, ncols=shape[0], nrows=shape[1])
    data = tg.content(rng, t.lines)
    p = cp.textpack(io.StringIO(data), delimiter=t.delim)
    cx.check(sorted(p.data) == list(range(t.ncols)), 'channels')
    for c, want in enumerate(t.columns()):
        d = tg.column_diff(p.data[c], want)
        cx.check(d is None, 'column', c, d)
        cx.count('fields compared', t.nrows)
    cx.sig('big', shape, t.delim, ''.join(t.kinds))


def huge(cx):
    """Megabytes: many lines, very long lines."""
    rng = cx.rng
    style = cx.index % 4
    delim = rng.choice((';', '\t', ',', None))
    join = (delim or ' ').join
    if style == 3:
        # lines longer than 64 kB
        ncols, nrows = rng.choice(((9000, 3), (20000, 2), (12000, 5)))
    elif style == 2:
        ncols, nrows = 2, rng.randint(66000, 70000)
    else:
        ncols, nrows = rng.randint(3, 6), rng.randint(30000, 45000)
    words = ['w%d' % i for i in range(50)]
    text = rng.randrange(ncols) if rng.random() < .6 else None
    rows = [['%.6f' % rng.uniform(-1e6, 1e6) if c != text else
             rng.choice(words) for c in range(ncols)] for _ in range(nrows)]
    lines = [join(r) + '\n' for r in rows]
    nblank = rng.choice((0, 1, 40))
    for _ in range(nblank):
        lines.insert(rng.randint(1, len(lines)), '\n')
    data = ''.join(lines)
    cx.note('huge table', ncols, nrows, repr(delim), len(data), 'bytes')
    kind = rng.choice(('textio', 'path', 'bytes'))
    if kind == 'textio':
        src = io.StringIO(data)
    elif kind == 'path':
        src = tg.write(cx, data.encode())
    else:
        src = io.BytesIO(data.encode())
    kw = dict(delimiter=delim.encode() if delim and kind == 'bytes' else
              delim)
    if kind == 'bytes':
        kw['encoding'] = 'ascii'
    p = cp.textpack(src, **kw)
    cx.check(list(p.data) == list(range(ncols)), 'channels')
    for c in range(ncols):
        want = [r[c] for r in rows]
        d = tg.column_diff(p.data[c], want if c == text else
                           [float(x) for x in want])
        cx.check(d is None, 'column', c, d)
        cx.count('fields compared', nrows)
    cx.sig('huge', ncols, nrows, kind)


PHASES = [Phase('read', read, 72000, 150000), Phase('big', big, 144, 400),
          Phase('huge', huge, 24, 96)]
