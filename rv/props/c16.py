"""The automatic text reader finds what the plain one is told."""
import io
import locale

import channelpack as cp
from rv import gen, textgen as tg
from rv.core import Phase

PROP = 'C16'
LEVEL = 'exploration'
FILES = ['readtext.py']
RULE = ('Numeric tables with a constant delimiter, after a header of free '
        'text with or without a line of names, are read by lazy_textpack '
        'from path, text, binary sources and with overriding keywords; '
        'the pack is compared with the values written and with textpack '
        'given the right arguments. Non-trivial: distinct (columns, rows, '
        'delimiter, decimal sign, header, source).')
ASSUME = ['every line has a number with decimals on both sides of the '
          'decimal comma if decimal comma is used; with comma as the '
          'delimiter every number has decimals (the text is ambiguous '
          'otherwise)',
          'the line above the data is not itself a line of numbers with '
          'the delimiter between, and no header line except the names has '
          'as many fields as there are columns']


def comma(s):
    return float(s.replace(',', '.')) if s.strip() else float('nan')


def comma_bytes(b):
    return float(b.replace(b',', b'.')) if b.strip() else float('nan')


def sources(cx, t, data):
    rng = cx.rng
    kind = rng.choice(('text', 'bytes', 'bytesenc', 'path', 'file', 'rb'))
    if not data.isascii() and kind == 'bytes':
        kind = 'bytesenc'
    kw = {}
    if kind == 'text':
        def src(): return io.StringIO(data)
    elif kind in ('bytes', 'bytesenc'):
        def src(): return io.BytesIO(data.encode('utf-8'))
    else:
        path = tg.write(cx, data.encode('utf-8'))

        def src():
            if kind == 'file':
                return io.open(path, encoding='utf-8')
            if kind == 'rb':
                return io.open(path, 'rb')
            return path
    if kind in ('bytesenc', 'rb') or (kind == 'path' and
                                      (not data.isascii() or
                                       rng.random() < .5)):
        kw['encoding'] = 'utf-8'
    return kind, src, kw


def compare(cx, p, t, what, cols=None, names=None):
    want = t.columns()
    cols = set(range(t.ncols)) if cols is None else cols
    names = t.names if names is None else names
    cx.check(set(p.data) == cols, what, 'channels', sorted(p.data),
             'expected', sorted(cols))
    for c in cols:
        d = tg.column_diff(p.data[c], want[c])
        cx.check(d is None, what, 'column', c, d, 'got', p.data[c][:9],
                 'expected', want[c][:9])
    cx.check(dict(p.names) == names, what, 'names', dict(p.names),
             'expected', names)


def lazy(cx):
    rng = cx.rng
    plines = rng.choice((25, 25, 25, 5, 10, 40, 2))
    t = tg.LazyTable(cx, plines)
    eol = rng.choice(('\n', '\n', '\r\n'))
    data = tg.content(rng, t.head + t.lines, eol)
    if rng.random() < .2:
        data += eol * rng.randint(1, 3)
    kind, src, kw = sources(cx, t, data)
    if plines != 25:
        kw['parselines'] = plines
    s = src()
    cx.note('lazy_textpack', kind, kw)
    try:
        p = cp.lazy_textpack(s, **kw)
    finally:
        if hasattr(s, 'close'):
            s.close()
    compare(cx, p, t, 'lazy_textpack')
    # and with everything spelled out
    bkind = kind in ('bytes', 'bytesenc', 'rb')
    conv = comma_bytes if bkind else comma
    delim = t.delim if t.delim is None else (t.delim.strip() or t.delim)
    full = dict(delimiter=delim.encode('utf-8') if bkind and delim else
                delim, skiprows=t.skip)
    if t.names:
        full['names'] = dict(t.names)
    if t.dec == ',':
        full['converters'] = {c: conv for c in range(t.ncols)}
    if 'encoding' in kw:
        full['encoding'] = kw['encoding']
    s = src()
    try:
        q = cp.textpack(s, **full)
    finally:
        if hasattr(s, 'close'):
            s.close()
    compare(cx, q, t, 'textpack')
    cx.check(p.fn == q.fn, 'file name', p.fn, q.fn)
    cx.count('lazy reads compared')
    cx.sig(t.ncols, t.nrows, t.delim, t.dec, t.skip, sorted(t.names.items()),
           kind, plines, t.lines[:1])


def override(cx):
    """Keyword arguments of the caller win."""
    rng = cx.rng
    t = tg.LazyTable(cx)
    data = tg.content(rng, t.head + t.lines, '\n', True)
    kind, src, kw = sources(cx, t, data)
    bkind = kind in ('bytes', 'bytesenc', 'rb')
    what = rng.choice(('names', 'usecols', 'skiprows', 'converters',
                       'delimiter', 'hasnames'))
    s = src()
    cols = names = None
    if what == 'names':
        cols = set(rng.sample(range(t.ncols), rng.randint(1, t.ncols)))
        names = {c: 'given%d' % c for c in cols}
        kw['names'] = dict(names)
    elif what == 'usecols':
        cols = set(rng.sample(range(t.ncols), rng.randint(1, t.ncols)))
        kw['usecols'] = list(cols)
        names = {c: n for c, n in t.names.items() if c in cols}
    elif what == 'skiprows':
        k = rng.randint(0, t.nrows - 1)
        kw['skiprows'] = t.skip + k
        if k and t.dec == ',':
            pass
        t.values = t.values[k:]
    elif what == 'converters':
        c = rng.randrange(t.ncols)

        def f(s):
            x = s.decode('utf-8') if isinstance(s, bytes) else s
            return -float(x.replace(',', '.'))
        kw['converters'] = {c: f}
        t.values = [v[:c] + [-v[c]] + v[c + 1:] for v in t.values]
    elif what == 'delimiter':
        if t.delim is not None:
            d = t.delim.strip() or t.delim
            kw['delimiter'] = d.encode('utf-8') if bkind else d
    elif what == 'hasnames':
        if not t.names or not t.skip:
            what = 'nothing'
        else:
            kw['hasnames'] = True     # ignored, names are found
    cx.note('override', what, kind, kw)
    try:
        p = cp.lazy_textpack(s, **kw)
    finally:
        if hasattr(s, 'close'):
            s.close()
    compare(cx, p, t, 'overriding ' + what, cols, names)
    cx.sig('override', what, t.ncols, t.nrows, t.delim, t.dec, t.skip, kind)


def noguess(cx):
    """Text without numeric data raises, the rest is not guessed."""
    rng = cx.rng
    lines = [rng.choice(('words only', '', 'a;b;c', '# comment', '-----',
                         'one; two; three', '!'))
             for _ in range(rng.randint(1, 30))]
    data = '\n'.join(lines) + '\n'
    if not data.strip():
        return
    src = io.StringIO(data) if rng.random() < .5 else \
        io.BytesIO(data.encode('ascii'))
    try:
        p = cp.lazy_textpack(src)
    except ValueError:
        cx.count('raised')
    else:
        cx.fail('text with no numbers gave %r' % (p.data,))
    cx.sig('noguess', lines[:4])


PHASES = [Phase('lazy', lazy, 14000, 200000),
          Phase('override', override, 6000, 80000),
          Phase('noguess', noguess, 400, 5000)]
