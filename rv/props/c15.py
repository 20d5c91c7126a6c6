"""Same text content, same pack, from any kind of source."""
import contextlib
import io
import os
import pathlib
import tempfile

import channelpack as cp
from rv import gen, textgen as tg
from rv.core import Phase

PROP = 'C15'
LEVEL = 'exploration'
FILES = ['readtext.py']
RULE = ('One content (table with header, names, options) is read from a '
        'path, open text file, text stream, binary file and stream of '
        'bytes, from streams positioned after some other content, with '
        'debug on and off; all packs must have the same data, names and '
        'mask, and file name as documented, for textpack and '
        'lazy_textpack. Non-trivial: distinct (table, source kind, '
        'position, debug).')
ASSUME = ['encoding is given for byte sources, and is one where ascii '
          'characters are single bytes']


def src_path(cx, data, enc, pre):
    return tg.write(cx, data.encode(enc)), True


def open_text(cx, data, enc, pre):
    path = tg.write(cx, (pre + data).encode(enc), 'tx%d.txt' %
                    cx.rng.randint(0, 9))
    f = io.open(path, encoding=enc, newline=cx.rng.choice((None, None, '',
                                                           '\n')))
    for _ in range(pre.count('\n')):
        f.readline()
    return f, True


def open_binary(cx, data, enc, pre):
    path = tg.write(cx, (pre + data).encode(enc), 'bin.txt')
    f = io.open(path, 'rb', buffering=cx.rng.choice((-1, -1, 16, 0)))
    f.seek(len(pre.encode(enc)))
    return f, True


def stringio(cx, data, enc, pre):
    f = io.StringIO(pre + data, newline=cx.rng.choice(('\n', '')))
    f.seek(len(pre))
    return f, False


def bytesio(cx, data, enc, pre):
    f = io.BytesIO((pre + data).encode(enc))
    f.seek(len(pre.encode(enc)))
    return f, False


def wrapped(cx, data, enc, pre):
    """Text layer on bytes in memory, no name."""
    f = io.TextIOWrapper(io.BytesIO((pre + data).encode(enc)), encoding=enc)
    for _ in range(pre.count('\n')):
        f.readline()
    return f, False


def tempf(cx, data, enc, pre):
    """A file with a number for a name."""
    f = tempfile.TemporaryFile(dir=cx.tmp)
    f.write((pre + data).encode(enc))
    f.seek(len(pre.encode(enc)))
    return f, False


SOURCES = (src_path, open_text, open_binary, stringio, bytesio, wrapped,
           tempf)
BYTESRC = (open_binary, bytesio, tempf)


def same_pack(cx, p, q, what):
    cx.check(list(p.data) == list(q.data), what, 'channels', list(p.data),
             list(q.data))
    for k in p.data:
        d = gen.same_array(p.data[k], q.data[k])
        cx.check(d is None, what, 'channel', k, d)
    cx.check(dict(p.names) == dict(q.names) and
             all(type(p.names[k]) is type(q.names[k]) for k in p.names),
             what, 'names', dict(p.names), dict(q.names))
    d = gen.same_array(p.mask, q.mask)
    cx.check(d is None, what, 'mask', d)


def once(cx, func, mk, data, enc, pre, kw):
    """Read once, and what is to be its file name."""
    src, named = mk(cx, data, enc, pre)
    isbytes = mk in BYTESRC
    kw = dict(kw)
    if kw.get('delimiter') is not None and isbytes:
        kw['delimiter'] = kw['delimiter'].encode(enc)
    if isbytes or mk is src_path:
        kw['encoding'] = enc
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            p = func(src, **kw)
        if hasattr(src, 'read'):
            cx.check(not src.closed, mk.__name__, 'stream of the caller was '
                     'closed')
            want = src.name if named else ''
        else:
            want = src
        cx.check(type(p.fn) is str and p.fn == want, mk.__name__,
                 'file name', p.fn, 'expected', want)
        cx.check(list(p.filenames) == [want], mk.__name__, 'file names',
                 p.filenames)
    finally:
        if hasattr(src, 'close'):
            src.close()
    cx.count('reads by ' + mk.__name__)
    return p


PRES = ('', '', 'junk\n', '1;2;3\n4;5;6\n', 'é å ö\n\n', '9\n' * 30)


def equal(cx):
    rng = cx.rng
    enc = rng.choice(('utf-8', 'latin-1', 'utf-8', 'cp1252'))
    lazy = rng.random() < .4
    kw = {}
    if lazy:
        t = tg.LazyTable(cx)
        head, func = t.head, cp.lazy_textpack
        if rng.random() < .3:
            kw['usecols'] = rng.randrange(t.ncols)
        eol = '\n'
    else:
        t = tg.Table(cx, encoding=enc, nrows=rng.choice((1, 2, 3, 7, 40)))
        func = cp.textpack
        skip = rng.choice((0, 1, 2, 5))
        head = tg.header(rng, skip, 'ascii')
        kw.update(delimiter=t.delim, skiprows=skip)
        if rng.random() < .4:
            kw['stripstrings'] = True
        if skip and rng.random() < .5:
            head[-1] = tg.names_line(rng, t, tg.field_names(rng, t))
            kw['hasnames'] = True
        if rng.random() < .3:
            kw['usecols'] = rng.sample(range(t.ncols),
                                       rng.randint(1, t.ncols))
        eol = rng.choice(('\n', '\r\n'))
    # bytes.strip and str.strip differ in what is white outside of ascii
    if kw.get('stripstrings') and any('\x1c' <= c <= '\x1f' or c in
                                      '\x85\xa0' for ln in t.lines
                                      for c in ln):
        kw['stripstrings'] = False
    data = tg.content(rng, head + t.lines, eol)
    ref = once(cx, func, stringio, data, enc, '', kw)
    want = t.columns(kw.get('stripstrings', False)) if not lazy else \
        t.columns()
    for c in ref.data:
        d = tg.column_diff(ref.data[c], want[c])
        cx.check(d is None, 'column', c, d)
    for mk in rng.sample(SOURCES, 4):
        pre = rng.choice(PRES)
        kw2 = dict(kw)
        if rng.random() < .4:
            kw2['debug'] = True
        cx.note(mk.__name__, enc, 'before:', repr(pre), kw2)
        p = once(cx, func, mk, data, enc, pre, kw2)
        same_pack(cx, p, ref, '%s %s against a text stream' %
                  (func.__name__, mk.__name__))
        cx.sig(mk.__name__, func.__name__, enc, bool(pre),
               kw2.get('debug'), data[:60])


PHASES = [Phase('equal', equal, 24000, 100000)]
