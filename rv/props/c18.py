"""Readers release what they open and leave callers' streams open."""
import builtins
import contextlib
import errno
import io
import mmap
import os
import sys

import channelpack as cp
from channelpack import xlrd
from rv import dbfgen
from rv import textgen as tg
from rv import xlsgen
from rv import xlsxgen
from rv.core import Phase
from rv.props import c15
from rv.props import c22
from rv.props import c23
from rv.props.c30 import open_files, place

PROP = 'C18'
LEVEL = 'fault_enumeration'
FILES = ['readtext.py', 'dbf.py', 'readxl.py', 'xlrd/__init__.py',
         'xlrd/book.py', 'xlrd/xlsx.py']
RULE = ('Every open of a file under test goes to an instrumented raw file '
        'that counts its operations (open, read, seek, tell, close, and '
        'memory map). A read is made fault free, with its operations '
        'counted, and then again with each operation failing in turn (all '
        'of them when at most 40, else a sample with the ends). Streams '
        'of the caller are instrumented the same way. While the exception '
        'is held, the descriptors of the process, the streams of the '
        'caller, and the bytes and list of files on disk are compared '
        'with those before; a read that returns must give what the fault '
        'free read gave. Converters raising at each call, malformed '
        'contents, bad arguments and short reads likewise. Non-trivial: '
        'distinct (reader, source, operation failed, outcome with place '
        'raised).')
ASSUME = ['a close that fails has closed the descriptor, as on Linux',
          'exceptions are of class Exception (not interrupts from the '
          'keyboard)']


class Plan(object):
    """Counts operations; one of them fails."""

    def __init__(self, fail=None, exc=None, bufsize=8192, chunk=8192,
                 short=None):
        self.fail, self.exc = fail, exc
        self.bufsize, self.chunk, self.short = bufsize, chunk, short
        self.n = 0
        self.ops = []
        self.hit = None
        self.off = False

    def op(self, kind):
        if self.off:
            return
        self.n += 1
        self.ops.append(kind)
        if self.fail == self.n:
            self.hit = kind
            raise self.exc

    def size(self, n):
        if self.short is None or n <= 1:
            return n
        return self.short.randint(1, n)


class RawFile(io.FileIO):
    plan = None

    def readinto(self, b):
        self.plan.op('read')
        m = memoryview(b).cast('B')
        return io.FileIO.readinto(self, m[:self.plan.size(len(m))])

    def read(self, n=-1):
        self.plan.op('read')
        if n is not None and n > 0:
            n = self.plan.size(n)
        return io.FileIO.read(self, n)

    def readall(self):
        self.plan.op('read')
        return io.FileIO.readall(self)

    def seek(self, *args):
        self.plan.op('seek')
        return io.FileIO.seek(self, *args)

    def tell(self):
        self.plan.op('tell')
        return io.FileIO.tell(self)

    def close(self):
        was = self.closed
        io.FileIO.close(self)
        if not was:
            self.plan.op('close')


def opener(plan, top):
    """The open function of the interpreter on raw files of a plan."""
    real = io.open

    def open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        mine = isinstance(file, (str, os.PathLike)) and \
            os.path.abspath(os.fspath(file)).startswith(top)
        if plan.off or not mine or set(mode) & set('wax+'):
            return real(file, mode, buffering, encoding, errors, newline,
                        closefd, opener)
        plan.op('open')
        raw = RawFile(file, 'r')
        raw.plan = plan
        try:
            if 'b' in mode:
                if buffering == 0:
                    return raw
                return io.BufferedReader(raw, plan.bufsize)
            f = io.TextIOWrapper(io.BufferedReader(raw, plan.bufsize),
                                 encoding, errors, newline)
            f._CHUNK_SIZE = plan.chunk
            f.mode = mode
            return f
        except BaseException:
            io.FileIO.close(raw)
            raise
    return open


@contextlib.contextmanager
def instrumented(plan, top):
    """All ways to open are by the plan."""
    new = opener(plan, top)
    old = io.open
    oldmap = mmap.mmap

    def newmap(*args, **kw):
        plan.op('mmap')
        return oldmap(*args, **kw)
    saved = [(builtins, 'open', builtins.open), (io, 'open', io.open),
             (mmap, 'mmap', mmap.mmap)]
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] == 'channelpack' and mod is not None:
            for attr, val in list(vars(mod).items()):
                if val is old or val is oldmap:
                    saved.append((mod, attr, val))
    for mod, attr, val in saved:
        setattr(mod, attr, newmap if val is oldmap else new)
    try:
        yield
    finally:
        plan.off = True
        for mod, attr, val in saved:
            setattr(mod, attr, val)


class Injected(Exception):
    pass


def some_exception(rng):
    return rng.choice((
        lambda: OSError(errno.EIO, 'Input/output error'),
        lambda: OSError(errno.EIO, 'Input/output error'),
        lambda: OSError(errno.ENOSPC, 'No space left on device'),
        lambda: OSError(errno.ESTALE, 'Stale file handle'),
        lambda: MemoryError(),
        lambda: ValueError('injected'),
        lambda: Injected('injected')))()


def snapshot(d):
    res = {}
    for base, _, names in os.walk(d):
        for nm in names:
            p = os.path.join(base, nm)
            st = os.stat(p)
            with open(p, 'rb') as f:
                res[p] = (f.read(), st.st_mtime_ns, st.st_mode)
    return res


# the readers: each makes (name, call(source) -> result, source kinds)

def dump(book):
    out = []
    for ws in book.sheets():
        out.append((ws.name, ws.nrows, ws.ncols))
        for r in range(ws.nrows):
            out.append(repr([(t, str(v)) for t, v in zip(
                ws.row_types(r), ws.row_values(r))]))
    return out


def same(cx, a, b, what):
    if isinstance(a, cp.ChannelPack):
        c15.same_pack(cx, a, b, what)
    else:
        cx.check(a == b, what, a, b)


class Reader(object):
    def __init__(self, name, data, ext, call, kinds, isopen=None):
        self.name, self.data, self.ext, self.call, self.kinds = (
            name, data, ext, call, kinds)
        self.enc = 'utf-8'


def text_reader(cx, converter=None):
    rng = cx.rng
    enc = rng.choice(('utf-8', 'latin-1'))
    kw = {}
    conv = {}
    if rng.random() < .4:
        t = tg.LazyTable(cx)
        func, name = cp.lazy_textpack, 'lazy_textpack'
        head = t.head
    else:
        t = tg.Table(cx, encoding=enc, nrows=rng.choice((1, 2, 5, 30)))
        func, name = cp.textpack, 'textpack'
        skip = rng.choice((0, 1, 3))
        head = tg.header(rng, skip, 'ascii')
        kw.update(delimiter=t.delim, skiprows=skip)
        if skip and rng.random() < .5:
            head[-1] = tg.names_line(rng, t, tg.field_names(rng, t))
            kw['hasnames'] = True
    if converter:
        conv = {c: converter for c in range(t.ncols)}
        kw['converters'] = conv
    if rng.random() < .3:
        kw['debug'] = True
    data = tg.content(rng, head + t.lines, '\n').encode(enc)

    def call(src, isbytes):
        k = dict(kw)
        if isbytes and k.get('delimiter') is not None:
            k['delimiter'] = k['delimiter'].encode(enc)
        if isbytes or isinstance(src, str):
            k['encoding'] = enc
        with contextlib.redirect_stdout(io.StringIO()):
            return func(src, **k)
    r = Reader(name, data, 'txt', call, ('path', 'path', 'text', 'binary',
                                         'raw'))
    r.enc = enc
    return r


def dbf_reader(cx):
    rng = cx.rng
    d = dbfgen.Dbf(cx, nrecs=rng.choice((0, 1, 3, 12)),
                   nfields=rng.choice((1, 2, 4)))
    names = None
    if rng.random() < .5:
        names = [f[0] for f in rng.sample(d.fields, rng.randint(
            1, len(d.fields)))]

    def call(src, isbytes):
        return cp.dbfpack(src, names)
    return Reader('dbfpack' if not names else 'dbfpack names', d.file(),
                  'dbf', call, ('path', 'path', 'binary', 'raw'))


def book_data(cx):
    rng = cx.rng
    if rng.random() < .5:
        wb = c22.model(rng, far=0)
        return 'xlsx', xlsxgen.write(wb, rng)[0]
    bv = rng.choice((80, 80, 80, 70, 50, 45, 40, 30, 20))
    wb = c23.model(rng, bv, far=0)
    return 'xls', xlsgen.write(wb, rng, bv)[0]


def book_reader(cx):
    rng = cx.rng
    ext, data = book_data(cx)
    kw = dict(use_mmap=rng.randint(0, 1))
    if rng.random() < .3 and ext == 'xls':
        kw['formatting_info'] = True
    if rng.random() < .3:
        kw['ragged_rows'] = True
    if rng.random() < .4:
        kw['on_demand'] = True
    managed = rng.random() < .6
    unload = rng.random() < .5

    def call(src, isbytes):
        log = io.StringIO()
        if managed:
            with xlrd.open_workbook(src, logfile=log, **kw) as book:
                if unload and kw.get('on_demand'):
                    book.sheet_by_index(0)
                    book.unload_sheet(0)
                return dump(book)
        book = xlrd.open_workbook(src, logfile=log, **kw)
        try:
            return dump(book)
        finally:
            book.release_resources()
    return Reader('open_workbook %s %s' % (ext, ' '.join(sorted(
        k for k in kw if kw[k]))), data, ext, call, ('path',))


def sheet_reader(cx):
    rng = cx.rng
    ext, data = book_data(cx)

    def call(src, isbytes):
        return cp.sheetpack(src, header=False)
    return Reader('sheetpack ' + ext, data, ext, call, ('path',))


READERS = (text_reader, text_reader, dbf_reader, book_reader, sheet_reader)


def make_source(rd, kind, path, plan):
    """A stream of the caller on the file, or the path."""
    if kind == 'path':
        return path, False
    raw = RawFile(path, 'r')
    raw.plan = plan
    if kind == 'raw':
        return raw, True
    buf = io.BufferedReader(raw, plan.bufsize)
    if kind == 'binary':
        return buf, True
    f = io.TextIOWrapper(buf, encoding=rd.enc)
    f._CHUNK_SIZE = plan.chunk
    return f, False


def attempt(cx, rd, kind, path, plan):
    """Read by the plan, and watch. Return (result, exception)."""
    plan.off = kind != 'path'
    src, isbytes = make_source(rd, kind, path, plan)
    before = open_files()
    files = snapshot(cx.tmp)
    plan.off = False
    res = held = None
    with instrumented(plan, cx.tmp):
        try:
            res = rd.call(src, isbytes)
        except Exception as e:
            held = e
    after = open_files()
    left = {k: v for k, v in after.items() if before.get(k) != v}
    gone = [v for k, v in before.items() if k not in after]
    what = '%s from %s, operation %s (%s) failing:' % (
        rd.name, kind, plan.fail, plan.hit)
    out = 'raised %r at %s' % (held, place(held)) if held else 'returned'
    cx.check(not left, what, out, 'and left open', sorted(left.values()))
    cx.check(not gone, what, out, 'and closed', gone)
    if kind != 'path':
        cx.check(not src.closed, what, out, 'and closed the stream')
        plan.off = True
        src.close()
    now = snapshot(cx.tmp)
    cx.check(sorted(now) == sorted(files), what, 'files', sorted(now))
    cx.check(now == files, what, 'files were modified')
    cx.count('assertions', 2)
    cx.count('descriptor checks')
    return res, held


def outcome(held):
    return 'ok' if held is None else '%s at %s' % (type(held).__name__,
                                                    place(held))


def plan_sizes(rng):
    return dict(bufsize=rng.choice((1, 64, 512, 8192)),
                chunk=rng.choice((1, 16, 100, 8192)))


def faults(cx):
    rng = cx.rng
    rd = rng.choice(READERS)(cx)
    kind = rng.choice(rd.kinds)
    path = os.path.join(cx.tmp, 'f.' + rd.ext)
    with open(path, 'wb') as f:
        f.write(rd.data)
    sizes = plan_sizes(rng)
    plan = Plan(**sizes)
    want, held = attempt(cx, rd, kind, path, plan)
    cx.note(rd.name, kind, sizes, 'operations', plan.n, outcome(held))
    cx.count('fault free reads')
    if held is not None:
        # valid content, but can be nothing to make a pack of
        cx.count('fault free reads raising ' + type(held).__name__)
        cx.sig(rd.name, kind, None, outcome(held))
        return
    n = plan.n
    at = list(range(1, n + 1))
    if n > 40:
        at = at[:12] + at[-12:] + rng.sample(at[12:-12], 16)
    for k in at:
        plan = Plan(k, some_exception(rng), **sizes)
        res, held = attempt(cx, rd, kind, path, plan)
        if plan.hit is None:
            # fewer operations this time
            cx.count('operations not made again')
        cx.count('failed: %s' % plan.hit)
        if held is None:
            same(cx, res, want, '%s from %s returned, with operation %d (%s)'
                 ' failing, but not as with no fault:' % (
                     rd.name, kind, k, plan.hit))
            cx.count('reads that returned in spite of a fault')
        else:
            cx.count('reads that raised')
        cx.sig(rd.name, kind, plan.hit, outcome(held))
        held = res = None


def short(cx):
    """Reads from the system are shorter than asked for."""
    rng = cx.rng
    rd = rng.choice(READERS)(cx)
    kind = rng.choice([k for k in rd.kinds if k != 'raw'])
    path = os.path.join(cx.tmp, 'f.' + rd.ext)
    with open(path, 'wb') as f:
        f.write(rd.data)
    want, held = attempt(cx, rd, kind, path, Plan())
    if held is not None:
        return
    plan = Plan(short=rng, **plan_sizes(rng))
    cx.note(rd.name, kind, plan.bufsize, plan.chunk)
    res, held = attempt(cx, rd, kind, path, plan)
    cx.check(held is None, rd.name, kind, 'with short reads raised', held)
    same(cx, res, want, '%s from %s with short reads:' % (rd.name, kind))
    cx.count('short reads', plan.n)
    cx.sig(rd.name, kind, plan.bufsize, plan.chunk, plan.n)


def converters(cx):
    rng = cx.rng
    state = dict(n=0, fail=None, exc=None)

    def conv(s):
        state['n'] += 1
        if state['n'] == state['fail']:
            raise state['exc']
        return len(s)
    rd = text_reader(cx, conv)
    kind = rng.choice(rd.kinds)
    path = os.path.join(cx.tmp, 'f.txt')
    with open(path, 'wb') as f:
        f.write(rd.data)
    res, held = attempt(cx, rd, kind, path, Plan())
    cx.check(held is None, rd.name, kind, 'raised', held)
    n = state['n']
    cx.check(n > 0, 'no converter was called')
    cx.note(rd.name, kind, 'calls of converters', n)
    for k in sorted({1, n, rng.randint(1, n), rng.randint(1, n)}):
        state.update(n=0, fail=k, exc=some_exception(rng))
        res, held = attempt(cx, rd, kind, path, Plan())
        if type(held) is not type(state['exc']):
            cx.fail('%s from %s: converter raised %r at call %d of %d, the '
                    'reader %s' % (rd.name, kind, state['exc'], k, n,
                                   held or 'returned'))
        cx.sig(rd.name, kind, k == 1, k == n, outcome(held))
        cx.count('converters that raised')


def malformed(cx):
    rng = cx.rng
    rd = rng.choice((text_reader, dbf_reader, sheet_reader,
                     book_reader))(cx)
    kind = rng.choice(rd.kinds)
    b = bytearray(rd.data)
    what = rng.choice(('cut', 'flip', 'junk', 'empty', 'tail', 'gap',
                       'short'))
    if what == 'cut':
        del b[rng.randint(0, len(b)):]
    elif what == 'short':
        del b[rng.randint(0, 40):]
    elif what == 'flip':
        for _ in range(rng.choice((1, 2, 5, 20))):
            if b:
                b[rng.randrange(len(b))] = rng.choice((0, 255, 0x80, 0xc3,
                                                       10, 9, 32, 44, rng.
                                                       randrange(256)))
    elif what == 'junk':
        b = bytearray(rng.randbytes(rng.choice((1, 3, 30, 600))))
        if rng.random() < .5:
            b[:4] = rng.choice((b'PK\3\4', b'\xd0\xcf\x11\xe0', b'\x09\x08',
                                b'\x03abc'))
    elif what == 'empty':
        del b[:]
    elif what == 'tail':
        b += rng.randbytes(rng.choice((1, 30))) if rng.random() < .5 else \
            b'x y; z, 9\n\xff\xfe\n'
    else:
        k = rng.randint(0, len(b))
        del b[k:k + rng.choice((1, 2, 9, 100))]
    path = os.path.join(cx.tmp, 'f.' + rd.ext)
    with open(path, 'wb') as f:
        f.write(b)
    cx.note(rd.name, kind, what)
    res, held = attempt(cx, rd, kind, path, Plan(**plan_sizes(rng)))
    cx.count('malformed contents that %s' % ('raised' if held else
                                             'were read'))
    cx.sig(rd.name, kind, what, outcome(held))


BAD = {
    'textpack': (dict(encoding='no-such-encoding'), dict(encoding='utf-16'),
                 dict(usecols=[0, 900]), dict(names={900: 'a'}),
                 dict(converters={0: None}), dict(converters={0: 7}),
                 dict(delimiter=7), dict(delimiter=''), dict(skiprows=900),
                 dict(hasnames=True, skiprows=500), dict(names=7),
                 dict(skiprows=None), dict(usecols='no'),
                 dict(names={'a': 'b'})),
    'lazy_textpack': (dict(encoding='no-such-encoding'), dict(parselines=0),
                      dict(parselines=None), dict(usecols=[0, 900]),
                      dict(names={900: 'a'}), dict(nosuch=1),
                      dict(encoding='utf-16'), dict(skiprows=800)),
    'dbfpack': (dict(names=['no such']), dict(names=7), dict(names=[7])),
    'sheetpack': (dict(sheet=99), dict(sheet='no such sheet'),
                  dict(usecols=[900]), dict(startcell='A900'),
                  dict(stopcell='ZZ1'), dict(header='XX99'),
                  dict(sheet=None), dict(usecols='?'), dict(sheet=1.5),
                  dict(startcell='C9', stopcell='A1'), dict(header='?')),
    'open_workbook': (dict(encoding_override='no-such'),
                      dict(encoding_override='ascii'), dict(logfile=None),
                      dict(logfile=None, verbosity=2),
                      dict(formatting_info=True)),
}


def arguments(cx):
    """Arguments that do not fit the content."""
    rng = cx.rng
    mk = rng.choice((text_reader, dbf_reader, sheet_reader, book_reader))
    rd = mk(cx)
    name = rd.name.split()[0]
    kw = rng.choice(BAD[name])
    func = getattr(cp, name) if name != 'open_workbook' else \
        xlrd.open_workbook
    kind = rng.choice(rd.kinds)

    def call(src, isbytes):
        with contextlib.redirect_stdout(io.StringIO()):
            res = func(src, **kw)
            if name == 'open_workbook':
                with res:
                    dump(res)
            return res
    rd.call = call
    path = os.path.join(cx.tmp, 'f.' + rd.ext)
    missing = kind == 'path' and rng.random() < .1
    if not missing:
        with open(path, 'wb') as f:
            f.write(rd.data)
    elif rng.random() < .5:
        os.mkdir(path)
    cx.note(rd.name, kind, kw)
    res, held = attempt(cx, rd, kind, path, Plan())
    cx.check(held is not None or not missing, rd.name,
             'no file, and no error')
    cx.count('bad arguments that %s' % ('raised' if held else 'were taken'))
    cx.sig(rd.name, kind, sorted(kw.items(), key=repr), outcome(held))


PHASES = [Phase('faults', faults, 3600, 20000),
          Phase('short', short, 2400, 12000),
          Phase('converters', converters, 3600, 20000),
          Phase('malformed', malformed, 16000, 100000),
          Phase('arguments', arguments, 10000, 30000)]
