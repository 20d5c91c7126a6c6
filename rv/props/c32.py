"""Every read stands alone."""
import contextlib
import copy
import io
import os
import pickle
import random
import signal
import struct
import sys
import threading
import time

import numpy as np

import channelpack as cp
from channelpack import xlrd
from rv import core
from rv import dbfgen
from rv import gen
from rv import textgen as tg
from rv.core import Phase
from rv.props import c18
from rv.props import c25

PROP = 'C32'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring of the real code in random histories and '
             'in threads with forced switches, against the outcome in a '
             'pristine process')
FILES = ['readtext.py', 'dbf.py', 'readxl.py', 'pack.py', 'xlrd/__init__.py',
         'xlrd/book.py', 'xlrd/sheet.py', 'xlrd/xlsx.py']
RULE = ('A handful of reading tasks (all readers, all kinds of sources and '
        'arguments, valid and damaged content) are made. The outcome of '
        'each is first had from a process forked off before anything was '
        'read. Then the tasks are run over and over in random order, with '
        'the packs handed out being altered by the caller in between, or '
        'in several threads with thread switches forced inside of the code '
        'under test; every outcome must be that of the pristine process, '
        'all results handed out and not altered must stay as they were, '
        'and arguments must be left alone. Non-trivial: distinct (order of '
        'tasks, outcomes), in threads distinct sequences of switches with '
        'at least one switch inside of a read.')
ASSUME = ['each thread has its own source; the caller does not change the '
          'files meanwhile']


# -- outcomes in a form that can be compared and sent

def form(v):
    if isinstance(v, float) and v != v:
        return 'nan'
    return repr(v)


def canonical(res):
    if isinstance(res, cp.ChannelPack):
        return ('pack', [(k, str(res.data[k].dtype),
                          [form(e) for e in res.data[k].tolist()])
                         for k in res.data],
                sorted(res.names.items(), key=repr), list(res.filenames),
                res.mask.tolist(), str(res.mask.dtype), res.nof, res.mindur,
                res.FALLBACK_PREFIX, res.fn)
    return ('other', res)


def outcome(task):
    try:
        r = task.run()
    except Exception as e:
        return None, ('raised', type(e).__name__)
    return r, canonical(r)


class Task(object):
    def __init__(self, name, make, func, args, kw):
        self.name, self.make, self.func = name, make, func
        self.args, self.kw = args, kw
        self.frozen = None

    def freeze(self):
        self.frozen = copy.deepcopy((self.args, {
            k: v for k, v in self.kw.items() if k != 'converters'}))
        self.frozenconv = dict(self.kw.get('converters') or {})

    def intact(self):
        return repr(self.frozen) == repr((self.args, {
            k: v for k, v in self.kw.items() if k != 'converters'})) and \
            self.frozenconv == (self.kw.get('converters') or {})

    def run(self):
        src = self.make()
        try:
            return self.func(src, *self.args, **self.kw)
        finally:
            if hasattr(src, 'close'):
                src.close()


def textconv(s):
    return 'c:' + str(s)


def lenconv(s):
    return len(s)


def source(rng, path, data, enc, text):
    kind = rng.choice(('path', 'path', 'stream', 'file', 'bytes', 'bfile'))
    if not text and kind in ('stream', 'file'):
        kind = 'bfile'
    if kind == 'path':
        return kind, lambda: path
    if kind == 'stream':
        s = data.decode(enc)
        return kind, lambda: io.StringIO(s)
    if kind == 'file':
        return kind, lambda: io.open(path, encoding=enc)
    if kind == 'bytes':
        return kind, lambda: io.BytesIO(data)
    return kind, lambda: io.open(path, 'rb')


def save(cx, i, ext, data):
    path = os.path.join(cx.tmp, 'f%d.%s' % (i, ext))
    with open(path, 'wb') as f:
        f.write(data)
    return path


def text_task(cx, i):
    rng = cx.rng
    enc = rng.choice(('utf-8', 'latin-1'))
    kw = {}
    if rng.random() < .4:
        t = tg.LazyTable(cx)
        func, name = cp.lazy_textpack, 'lazy_textpack'
        head = t.head
        if rng.random() < .3:
            kw['usecols'] = [rng.randrange(t.ncols) for _ in range(2)]
        if rng.random() < .3:
            kw['skiprows'] = len(head)
    else:
        t = tg.Table(cx, encoding=enc, nrows=rng.choice((1, 2, 5, 30)))
        func, name = cp.textpack, 'textpack'
        skip = rng.choice((0, 1, 3))
        head = tg.header(rng, skip, 'ascii')
        kw.update(delimiter=t.delim, skiprows=skip)
        r = rng.random()
        if skip and r < .5:
            head[-1] = tg.names_line(rng, t, tg.field_names(rng, t))
            kw['hasnames'] = True
        elif r < .75:
            kw['names'] = {c: 'n%d' % c for c in rng.sample(
                range(t.ncols), rng.randint(1, t.ncols))}
        if 'names' not in kw and rng.random() < .4:
            kw['usecols'] = [rng.randrange(t.ncols) for _ in
                             range(rng.randint(1, 3))]
        if rng.random() < .3:
            kw['stripstrings'] = True
    if rng.random() < .3:
        kw['converters'] = {c: rng.choice((textconv, lenconv)) for c in
                            rng.sample(range(t.ncols),
                                       rng.randint(1, t.ncols))}
    data = tg.content(rng, head + t.lines, '\n').encode(enc)
    if rng.random() < .25:
        data = damage(rng, data)
    path = save(cx, i, 'txt', data)
    try:
        kind, mk = source(rng, path, data, enc, True)
    except UnicodeDecodeError:
        kind, mk = 'path', lambda: path
    if kind in ('path', 'bytes', 'bfile'):
        kw['encoding'] = enc
    if kind in ('bytes', 'bfile') and kw.get('delimiter') is not None:
        kw['delimiter'] = kw['delimiter'].encode(enc)
    return Task(name + ' ' + kind, mk, func, (), kw)


def damage(rng, data):
    r = rng.random()
    if r < .5 and len(data) > 2:
        return data[:rng.randrange(1, len(data))]
    b = bytearray(data)
    for _ in range(rng.choice((1, 1, 3, 10))):
        if b:
            b[rng.randrange(len(b))] = rng.randrange(256)
    return bytes(b)


def dbf_task(cx, i):
    rng = cx.rng
    d = dbfgen.Dbf(cx, nrecs=rng.choice((0, 1, 3, 12)),
                   nfields=rng.choice((1, 2, 4)))
    args = ()
    if rng.random() < .5:
        args = ([f[0] for f in rng.sample(d.fields, rng.randint(
            1, len(d.fields)))],)
    data = d.file()
    if rng.random() < .25:
        data = damage(rng, data)
    path = save(cx, i, 'dbf', data)
    kind, mk = source(rng, path, data, None, False)
    return Task('dbfpack ' + kind, mk, cp.dbfpack, args, {})


def read_book(path, **kw):
    log = io.StringIO()
    book = xlrd.open_workbook(path, logfile=log, **kw)
    try:
        return c18.dump(book), [
            (n.name, n.scope, n.hidden) for n in book.name_obj_list], \
            [(s.name, s.visibility, sorted(s.merged_cells)) for s in
             book.sheets()]
    finally:
        book.release_resources()


def book_bytes(data, **kw):
    log = io.StringIO()
    with xlrd.open_workbook(file_contents=data, logfile=log, **kw) as book:
        return c18.dump(book)


def book_task(cx, i):
    rng = cx.rng
    ext, data = c18.book_data(cx)
    if rng.random() < .25:
        # damage of few bytes only: the work must stay small
        data = data[:rng.randrange(1, len(data))]
    path = save(cx, i, ext, data)
    if rng.random() < .4:
        kw = dict(header=rng.random() < .5)
        if rng.random() < .3:
            kw['usecols'] = [rng.randint(0, 3) for _ in range(2)]
        elif rng.random() < .3:
            kw['usecols'] = 'A:' + c25.letters(rng.randint(0, 3))
        return Task('sheetpack ' + ext, lambda: path, cp.sheetpack, (), kw)
    kw = {}
    if rng.random() < .3:
        kw['ragged_rows'] = True
    if rng.random() < .3:
        kw['on_demand'] = True
    if rng.random() < .3 and ext == 'xls':
        kw['formatting_info'] = True
    if rng.random() < .4:
        return Task('open_workbook bytes ' + ext, lambda: data, book_bytes,
                    (), kw)
    kw['use_mmap'] = rng.randint(0, 1)
    return Task('open_workbook ' + ext, lambda: path, read_book, (), kw)


MAKERS = (text_task, text_task, text_task, dbf_task, book_task, book_task)


def tasks(cx):
    res = []
    makers = MAKERS
    if cx.rng.random() < .4:
        # all by the same reader
        makers = [cx.rng.choice(MAKERS)]
    for i in range(cx.rng.choice((2, 3, 4, 5))):
        if res and cx.rng.random() < .25:
            # another way to read the very same file
            t = cx.rng.choice(res)
            if t.func in (cp.textpack, cp.lazy_textpack) and \
                    t.kw.get('encoding') and 'path' in t.name:
                kw = {k: v for k, v in t.kw.items() if k == 'encoding'}
                res.append(Task('lazy_textpack again', t.make,
                                cp.lazy_textpack, (), kw))
                continue
            if t.func is cp.sheetpack:
                res.append(Task('sheetpack again', t.make, cp.sheetpack, (),
                                dict(header=not t.kw['header'])))
                continue
        res.append(cx.rng.choice(makers)(cx, i))
    return res


# -- a pristine process

class Pristine(object):
    """A process forked before any read, forking one for each task."""

    def __init__(self):
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                self.serve(a, b)
            finally:
                os._exit(0)
        os.close(a)
        os.close(b)

    @staticmethod
    def get(fd, n):
        out = b''
        while len(out) < n:
            s = os.read(fd, n - len(out))
            if not s:
                raise EOFError
            out += s
        return out

    @classmethod
    def recv(cls, fd):
        n, = struct.unpack('<I', cls.get(fd, 4))
        return pickle.loads(cls.get(fd, n))

    @staticmethod
    def send(fd, obj):
        s = pickle.dumps(obj)
        s = struct.pack('<I', len(s)) + s
        while s:
            s = s[os.write(fd, s):]

    def serve(self, a, b):
        while True:
            try:
                phase, index, seed, tier, tmp, ntasks = self.recv(a)
            except EOFError:
                return
            self.forked(self.case, b, phase, index, seed, tier, tmp, ntasks)

    def forked(self, func, *args):
        pid = os.fork()
        if pid == 0:
            try:
                func(*args)
            finally:
                os._exit(0)
        return os.waitpid(pid, 0)[1]

    def case(self, b, phase, index, seed, tier, tmp, ntasks):
        cx = core.Case(PROP, phase, index, seed, core.Stats(), tier)
        cx._tmp = tmp
        ts = tasks(cx)
        for t in ts[:ntasks]:
            if self.forked(self.one, b, t):
                self.send(b, ('broken', 'died'))

    def one(self, b, task):
        signal.setitimer(signal.ITIMER_VIRTUAL, 60)
        try:
            out = outcome(task)[1]
        except BaseException as e:
            out = ('broken', repr(e))
        self.send(b, out)

    def ask(self, cx, n):
        self.send(self.w, (cx.phase, cx.index, cx.seed, cx.tier, cx.tmp, n))
        return [self.recv(self.r) for _ in range(n)]


PRISTINE = None


def setup(cx):
    """The tasks and their outcomes in a process of their own."""
    global PRISTINE
    if PRISTINE is None or PRISTINE[0] != os.getpid():
        PRISTINE = (os.getpid(), Pristine())
    ts = tasks(cx)
    want = PRISTINE[1].ask(cx, len(ts))
    for t, w in zip(ts, want):
        t.freeze()
        cx.check(w[0] != 'broken', 'the pristine process failed:', w)
        cx.note(t.name, t.args, {k: v for k, v in t.kw.items()},
                '->', w[0] if w[0] != 'raised' else w)
        cx.count('tasks with outcome ' + (w[0] if w[0] != 'raised'
                                          else 'exception'))
    return ts, want


def alter(cx, p):
    """The caller does things to a pack handed out."""
    rng = cx.rng
    k = rng.randint(0, 9)
    if k == 0:
        p.FALLBACK_PREFIX = rng.choice(('zz', 'data', '_q'))
    elif k == 1:
        p.nof = rng.choice(('nan', 'filter'))
    elif k == 2:
        p.mindur = rng.randint(1, 4)
    elif k == 3:
        p.mask = np.array(gen.boolmask(rng, len(p.mask)), dtype=bool)
    elif k == 4:
        for key in list(p.data):
            a = p.data[key]
            if len(a) and a.flags.writeable:
                a[rng.randrange(len(a))] = a[rng.randrange(len(a))]
                a[:] = a[::-1].copy()
    elif k == 5:
        p.names[rng.randint(0, 9)] = 'altered'
    elif k == 6:
        p.data.clear()
        p.names.clear()
    elif k == 7:
        with contextlib.suppress(ValueError):
            p.append_pack(p)
    elif k == 8:
        p.fn = 'altered'
        p.filenames.append('more')
    else:
        for key in list(p.names):
            p.names[key] = str(p.names[key]) + 'x'
    return k


def sequence(cx):
    rng = cx.rng
    ts, want = setup(cx)
    held = []
    order = []
    for _ in range(rng.randint(4, 14)):
        i = rng.randrange(len(ts))
        t = ts[i]
        order.append(i)
        res, got = outcome(t)
        cx.check(got == want[i], t.name, 'in the order', order, 'gave', got,
                 'and alone in a process', want[i])
        cx.check(t.intact(), t.name, 'altered its arguments to', t.args,
                 t.kw, 'from', t.frozen)
        if isinstance(res, cp.ChannelPack):
            held.append([res, got])
            if rng.random() < .5:
                h = rng.choice(held)
                k = alter(cx, h[0])
                h[1] = canonical(h[0])
                order.append('alter %d' % k)
        for p, was in held:
            now = canonical(p)
            cx.check(now == was, 'after', order, 'a pack handed out before '
                     'is', now, 'and was', was)
    cx.count('reads', sum(1 for o in order if isinstance(o, int)))
    cx.sig(order, [(t.name, w[0]) for t, w in zip(ts, want)])


class Switcher(object):
    """Force thread switches in the code under test and record them."""

    def __init__(self, seed, p):
        self.state = seed
        self.p = p
        self.last = None
        self.trail = []

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(4, 'rv-switch')
        pkg = core.PKG + os.sep
        names = {}

        def on_start(code, offset):
            if not code.co_filename.startswith(pkg):
                return mon.DISABLE
            me = threading.get_ident()
            if self.last is not None and self.last != me and \
                    len(self.trail) < 4000:
                self.trail.append((names.setdefault(me, len(names)),
                                   code.co_name))
            self.last = me
            self.state = (self.state * 1103515245 + 12345) & 0x7fffffff
            if (self.state >> 8) % 1000 < self.p:
                time.sleep(0)
        mon.register_callback(4, mon.events.PY_START, on_start)
        mon.set_events(4, mon.events.PY_START)
        return self

    def __exit__(self, *args):
        mon = sys.monitoring
        mon.set_events(4, 0)
        mon.register_callback(4, mon.events.PY_START, None)
        mon.free_tool_id(4)


class Baton(object):
    """One thread runs at a time, handing over at lines of the code.

    The switches are decided by the seed only, not by the clock. A thread
    that has waited long (for one blocked on a lock, say) goes on anyhow.

    """

    def __init__(self, seed, p):
        self.rng = random.Random(seed)
        self.p = p / 1000.
        self.trail = []
        self.sems = {}
        self.ids = []
        self.done = set()
        self.late = 0

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(4, 'rv-switch')
        pkg = core.PKG + os.sep

        def on_line(code, line):
            if not code.co_filename.startswith(pkg):
                return mon.DISABLE
            me = threading.get_ident()
            if me in self.sems and self.rng.random() < self.p:
                self.hand_over(me, code.co_name, line)
        mon.register_callback(4, mon.events.LINE, on_line)
        mon.set_events(4, mon.events.LINE)
        return self

    def join(self, k, n):
        """Called first by thread k of n."""
        self.sems[threading.get_ident()] = (k, threading.Semaphore(0))
        if k:
            self.sems[threading.get_ident()][1].acquire(timeout=2)
        else:
            while len(self.sems) < n:
                time.sleep(.0001)

    def leave(self):
        me = threading.get_ident()
        self.done.add(me)
        rest = [i for i in self.sems if i not in self.done]
        if rest:
            rest.sort(key=lambda i: self.sems[i][0])
            self.sems[self.rng.choice(rest)][1].release()

    def hand_over(self, me, name, line):
        rest = [i for i in self.sems if i not in self.done]
        rest.sort(key=lambda i: self.sems[i][0])
        other = self.rng.choice(rest)
        if other == me:
            return
        if len(self.trail) < 4000:
            self.trail.append((self.sems[other][0], name, line))
        self.sems[other][1].release()
        if not self.sems[me][1].acquire(timeout=1):
            self.late += 1

    def __exit__(self, *args):
        mon = sys.monitoring
        mon.set_events(4, 0)
        mon.register_callback(4, mon.events.LINE, None)
        mon.free_tool_id(4)


def threads(cx):
    rng = cx.rng
    ts, want = setup(cx)
    n = rng.choice((2, 2, 3, 4))
    plans = [[rng.randrange(len(ts)) for _ in range(rng.randint(1, 4))]
             for _ in range(n)]
    cx.note('threads', plans)
    got = [[] for _ in range(n)]
    held = []
    start = threading.Barrier(n)

    turns = rng.random() < .6
    if turns:
        how = Baton(rng.randrange(1 << 30), rng.choice((5, 30, 100, 300,
                                                        1000)))
    else:
        how = Switcher(rng.randrange(1 << 30), rng.choice((0, 50, 300, 1000)))

    def work(k):
        start.wait()
        if turns:
            how.join(k, n)
        try:
            for i in plans[k]:
                # a task of its own, same files
                res, out = outcome(ts[i])
                got[k].append(out)
                held.append((res, out))
        finally:
            if turns:
                how.leave()
    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice((1e-6, 1e-5, 1e-4, .005)))
    try:
        with how as sw:
            th = [threading.Thread(target=work, args=(k,), daemon=True)
                  for k in range(n)]
            for x in th:
                x.start()
            for x in th:
                x.join()
    finally:
        sys.setswitchinterval(old)
    for k in range(n):
        cx.check(len(got[k]) == len(plans[k]), 'a thread died')
        for i, out in zip(plans[k], got[k]):
            cx.check(out == want[i], ts[i].name, 'in threads', plans, 'gave',
                     out, 'and alone in a process', want[i])
    for res, out in held:
        if isinstance(res, cp.ChannelPack):
            now = canonical(res)
            cx.check(now == out, 'a pack handed out in a thread is', now,
                     'and was', out)
    for t in ts:
        cx.check(t.intact(), t.name, 'altered its arguments')
    cx.count('thread switches inside of reads', len(sw.trail))
    cx.count('by turns' if turns else 'free running')
    if turns and how.late:
        cx.count('waited in vain for the turn', how.late)
    cx.count('reads in threads', sum(map(len, plans)))
    if sw.trail:
        cx.sig(plans, sw.trail)


PHASES = [Phase('sequence', sequence, 1500, 40000),
          Phase('threads', threads, 1000, 30000)]
