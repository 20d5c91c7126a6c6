"""Damaged spreadsheet files fail cleanly and quickly."""
import gc
import io
import os
import sys

import channelpack
from channelpack import xlrd
from rv import damage
from rv import olegen
from rv import wbmodel as M
from rv import xlsgen
from rv import xlsxgen
from rv.core import PKG, REPO, Phase
from rv.props import c22
from rv.props import c23
from rv.props import c27

PROP = 'C30'
LEVEL = 'exploration'
FILES = ['xlrd/compdoc.py', 'xlrd/book.py', 'xlrd/sheet.py', 'xlrd/xlsx.py',
         'xlrd/formula.py']
RULE = ('Valid files from the writers, and the sample files of the '
        'repository, are damaged: truncated, bytes and fields overwritten, '
        'records dropped, doubled, resized and renamed, allocation tables '
        'and directories made cyclic, XML attributes, texts and elements '
        'changed, parts missing. A monitor counts loop iterations and calls '
        'in the code under test and stops a read that exceeds a bound from '
        'the size of the file; the outcome must be a result or an '
        'ordinary exception, with no more open files than before. '
        'Non-trivial: distinct (kind of file, kind of damage, outcome with '
        'place raised).')
ASSUME = ['work is bounded by 400 steps per byte of the (unpacked) file '
          'plus 8 million, which covers the largest grid a damaged cell '
          'position can ask for in xls; xlsx cell positions are not made '
          'larger than the grid of the sample',
          'memory limit 6 GB']


class TooMuchWork(BaseException):
    pass


class StepMonitor(object):
    """Count jumps and function starts in the code under test."""

    def __init__(self, limit):
        self.limit, self.steps = limit, 0

    def __enter__(self):
        mon = sys.monitoring
        self.tool = mon.PROFILER_ID
        mon.use_tool_id(self.tool, 'rv-steps')
        disable = mon.DISABLE
        pkg = PKG + os.sep

        def on_jump(code, a, b):
            if not code.co_filename.startswith(pkg):
                return disable
            self.steps += 1
            if self.steps > self.limit:
                self.limit = self.steps * 2
                raise TooMuchWork()

        def on_start(code, a):
            if not code.co_filename.startswith(pkg):
                return disable
            self.steps += 1
            if self.steps > self.limit:
                self.limit = self.steps * 2
                raise TooMuchWork()
        mon.register_callback(self.tool, mon.events.JUMP, on_jump)
        mon.register_callback(self.tool, mon.events.PY_START, on_start)
        mon.set_events(self.tool, mon.events.JUMP | mon.events.PY_START)
        return self

    def __exit__(self, *args):
        mon = sys.monitoring
        mon.set_events(self.tool, 0)
        mon.register_callback(self.tool, mon.events.JUMP, None)
        mon.register_callback(self.tool, mon.events.PY_START, None)
        mon.free_tool_id(self.tool)


def open_files():
    fds = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            fds[n] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass
    return {k: v for k, v in fds.items() if not v.startswith('/proc')}


def unpacked(data):
    if data[:4] == b'PK\x03\x04':
        return 40 * len(data)
    return len(data)


def attempt(cx, data, kind, what):
    rng = cx.rng
    path = os.path.join(cx.tmp, 'b.' + kind)
    with open(path, 'wb') as f:
        f.write(data)
    xls = kind == 'xls'
    how = rng.choice(('book', 'book', 'book', 'bytes', 'pack'))
    kw = dict(logfile=io.StringIO())
    if xls and rng.random() < .5:
        kw['formatting_info'] = True
    if rng.random() < .3:
        kw['ragged_rows'] = True
    if rng.random() < .2:
        kw['on_demand'] = True
    if xls and rng.random() < .15:
        kw['ignore_workbook_corruption'] = True
    if rng.random() < .5:
        kw['use_mmap'] = rng.choice((0, 1))
    if xls and rng.random() < .05:
        kw['verbosity'] = rng.choice((1, 2, 4))
    cx.note(kind, what, how, {k: v for k, v in kw.items() if k != 'logfile'},
            len(data), 'bytes')
    before = open_files()
    limit = 8000000 + 400 * unpacked(data)
    held = None
    outcome = 'ok'
    with StepMonitor(limit) as mon:
        try:
            if how == 'pack':
                with xlrd.open_workbook(path, logfile=kw['logfile']) as book:
                    n = sum(ws.nrows * ws.ncols for ws in book)
                if n < 200000:
                    channelpack.sheetpack(path)
                else:
                    cx.count('grids too big to make a pack of')
            else:
                src = dict(filename=path) if how == 'book' else \
                    dict(file_contents=data)
                with xlrd.open_workbook(**src, **kw) as book:
                    for ws in book:
                        n = 0
                        for r in range(ws.nrows):
                            n += len(ws.row_values(r))
                            n += len(ws.row_types(r))
                        if kw.get('formatting_info') and ws.nrows < 200:
                            for row in ws.get_rows():
                                n += len(row)
        except TooMuchWork as e:
            held = e
        except Exception as e:
            held = e
    cx.stats.counts['steps'] += mon.steps
    k = 1
    while k < mon.steps:
        k *= 10
    cx.count('reads of at most %d steps' % k)
    ratio = mon.steps / max(1, unpacked(data))
    if mon.steps > 200000:
        cx.count('reads of at most %d steps per byte' % (10 ** len(
            str(int(ratio)))))
    if isinstance(held, TooMuchWork):
        cx.fail('%s %s by %s: more than %d steps for %d bytes: no end in '
                'sight at %s' % (kind, what, how, limit, len(data),
                                 place(held)))
    if isinstance(held, (RecursionError, MemoryError, SystemError)):
        cx.fail('%s %s by %s exhausted the stack or memory: %s at %s' % (
            kind, what, how, type(held).__name__, place(held)))
    # with the exception still held, as a caller's handler does
    after = open_files()
    left = {k: v for k, v in after.items() if before.get(k) != v}
    cx.check(not left, kind, what, 'by', how, 'left open:',
             sorted(left.values()), 'after', repr(held))
    if held is not None:
        outcome = '%s at %s' % (type(held).__name__, place(held))
        cx.count('reads that raised')
    else:
        cx.count('reads that returned')
    cx.count('assertions', 3)
    cx.sig(kind, what, outcome)
    held = book = ws = None
    if mon.steps > 20000:
        # big grids are in cycles of references
        gc.collect()


def place(e):
    """Where in the code under test."""
    tb, at = e.__traceback__, '?'
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(PKG + os.sep):
            at = '%s %s' % (os.path.basename(fn), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return at


def samples(kind):
    out = []
    for d in ('testdata', 'tests/xlrd/data'):
        p = os.path.join(REPO, d)
        for n in sorted(os.listdir(p)) if os.path.isdir(p) else ():
            if n.endswith('.' + kind) and \
               os.path.getsize(os.path.join(p, n)) < 40000:
                out.append(os.path.join(p, n))
    return out


def sample(rng, kind):
    paths = samples(kind)
    if not paths:
        return None
    with open(rng.choice(paths), 'rb') as f:
        return f.read()


def xls(cx):
    rng = cx.rng
    k = rng.random()
    data = None
    if k < .3:
        data = sample(rng, 'xls')
        if data and data[:8] == olegen.SIG and rng.random() < .6:
            # the stream of the sample, to damage records
            from channelpack.xlrd import compdoc
            doc = compdoc.CompDoc(data, logfile=io.StringIO())
            for nm in ('Workbook', 'Book'):
                mem, base, n = doc.locate_named_stream(nm)
                if mem:
                    stream = damage.record_damage(rng, mem[base:base + n])
                    attempt(cx, olegen.simple(stream, nm), 'xls',
                            'sample records')
                    return
    bv = 80
    if data is None:
        bv = rng.choice((80, 80, 80, 70, 50, 45, 40, 30, 20))
        wb = c23.model(rng, bv, .05)
        opt = xlsgen.options(rng)
        if rng.random() < .3:
            opt['sst'] = dict(sst_limit=(20, 90), rich=.3, phonetic=.3,
                              newrec=.1, cut=.1, mixed=True)
        data, w = xlsgen.write(wb, rng, bv, opt, ole=False)
        if k < .8:
            data = damage.record_damage(rng, data)
            if bv >= 50 and rng.random() < .7:
                data = olegen.simple(
                    data, 'Workbook' if bv >= 80 else 'Book')
            attempt(cx, data, 'xls', 'records of biff%d' % bv)
            return
        data = olegen.Ole(
            c27.others(rng, rng.choice((0, 2, 6)), (0, 100, 5000)) +
            [olegen.Entry('Workbook' if bv >= 80 else 'Book', data)],
            rng, **c27.layout(rng)).make()
    k = rng.random()
    if k < .6:
        attempt(cx, damage.ole_damage(rng, data), 'xls', 'compound file')
    elif k < .75:
        attempt(cx, damage.truncate(rng, data), 'xls', 'truncated')
    elif k < .85:
        attempt(cx, damage.cutout(rng, data), 'xls', 'bytes lost')
    else:
        attempt(cx, damage.flips(rng, data), 'xls', 'bytes')


def xlsx(cx):
    rng = cx.rng
    data = sample(rng, 'xlsx') if rng.random() < .3 else None
    if data is None:
        wb = c22.model(rng, 0)
        data, w = xlsxgen.write(wb, rng, xlsxgen.options(rng))
    k = rng.random()
    if k < .75:
        attempt(cx, damage.zip_damage(rng, data), 'xlsx', 'parts')
    elif k < .85:
        attempt(cx, damage.truncate(rng, data), 'xlsx', 'truncated')
    elif k < .9:
        attempt(cx, damage.cutout(rng, data), 'xlsx', 'bytes lost')
    else:
        attempt(cx, damage.flips(rng, data), 'xlsx', 'bytes')


def prefixes(cx):
    """Every truncation of a small file."""
    rng = cx.rng
    wb = M.WbModel()
    wb.xfs = [(0, 0), (14, 1)]
    sh = M.SheetModel('S')
    M.random_cells(rng, sh, wb, 4, 4)
    wb.sheets.append(sh)
    kind = rng.choice(('xls', 'xls', 'raw', 'xlsx'))
    if kind == 'xlsx':
        data, w = xlsxgen.write(wb, rng, dict(xlsxgen.PLAIN))
    else:
        data, w = xlsgen.write(wb, rng, 80, ole=kind == 'xls')
    step = max(1, len(data) // 60)
    off = rng.randrange(step)
    for n in range(off, len(data), step):
        attempt(cx, data[:n], 'xlsx' if kind == 'xlsx' else 'xls',
                'prefix')


def loops(cx):
    """Links in a loop, in every kind of chain there is."""
    rng = cx.rng
    bv = rng.choice((80, 80, 50))
    wb = c23.model(rng, bv, 0)
    data, w = xlsgen.write(wb, rng, bv, ole=False)
    if rng.random() < .15:
        data = damage.sst_loop(rng, data)
        if rng.random() < .7:
            data = olegen.simple(data)
        attempt(cx, data, 'xls', 'string table backwards')
        return
    o = c27.layout(rng)
    if rng.random() < .15:
        o['extra_sat'] = rng.choice((110, 240, 400))
    data = olegen.Ole(
        c27.others(rng, rng.choice((0, 2, 6, 20)), (0, 100, 500, 5000)) +
        [olegen.Entry('Workbook' if bv >= 80 else 'Book', data)],
        rng, **o).make()
    data, what = damage.ole_loop(rng, data)
    attempt(cx, data, 'xls', what)


def nested(cx):
    """XML nested deep, and entities that grow."""
    rng = cx.rng
    wb = c22.model(rng, 0)
    data, w = xlsxgen.write(wb, rng, dict(xlsxgen.PLAIN))
    data, what = damage.xml_depth(rng, data)
    attempt(cx, data, 'xlsx', what)


PHASES = [Phase('xls', xls, 16000, 300000),
          Phase('xlsx', xlsx, 8000, 120000),
          Phase('prefixes', prefixes, 60, 1200),
          Phase('loops', loops, 3000, 60000),
          Phase('nested', nested, 60, 600)]
