"""All ways to read a sheet agree."""
import io
import mmap
import os

from channelpack import xlrd
from rv import wbmodel as M
from rv import xlsgen
from rv import xlsxgen
from rv.core import Phase
from rv.props import c22
from rv.props import c23

PROP = 'C29'
LEVEL = 'exploration'
FILES = ['xlrd/sheet.py', 'xlrd/book.py', 'xlrd/__init__.py']
RULE = ('Random xlsx and xls workbooks from independent writers. access: '
        'every access method with random, negative, default and out of '
        'range bounds against the cells of the model. options: the same '
        'file opened by every combination of on_demand, ragged_rows, '
        'use_mmap, formatting_info, verbosity, path, bytes and memory map. ondemand: '
        'random sequences of loading, unloading, iterating and releasing, '
        'watching what is loaded, sheets loaded earlier staying intact. '
        'Non-trivial: distinct (file kind, options, shape) and distinct '
        'operation sequences.')
ASSUME = ['column access is not covered for ragged rows, where cells past '
          'the end of a row do not exist',
          'loading on demand is for xls, xlsx sheets are always loaded']

XLS = (80, 80, 80, 70, 50, 45, 40, 30, 20)


def make(rng, kind=None, nsheets=None, far=.02):
    kind = kind or rng.choice(('xlsx', 'xls', 'xls'))
    if kind == 'xlsx':
        wb = c22.model(rng, far)
        data, w = xlsxgen.write(wb, rng, dict(xlsxgen.PLAIN))
        return wb, data, 'xlsx', True
    bv = rng.choice((80, 80, 50)) if nsheets else rng.choice(XLS)
    while True:
        wb = c23.model(rng, bv, far)
        if not nsheets or len(wb.sheets) >= nsheets:
            break
    data, w = xlsgen.write(wb, rng, bv)
    return wb, data, 'biff%d' % bv, False


def grid(sh, wb, blanks):
    nr, nc = sh.dims(blanks)
    g = [[(M.EMPTY, '')] * nc for _ in range(nr)]
    for (r, c), cell in sh.cells.items():
        if blanks or cell.kind != 'blank':
            g[r][c] = cell.expected(wb)
    return g


def ragged(g, row):
    """The part of the model row a ragged row must have."""
    n = len(g)
    while n and g[n - 1][0] == M.EMPTY:
        n -= 1
    return g[:n]


class Merges(object):
    """Hide the merges of xls sheets unless formatting info is read."""

    def __init__(self, wb, on):
        self.wb, self.on = wb, on

    def __enter__(self):
        self.saved = [s.merges for s in self.wb.sheets]
        if not self.on:
            for s in self.wb.sheets:
                s.merges = []

    def __exit__(self, *args):
        for s, m in zip(self.wb.sheets, self.saved):
            s.merges = m


def bound(rng, n):
    return rng.choice((None, 0, 1, -1, n, n - 1, n + 1, -n, -n - 1, -n - 5,
                       n + 7, rng.randint(-n - 1, n + 1), 2 ** 31, -2 ** 31))


def pairs(cells):
    return [(c.ctype, c.value) for c in cells]


def eq(a, b):
    return len(a) == len(b) and all(
        x[0] == y[0] and M.same(x[1], y[1]) for x, y in zip(a, b))


def args(rng, n):
    """Keyword free arguments of a slice: none, start, or both."""
    a, b = bound(rng, n), bound(rng, n)
    k = rng.random()
    if k < .2:
        return (), slice(0, None)
    a = 0 if a is None else a
    if k < .5:
        return (a,), slice(a, None)
    return (a, b), slice(a, b)


def raises(cx, what, f, *a):
    try:
        got = f(*a)
    except IndexError:
        cx.count('out of range accesses raising')
        return
    cx.fail('%s%r gave %r, IndexError expected' % (what, a, got))


def check_access(cx, ws, g, where, rag, n=12):
    rng = cx.rng
    nr = len(g)
    nc = len(g[0]) if g else ws.ncols
    cx.check(ws.nrows == nr and (not nr or ws.ncols == nc), where,
             'dimensions', ws.nrows, ws.ncols, 'expected', nr, nc)
    rows = []
    for r in range(nr):
        exp = ragged(g[r], r) if rag else g[r]
        if rag and len(exp) == 0 and ws.row_len(r) == 1:
            # the row made for the end of a merged range
            exp = [(M.EMPTY, '')]
        rows.append(exp)
    for r in ([rng.randrange(nr) for _ in range(n)] if nr else []):
        exp = rows[r]
        m = len(exp)
        w = '%s row %d' % (where, r)
        ri = r - nr if rng.random() < .1 else r
        cx.check(ws.row_len(ri) == m, w, 'row_len', ws.row_len(ri), m)
        for name, f in (('row', ws.row), ('[]', ws.__getitem__)):
            got = pairs(f(ri))
            cx.check(eq(got, exp), w, name, got, 'expected', exp)
        a, s = args(rng, m)
        got = pairs(ws.row_slice(ri, *a))
        cx.check(eq(got, exp[s]), w, 'row_slice', a, got, 'expected', exp[s])
        got = list(zip(ws.row_types(ri, *a), ws.row_values(ri, *a)))
        cx.check(len(ws.row_types(ri, *a)) == len(ws.row_values(ri, *a)) ==
                 len(exp[s]) and eq(got, exp[s]), w, 'row_types, row_values',
                 a, got, 'expected', exp[s])
        if m:
            c = rng.randrange(m)
            ci = c - m if rng.random() < .1 else c
            e = exp[c]
            for name, x in (('cell', ws.cell(ri, ci)), ('[]', ws[ri, ci])):
                cx.check(eq(pairs([x]), [e]), w, name, ci, x, e)
            x = (ws.cell_type(ri, ci), ws.cell_value(ri, ci))
            cx.check(eq([x], [e]), w, 'cell_type, cell_value', ci, x, e)
        for name, f in (('cell', ws.cell), ('cell_value', ws.cell_value),
                        ('cell_type', ws.cell_type)):
            raises(cx, name, f, r, m + rng.choice((0, 0, 1, 5)))
    for name, f in (('row', ws.row), ('row_values', ws.row_values),
                    ('row_types', ws.row_types), ('row_len', ws.row_len),
                    ('row_slice', ws.row_slice)):
        raises(cx, name, f, nr + rng.choice((0, 1, 9)))
    for name, f in (('cell', ws.cell), ('cell_value', ws.cell_value),
                    ('cell_type', ws.cell_type)):
        raises(cx, name, f, nr, 0)
    if rng.random() < .3 and nr * max(nc, 1) < 20000:
        for name, it in (('get_rows', ws.get_rows()), ('iter', iter(ws))):
            got = [pairs(x) for x in it]
            cx.check(len(got) == nr and all(
                eq(a, b) for a, b in zip(got, rows)), where, name, 'differs')
    if rag or not nr:
        return
    for c in [rng.randrange(nc) for _ in range(n // 2)] if nc else []:
        exp = [g[r][c] for r in range(nr)]
        w = '%s col %d' % (where, c)
        for name, f in (('col', ws.col), ('col_slice', ws.col_slice)):
            a, s = args(rng, nr)
            got = pairs(f(c, *a))
            cx.check(eq(got, exp[s]), w, name, a, got[:20], 'expected',
                     exp[s][:20])
        a, s = args(rng, nr)
        got = list(zip(ws.col_types(c, *a), ws.col_values(c, *a)))
        cx.check(len(ws.col_types(c, *a)) == len(ws.col_values(c, *a)) ==
                 len(exp[s]) and eq(got, exp[s]), w, 'col_types, col_values',
                 a, got[:20], 'expected', exp[s][:20])
    for name, f in (('col', ws.col), ('col_values', ws.col_values),
                    ('col_types', ws.col_types)):
        raises(cx, name, f, nc + rng.choice((0, 3)))


def access(cx):
    rng = cx.rng
    wb, data, kind, isx = make(rng, far=.1)
    fi = not isx and rng.random() < .4
    rag = rng.random() < .3
    cx.note(kind, 'formatting_info', fi, 'ragged_rows', rag)
    for sh in wb.sheets:
        cx.note('sheet', sh.name, sorted(sh.cells.items()), sh.merges)
    with Merges(wb, fi or isx):
        book = xlrd.open_workbook(file_contents=data, ragged_rows=rag,
                                  formatting_info=fi, logfile=io.StringIO())
        with book:
            n = len(wb.sheets)
            if rng.random() < .5:
                # what was handed out is the caller's
                book.sheets().clear()
                book.sheet_names().reverse()
                for ws in book:
                    for r in range(min(ws.nrows, 3)):
                        ws.row_values(r).clear()
                        ws.row(r).clear()
                        ws.row_slice(r, 0).clear()
                        if not rag and ws.ncols:
                            ws.col_values(0).clear()
            cx.check(len(book.sheets()) == book.nsheets == n ==
                     len(list(book)), 'sheets', book.nsheets, n)
            for i, sh in enumerate(wb.sheets):
                ws = book.sheet_by_index(i)
                cx.check(ws is book.sheet_by_name(sh.name) is book[i] is
                         book[sh.name] is book.sheets()[i] is list(book)[i],
                         'sheet', i, 'is not the same by all ways')
                check_access(cx, ws, grid(sh, wb, fi), sh.name, rag)
                cx.sig(kind, fi, rag, sh.dims(fi))
            missing(cx, book)


def missing(cx, book):
    for nm in ('no such sheet', '', 'Sheet\0'):
        for f in (book.sheet_by_name, book.__getitem__, book.sheet_loaded,
                  book.unload_sheet):
            try:
                f(nm)
            except xlrd.XLRDError:
                continue
            cx.fail('sheet %r found' % nm)
    raises(cx, 'sheet_by_index', book.sheet_by_index, book.nsheets)


def options(cx):
    rng = cx.rng
    wb, data, kind, isx = make(rng)
    path = os.path.join(cx.tmp, 'b')
    with open(path, 'wb') as f:
        f.write(data)
    for sh in wb.sheets:
        cx.note('sheet', sh.name, sorted(sh.cells.items()), sh.merges)
    for k in range(32):
        fi = not isx and bool(k & 16)
        kw = dict(on_demand=bool(k & 1), ragged_rows=bool(k & 2),
                  use_mmap=bool(k & 4), formatting_info=fi,
                  verbosity=rng.choice((0, 0, 0, 1, 2, 3, 7)),
                  logfile=io.StringIO())
        src = 'path' if k & 8 else rng.choice(('bytes', 'mmap'))
        if isx and (k & 16 or src == 'mmap'):
            continue
        cx.note(kind, src, kw)
        mm = None
        if src == 'path':
            kw['filename'] = path
        elif src == 'bytes':
            kw['file_contents'] = data
        else:
            with open(path, 'rb') as f:
                mm = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
            kw['file_contents'] = mm
        with Merges(wb, fi or isx):
            with xlrd.open_workbook(**kw) as book:
                where = '%s %s %r' % (kind, src, sorted(
                    (a, b) for a, b in kw.items() if a not in (
                        'filename', 'file_contents', 'logfile')))
                M.check_book(cx, wb, book, where, blanks=fi,
                             ragged=kw['ragged_rows'])
        if mm is not None:
            mm.close()
        cx.count('books opened')
        cx.sig(kind, src, k, len(wb.sheets))


def ondemand(cx):
    rng = cx.rng
    wb, data, kind, isx = make(rng, 'xls', 2)
    fi = rng.random() < .4
    rag = rng.random() < .3
    n = len(wb.sheets)
    path = os.path.join(cx.tmp, 'b.xls')
    with open(path, 'wb') as f:
        f.write(data)
    kw = dict(filename=path, use_mmap=rng.choice((0, 1))) \
        if rng.random() < .7 else dict(file_contents=data)
    for sh in wb.sheets:
        cx.note('sheet', sh.name, sorted(sh.cells.items()), sh.merges)
    loaded = {}
    olds = []
    released = False
    trace = []
    with Merges(wb, fi):
        grids = [grid(sh, wb, fi) for sh in wb.sheets]
        book = xlrd.open_workbook(on_demand=True, formatting_info=fi,
                                  ragged_rows=rag, logfile=io.StringIO(),
                                  **kw)
        cx.check(bool(book.on_demand), 'not on demand')

        def use(i, ws):
            sh = wb.sheets[i]
            cx.check(ws.name == sh.name and ws.number == i, 'sheet', i, 'is',
                     ws.name, ws.number)
            check_access(cx, ws, grids[i], '%s %r' % (sh.name, trace), rag,
                         3)
            if rng.random() < .5:
                M.check_sheet(cx, sh, ws, wb, repr(trace), fi, rag)

        for _ in range(rng.choice((3, 8, 20))):
            op = rng.choice(('load', 'load', 'load', 'unload', 'unload',
                             'all', 'iter', 'old', 'release', 'names'))
            i = rng.randrange(n)
            if op == 'release' and rng.random() < .8:
                continue
            key = rng.choice((i, wb.sheets[i].name))
            trace.append((op, key))
            cx.note(op, key)
            if op == 'load':
                f = book.__getitem__ if rng.random() < .4 else (
                    book.sheet_by_index if isinstance(key, int)
                    else book.sheet_by_name)
                if released and i not in loaded:
                    try:
                        f(key)
                    except xlrd.XLRDError:
                        cx.count('loads refused after release')
                        continue
                    cx.fail('sheet loaded after resources were released')
                ws = f(key)
                if i in loaded:
                    cx.check(ws is loaded[i], 'a loaded sheet was read again',
                             trace)
                else:
                    cx.count('sheets loaded')
                loaded[i] = ws
                use(i, ws)
            elif op == 'unload':
                book.unload_sheet(key)
                ws = loaded.pop(i, None)
                if ws is not None:
                    olds.append((i, ws))
                    cx.count('sheets unloaded')
            elif op in ('all', 'iter'):
                if released and len(loaded) < n:
                    continue
                got = book.sheets() if op == 'all' else list(book)
                cx.check(len(got) == n, 'sheets', len(got))
                for j, ws in enumerate(got):
                    if j in loaded:
                        cx.check(ws is loaded[j], 'sheet read again')
                    loaded[j] = ws
                use(i, loaded[i])
            elif op == 'old' and olds:
                use(*rng.choice(olds))
                cx.count('unloaded sheets still held checked')
            elif op == 'release':
                book.release_resources()
                released = True
            cx.check(book.nsheets == n and list(book.sheet_names()) ==
                     [s.name for s in wb.sheets], 'names', trace)
            for j in range(n):
                cx.check(book.sheet_loaded(rng.choice(
                    (j, wb.sheets[j].name))) == (j in loaded), 'sheet', j,
                    'loaded is', book.sheet_loaded(j), trace)
        for j, ws in loaded.items():
            use(j, ws)
        book.release_resources()
        for j, ws in loaded.items():
            use(j, ws)
    cx.sig(kind, fi, rag, tuple(trace))


def many(cx):
    """All ways of access in a sheet of many cells."""
    rng = cx.rng
    wb = M.WbModel()
    wb.xfs = [(0, 0)]
    sh = M.SheetModel('Many')
    nr, nc = rng.choice(((300, 200), (20000, 3), (60, 255), (5000, 9)))
    for r in range(nr):
        for c in range(nc if r % 7 else nc // 2 + 1):
            sh.cells[r, c] = M.Cell('number', r * 1000. + c + .5, 0)
    wb.sheets.append(sh)
    isx = rng.random() < .4
    if isx:
        data, w = xlsxgen.write(wb, rng, dict(xlsxgen.PLAIN))
    else:
        data, w = xlsgen.write(wb, rng, 80, xlsgen.options(
            rng, shuffle_cells=False))
    fi = not isx and rng.random() < .4
    rag = rng.random() < .4
    cx.note('many', nr, nc, isx, fi, rag)
    with xlrd.open_workbook(file_contents=data, ragged_rows=rag,
                            formatting_info=fi,
                            logfile=io.StringIO()) as book:
        check_access(cx, book.sheet_by_index(0), grid(sh, wb, fi), 'many',
                     rag)
        M.check_book(cx, wb, book, 'many', blanks=fi, ragged=rag)
    cx.sig('many', nr, nc, isx, fi, rag)


PHASES = [Phase('access', access, 2500, 50000),
          Phase('options', options, 300, 6000),
          Phase('ondemand', ondemand, 1500, 30000),
          Phase('many', many, 24, 120)]
