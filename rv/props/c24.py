"""Spreadsheet columns become channels by the typing rule."""
import datetime
import os

import numpy as np

import channelpack
from rv import wbmodel as M
from rv import xlsgen
from rv import xlsxgen
from rv.core import Phase

PROP = 'C24'
LEVEL = 'exploration'
FILES = ['readxl.py']
RULE = ('Sheets whose columns are random mixes of the cell kinds (number, '
        'date, text, boolean, error, blank, nothing), all subsets of kinds '
        'being tried, are written to xlsx and xls in both date systems by '
        'independent writers, read by sheetpack, and every channel '
        'compared with the typing rule applied to the model. Non-trivial: '
        'distinct (file kind, date system, sets of kinds in the columns).')
ASSUME = ['dates are from 1 March 1900 on, in whole milliseconds']

KINDS = ('number', 'date', 'text', 'bool', 'error', 'blank', 'nothing')
BASE = (datetime.datetime(1899, 12, 30), datetime.datetime(1904, 1, 1))
LAST = (2958465, 2957003)
DATEFORMATS = ['yyyy\\-mm\\-dd', 'dd/mm/yy', 'h:mm:ss', 14, 22]


def date(rng, mode):
    """Serial number and the datetime it is."""
    day = rng.choice((61, rng.randint(61, LAST[mode]), rng.randint(
        30000, 50000), LAST[mode], 61 + rng.randint(0, 400)))
    ms = rng.choice((0, 0, rng.randrange(86400) * 1000,
                     rng.randrange(86400000), 86399999, 43200000))
    return (day + ms / 86400000.,
            BASE[mode] + datetime.timedelta(days=day, milliseconds=ms))


def column(rng, kinds, n, wb, dates):
    """Cells of a column: list of (cell or None, value if mixed)."""
    out = []
    for _ in range(n):
        k = rng.choice(kinds)
        xf = rng.randrange(4)
        if k == 'nothing':
            out.append(None)
        elif k == 'date':
            v, d = date(rng, wb.datemode)
            c = M.Cell('number', v, rng.choice(dates))
            out.append(c)
            wb.values[id(c)] = d
        elif k == 'number':
            v = M.number(rng)
            out.append(M.Cell('number', v, xf))
        elif k == 'text':
            out.append(M.Cell('text', M.text(rng, 12) or 'x' * rng.randint(
                0, 1), xf))
        elif k == 'bool':
            out.append(M.Cell('bool', rng.randint(0, 1), xf))
        elif k == 'error':
            out.append(M.Cell('error', rng.choice(sorted(M.ERRORS)), xf))
        else:
            out.append(M.Cell('blank', '', xf))
    return out


def expected(cells, wb):
    """The typing rule."""
    def kind(c):
        if c is None or c.kind in ('error', 'blank'):
            return 'missing'
        if c.kind == 'number':
            return 'date' if wb.xfs[c.xf][1] else 'number'
        return c.kind
    kinds = [kind(c) for c in cells]
    have = set(kinds) - {'missing'}
    if have <= {'number'}:
        return np.array([c.value if k == 'number' else np.nan
                         for c, k in zip(cells, kinds)], dtype=float)
    if have == {'text'}:
        return np.array([c.value if k == 'text' else ''
                         for c, k in zip(cells, kinds)])
    vals = []
    for c, k in zip(cells, kinds):
        if k == 'missing':
            vals.append(None)
        elif k == 'date':
            vals.append(wb.values[id(c)])
        elif k == 'bool':
            vals.append(bool(c.value))
        else:
            vals.append(c.value)
    return np.array(vals)


def same_arrays(a, b):
    if a.dtype.kind != b.dtype.kind or a.shape != b.shape:
        return False
    if a.dtype.kind == 'f':
        return np.array_equal(a, b, equal_nan=True) and \
            np.array_equal(np.signbit(a), np.signbit(b))
    if a.dtype.kind == 'O':
        return all(type(x) is type(y) and x == y for x, y in zip(a, b))
    return np.array_equal(a, b)


def workbook(rng):
    wb = M.WbModel()
    wb.values = {}
    wb.datemode = rng.choice((0, 0, 1))
    wb.xfs = [(0, 0), ('0.00', 0), ('#,##0', 0), ('@', 0)]
    for f in DATEFORMATS:
        wb.xfs.append((f, 1))
    return wb, list(range(4, 4 + len(DATEFORMATS)))


def write(rng, wb):
    """Bytes and kind, in some format."""
    if rng.random() < .5:
        data, w = xlsxgen.write(wb, rng, dict(
            xlsxgen.PLAIN, rowref='always'))
        return data, 'xlsx'
    data, w = xlsgen.write(wb, rng, rng.choice((80, 80, 50)),
                           xlsgen.options(rng, nork=True))
    return data, 'xls'


def typing(cx):
    rng = cx.rng
    wb, dates = workbook(rng)
    sh = M.SheetModel('Data')
    wb.sheets.append(sh)
    at = 0
    if rng.random() < .3:
        # among other sheets
        for i in range(rng.randint(1, 3)):
            other = M.SheetModel('Other %d' % i)
            for r in range(rng.randint(0, 3)):
                other.cells[r, rng.randint(0, 3)] = M.Cell(
                    'number', M.number(rng), rng.randrange(len(wb.xfs)))
            wb.sheets.insert(rng.randint(0, len(wb.sheets)), other)
        at = wb.sheets.index(sh)
    ncols = rng.randint(1, 8)
    nrows = rng.choice((1, 2, 3, 5, 12, 40))
    top = rng.choice((0, 1))
    sets, cols = [], []
    for c in range(ncols):
        # every subset in turn, and random ones
        if c == 0:
            bits = cx.index % (2 ** len(KINDS) - 1) + 1
            kinds = [k for i, k in enumerate(KINDS) if bits >> i & 1]
        else:
            kinds = rng.sample(KINDS, rng.choice((1, 1, 2, 2, 3, 7)))
            if rng.random() < .5:
                kinds = [kinds[0]] * 10 + kinds
        sets.append(tuple(sorted(set(kinds))))
        cells = column(rng, kinds, nrows, wb, dates)
        cols.append(cells)
        for r, cell in enumerate(cells):
            if cell is not None:
                sh.cells[top + r, c] = cell
        if top:
            sh.cells[0, c] = M.Cell('text', 'n%d' % c, 0)
    if not top:
        # the last cell makes the sheet this big, whatever is missing
        cells = cols[-1]
        if cells[-1] is None or cells[-1].kind == 'blank':
            cells[-1] = M.Cell('number', 1.5, 0)
            sh.cells[nrows - 1, ncols - 1] = cells[-1]
    data, kind = write(rng, wb)
    path = os.path.join(cx.tmp, 'b.' + kind)
    with open(path, 'wb') as f:
        f.write(data)
    args = dict(header=bool(top))
    if at or rng.random() < .1:
        args['sheet'] = rng.choice((at, 'Data'))
    if top:
        # the range is given, trailing cells may all be missing
        nr, nc = sh.dims()
        if nr < 1 + nrows:
            cols = [c[:nr - 1] for c in cols]
    cx.note(kind, 'date system', wb.datemode, args)
    for c, cells in enumerate(cols):
        cx.note('column', c, cells)
    pack = channelpack.sheetpack(path, **args)
    cx.check(sorted(pack.data) == list(range(ncols)), 'channels',
             sorted(pack.data), 'expected', ncols)
    for c, cells in enumerate(cols):
        # values as stored, text may be fitted to the code page
        exp = expected(cells, wb)
        got = pack.data[c]
        cx.check(isinstance(got, np.ndarray) and same_arrays(got, exp),
                 'column', c, 'gave', repr(got), 'expected', repr(exp))
        cx.count('channels of kind ' + exp.dtype.kind)
        cx.count('cells compared', len(cells))
        if top:
            cx.check(pack.name(c) == 'n%d' % c, 'name', pack.name(c))
    cx.sig(kind, wb.datemode, sets[0], nrows)
    cx.sig(sorted(set(sets)))


def tall(cx):
    """A column of very many rows, one cell far down deciding its kind."""
    rng = cx.rng
    wb, dates = workbook(rng)
    sh = M.SheetModel('Data')
    wb.sheets.append(sh)
    xlsx = rng.random() < .6
    n = rng.choice((20000, 65536) + ((65537, 70000) if xlsx else ()))
    cols = []
    for c in range(2):
        k = rng.choice(('number', 'text'))
        cells = [M.Cell('number', i + .5, 0) if k == 'number' else
                 M.Cell('text', 't%d' % (i % 99), 0) for i in range(n)]
        for _ in range(rng.randint(0, 2)):
            i = rng.choice((n - 1, n // 2, rng.randrange(n)))
            cells[i], = column(rng, KINDS, 1, wb, dates)
        if cells[-1] is None or cells[-1].kind == 'blank':
            cells[-1] = M.Cell('text', 'end', 0)
        cols.append(cells)
        for r, cell in enumerate(cells):
            if cell is not None:
                sh.cells[r, c] = cell
    if xlsx:
        data, w = xlsxgen.write(wb, rng, dict(xlsxgen.PLAIN))
    else:
        data, w = xlsgen.write(wb, rng, 80, xlsgen.options(
            rng, nork=True, shuffle_cells=False))
    path = os.path.join(cx.tmp, 'b.xlsx' if xlsx else 'b.xls')
    with open(path, 'wb') as f:
        f.write(data)
    cx.note('tall', n, xlsx)
    pack = channelpack.sheetpack(path, header=False)
    for c, cells in enumerate(cols):
        exp, got = expected(cells, wb), pack.data[c]
        cx.check(isinstance(got, np.ndarray) and same_arrays(got, exp),
                 'column', c, 'of', n, 'rows gave', len(got), got.dtype,
                 'expected', len(exp), exp.dtype)
        cx.sig('tall', n, xlsx, exp.dtype.kind)


PHASES = [Phase('typing', typing, 24000, 80000),
          Phase('tall', tall, 16, 80)]
