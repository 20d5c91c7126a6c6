"""Spreadsheet ranges select exactly the cells addressed."""
import itertools
import os
import string

import numpy as np

import channelpack
from channelpack import readxl
from channelpack import xlrd
from rv import wbmodel as M
from rv import xlsgen
from rv import xlsxgen
from rv.core import Phase, Violation
from rv.props import c24

PROP = 'C25'
LEVEL = 'exploration'
FILES = ['readxl.py']
RULE = ('Sheets of known cells (position can be told from the value, gaps '
        'in between) are written to xlsx and xls; sheetpack is called with '
        'random start and stop cells, headers, column selections and sheet '
        'references, and channel numbers, names and elements compared with '
        'the addressed cells of the model; columns outside of the range '
        'must raise ValueError. Column letters are enumerated from A to '
        'XFD. Non-trivial: distinct (kind of arguments, shape of range).')
ASSUME = ['start, stop and header cells are within the sheet and the range '
          'is not turned around', 'a stop cell has a row number']


def letters(n):
    """Spread sheet letters by counting, 0-based n."""
    s = ''
    n += 1
    while n:
        n, r = divmod(n - 1, 26)
        s = string.ascii_uppercase[r] + s
    return s


def case(rng, s):
    k = rng.random()
    if k < .5:
        return s
    if k < .8:
        return s.lower()
    return ''.join(rng.choice((ch.upper(), ch.lower())) for ch in s)


def make_sheet(rng, wb, dates, wide):
    sh = M.SheetModel(M.sheetname(rng, len(wb.sheets)))
    nr = rng.choice((1, 2, 3, 6, 12))
    nc = rng.choice((1, 2, 4, 9, 30))
    if wide:
        nr, nc = rng.choice((1, 2, 4)), rng.choice((27, 60, 256, 703, 740))
    gaps = rng.choice((0, 0, .1, .4))
    base = 10000 * (len(wb.sheets) + 1)
    for r in range(nr):
        for c in range(nc):
            if rng.random() < gaps and (r, c) != (nr - 1, nc - 1):
                continue
            k = (c * 7 + nc) % 5
            if k == 1 or (r == 0 and rng.random() < .8):
                cell = M.Cell('text', 'r%dc%d' % (r, c), 0)
            elif k == 2 and rng.random() < .5:
                v, d = c24.date(rng, wb.datemode)
                cell = M.Cell('number', v, rng.choice(dates))
                wb.values[id(cell)] = d
            elif k == 3 and rng.random() < .2:
                cell = M.Cell('bool', rng.randint(0, 1), 0)
            else:
                cell = M.Cell('number', float(base + r * 1000 + c), 0)
            sh.cells[r, c] = cell
    wb.sheets.append(sh)
    return sh, nr, nc


def addr(rng, r, c):
    return case(rng, letters(c)) + str(r + 1)


def columns_arg(rng, lo, hi, nc):
    """usecols argument, the columns meant, whether outside of lo..hi."""
    k = rng.random()
    if k < .3:
        return rng.choice((None, None, (), '')), list(range(lo, hi + 1))
    outside = rng.random() < .15
    pool = list(range(0, nc + 3)) if outside else list(range(lo, hi + 1))
    if k < .6:
        cols = [rng.choice(pool) for _ in range(rng.choice((1, 2, 3, 6)))]
        arg = rng.choice((list, tuple))(cols)
        if rng.random() < .15:
            cols = list(range(min(cols), max(cols) + 1))
            arg = range(cols[0], cols[-1] + 1)
        elif rng.random() < .15:
            arg = [np.int64(c) for c in cols]
        return arg, cols
    parts, cols = [], []
    for _ in range(rng.choice((1, 1, 2, 4))):
        if rng.random() < .5:
            a = rng.choice(pool)
            if outside and rng.random() < .2:
                # more letters than any sheet has columns for
                a += 26 ** rng.choice((3, 4, 5)) * rng.randint(1, 26)
            parts.append(case(rng, letters(a)))
            cols.append(a)
        else:
            a, b = sorted((rng.choice(pool), rng.choice(pool)))
            parts.append(case(rng, letters(a)) + ':' + case(rng, letters(b)))
            cols += list(range(a, b + 1))
    sep = rng.choice((',', ', ', ' , ', ',  '))
    s = sep.join(parts)
    if rng.random() < .1:
        s = ' ' + s + rng.choice((' ', ', ', ','))
    return s, cols


def ranges(cx):
    rng = cx.rng
    wb, dates = c24.workbook(rng)
    wide = rng.random() < .15
    shapes = [make_sheet(rng, wb, dates, wide and i == 0)
              for i in range(rng.choice((1, 1, 2, 3)))]
    rng.shuffle(shapes)
    wb.sheets = [s for s, _, _ in shapes]
    xlsx = rng.random() < .5 or any(nc > 256 for _, _, nc in shapes)
    if xlsx:
        data, w = xlsxgen.write(wb, rng, dict(xlsxgen.PLAIN))
    else:
        data, w = xlsgen.write(wb, rng, 80, xlsgen.options(rng, nork=True))
    path = os.path.join(cx.tmp, 'b.xlsx' if xlsx else 'b.xls')
    with open(path, 'wb') as f:
        f.write(data)
    for _ in range(6):
        one(cx, wb, shapes, path, dates)


def one(cx, wb, shapes, path, dates):
    rng = cx.rng
    i = rng.randrange(len(shapes))
    sh, nr, nc = shapes[i]
    kw = {}
    if i or rng.random() < .5:
        kw['sheet'] = rng.choice((i, sh.name))
    r0 = c0 = 0
    r1, c1 = nr - 1, nc - 1
    form = []
    if rng.random() < .6:
        r0, c0 = rng.randrange(nr), rng.randrange(nc)
        if rng.random() < .3:
            r0 = 0
        kw['startcell'] = addr(rng, r0, c0)
        if rng.random() < .1:
            # the letter only is the first row
            r0 = 0
            kw['startcell'] = case(rng, letters(c0))
        form.append('start')
    if rng.random() < .5:
        r1, c1 = rng.randint(r0, nr - 1), rng.randint(c0, nc - 1)
        kw['stopcell'] = addr(rng, r1, c1)
        form.append('stop')
    namerow = r0
    first = r0 + 1
    k = rng.random()
    if k < .3:
        kw['header'] = False
        namerow = None
        first = r0
        form.append('none')
    elif k < .6:
        namerow = rng.randrange(nr)
        kw['header'] = addr(rng, namerow, rng.randrange(nc))
        if rng.random() < .1:
            kw['header'] = case(rng, letters(rng.randrange(nc)))
            namerow = 0
        first = r0
        form.append('cell')
    elif k < .8:
        kw['header'] = True
    arg, cols = columns_arg(rng, c0, c1, nc)
    if arg is not None:
        kw['usecols'] = arg
        form.append(type(arg).__name__)
    cx.note('sheet', i, sh.name, (nr, nc), 'sheetpack', kw)
    outside = min(cols) < c0 or max(cols) > c1
    try:
        pack = channelpack.sheetpack(path, **kw)
    except ValueError as e:
        if not outside:
            raise Violation('sheetpack%r raised %r' % (kw, e))
        cx.count('columns outside raising')
        cx.sig('outside', tuple(form))
        return
    cx.check(not outside, 'columns outside of the range gave a pack', kw,
             'of a sheet', (nr, nc))
    want = sorted(set(cols))
    cx.check(sorted(pack.data) == want, 'channels', sorted(pack.data),
             'expected', want, kw)
    cx.check(pack.fn == path, 'fn', pack.fn)
    for c in want:
        cells = [sh.cells.get((r, c)) for r in range(first, r1 + 1)]
        exp = c24.expected(cells, wb)
        got = pack.data[c]
        cx.check(c24.same_arrays(got, exp), 'channel', c, 'of', kw, 'is',
                 repr(got), 'expected', repr(exp))
        if namerow is not None:
            cell = sh.cells.get((namerow, c))
            name = '' if cell is None else cell.value
            cx.check(c in pack.names and M.same(pack.names[c], name),
                     'name of', c, 'is', pack.names.get(c), 'expected',
                     name, kw)
    if namerow is None:
        cx.check(not pack.names, 'names', pack.names, 'with no header')
    cx.count('packs compared')
    cx.count('channels compared', len(want))
    cx.sig(tuple(form), min(first, 3), min(r1 - first, 4), len(want) > 1,
           c0 > 0, c1 < nc - 1)


def all_letters(cx):
    """Every column of a sheet, and addresses."""
    n = 0
    for k in (1, 2, 3):
        for t in itertools.product(string.ascii_uppercase, repeat=k):
            if n >= 16384:
                break
            s = ''.join(t)
            if readxl.letter2num(s) != n or \
               readxl.letter2num(s.lower(), zbase=False) != n + 1:
                cx.fail('letter2num(%r) is %r, expected %d' % (
                    s, readxl.letter2num(s), n))
            if n % 7 == 0:
                for row in (1, 10, 65536, 1048576):
                    ref = readxl.cellreference(xladdr=s + str(row))
                    if tuple(ref) != (row - 1, n):
                        cx.fail('%s%d is %r' % (s, row, ref))
            if letters(n) != s:
                raise AssertionError(s)
            n += 1
    cx.count('assertions', 2 * n)
    cx.note('letters of', n, 'columns')
    for bad in ('A0', '1', '7C', '-', ' ', '$'):
        try:
            ref = readxl.cellreference(xladdr=bad)
        except ValueError:
            continue
        cx.fail('cellreference(%r) gave %r' % (bad, ref))
    cx.sig('letters', n)


def badsheet(cx):
    """Sheets that are not there raise, and do not give another sheet."""
    rng = cx.rng
    wb, dates = c24.workbook(rng)
    n = rng.randint(1, 3)
    for i in range(n):
        make_sheet(rng, wb, dates, False)
    data, w = xlsxgen.write(wb, rng, dict(xlsxgen.PLAIN))
    path = os.path.join(cx.tmp, 'b.xlsx')
    with open(path, 'wb') as f:
        f.write(data)
    for ref in (n, n + 3, 'nope', '', wb.sheets[0].name + 'x', str(0)):
        if ref in [s.name for s in wb.sheets]:
            continue
        try:
            pack = channelpack.sheetpack(path, sheet=ref)
        except (IndexError, xlrd.XLRDError):
            cx.count('missing sheets raising')
            continue
        cx.fail('sheet %r gave %r' % (ref, pack))
    cx.note('sheets', [s.name for s in wb.sheets])
    cx.sig('badsheet', n, cx.index % 10)


def tall(cx):
    """Ranges in a sheet of very many rows."""
    rng = cx.rng
    wb, dates = c24.workbook(rng)
    sh = M.SheetModel('Tall')
    xlsx = rng.random() < .7
    nr, nc = rng.choice((20000, 65536) + ((65537, 70000) if xlsx else ())), 2
    for r in range(nr):
        for c in range(nc):
            sh.cells[r, c] = M.Cell('number', r * 10. + c, 0)
    wb.sheets.append(sh)
    if xlsx:
        data, w = xlsxgen.write(wb, rng, dict(xlsxgen.PLAIN))
    else:
        data, w = xlsgen.write(wb, rng, 80, xlsgen.options(
            rng, nork=True, shuffle_cells=False))
    path = os.path.join(cx.tmp, 't.xlsx' if xlsx else 't.xls')
    with open(path, 'wb') as f:
        f.write(data)
    for _ in range(3):
        one(cx, wb, [(sh, nr, nc)], path, dates)


PHASES = [Phase('ranges', ranges, 6000, 60000),
          Phase('all_letters', all_letters, 1, 1),
          Phase('badsheet', badsheet, 80, 400),
          Phase('tall', tall, 12, 60)]
