"""Number formats are classed as date or not by their meaning."""
import numpy as np
import os

import channelpack
from channelpack import xlrd
from rv import fmtgen
from rv import wbmodel as M
from rv import xlsgen
from rv import xlsxgen
from rv.core import Phase

PROP = 'C31'
LEVEL = 'exploration'
FILES = ['xlrd/formatting.py', 'xlrd/xlsx.py']
RULE = ('Format strings are built from date codes or digit placeholders, '
        'with quoted text, escapes, padding, colours, conditions, currency '
        'and several sections in between, so that the class is known by '
        'construction; the same number is stored with each format in xlsx '
        'and xls (BIFF8, 5, 4, 3, 2) workbooks made by independent writers '
        'and the type of every cell compared. All standard format numbers '
        'are also tried. Non-trivial: distinct format strings.')
ASSUME = ['a format with both date codes and digit placeholders is not '
          'covered, nor are the elapsed time codes alone ([h])',
          'era and Buddhist date codes are not covered']

STD_DATES = set(range(14, 23)) | {45, 46, 47}
STD_XLS_DATES = STD_DATES | set(range(27, 37)) | set(range(50, 59)) | \
    set(range(71, 82))
STD_XLSX = list(range(0, 23)) + list(range(37, 50))
STD_XLS = STD_XLSX + list(range(27, 37)) + list(range(50, 63)) + \
    list(range(67, 82))


def model(rng, std, dates, nfmt=40, maxlen=None, asc=False):
    wb = M.WbModel()
    wb.xfs = [(0, 0)]
    for _ in range(nfmt):
        if rng.random() < .25 and std:
            k = rng.choice(std)
            wb.xfs.append((k, int(k in dates)))
        else:
            while True:
                s, d = fmtgen.fmt(rng)
                if maxlen and len(s) > maxlen:
                    continue
                if asc and any(ord(ch) > 126 for ch in s):
                    continue
                break
            wb.xfs.append((s, d))
    sh = M.SheetModel('S')
    xfs = list(range(len(wb.xfs)))
    rng.shuffle(xfs)
    for i, xf in enumerate(xfs):
        v = rng.choice((1.0, 0.5, 40000.25, 61.0, rng.uniform(61, 70000)))
        sh.cells[i // 6, i % 6] = M.Cell('number', v, xf)
    wb.sheets.append(sh)
    return wb


def note(cx, wb, kind):
    for k, d in wb.xfs:
        cx.sig(kind, k)
        cx.count('formats of dates' if d else 'formats of numbers')
    cx.note(kind, [k for k, d in wb.xfs][:8])


def xlsx(cx):
    rng = cx.rng
    wb = model(rng, STD_XLSX, STD_DATES)
    data, w = xlsxgen.write(wb, rng, dict(xlsxgen.PLAIN, prefix=rng.choice(
        ('', 'x:')), encoding='UTF-8'))
    note(cx, wb, 'xlsx')
    with xlrd.open_workbook(file_contents=data) as book:
        M.check_book(cx, wb, book, 'xlsx')
    if cx.index % 10 == 0:
        pack(cx, wb, data, 'b.xlsx')


def xls(cx):
    rng = cx.rng
    bv = rng.choice((80, 80, 80, 70, 50, 40, 30, 20))
    std = STD_XLS if bv >= 50 else []
    wb = model(rng, std, STD_XLS_DATES, 40 if bv >= 50 else 20, 200,
               bv < 80)
    if bv < 50 and rng.random() < .3:
        wb.xfs = wb.xfs[:15]
        for sh in wb.sheets:
            sh.cells = {k: c for k, c in sh.cells.items() if c.xf < 15}
    data, w = xlsgen.write(wb, rng, bv, xlsgen.options(rng, nork=True))
    note(cx, wb, 'biff%d' % bv)
    with xlrd.open_workbook(file_contents=data) as book:
        M.check_book(cx, wb, book, 'biff%d' % bv)
    if cx.index % 10 == 0:
        pack(cx, wb, data, 'b.xls')


def pack(cx, wb, data, name):
    """The same seen in a pack: columns of dates are datetimes."""
    path = os.path.join(cx.tmp, name)
    with open(path, 'wb') as f:
        f.write(data)
    p = channelpack.sheetpack(path, header=False)
    sh = wb.sheets[0]
    nr, nc = sh.dims()
    for c in range(nc):
        isd = [wb.xfs[sh.cells[r, c].xf][1] for r in range(nr)
               if (r, c) in sh.cells]
        arr = p.data[c]
        cx.check((arr.dtype == np.float64) == (not any(isd)) or
                 not len(isd), 'column', c, 'is', arr, 'dates', isd)


PHASES = [Phase('xlsx', xlsx, 12000, 60000), Phase('xls', xls, 20000, 100000)]
