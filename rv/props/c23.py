"""XLS cells are read to exactly the stored values and types."""
import io
import os

from channelpack import xlrd
from rv import wbmodel as M
from rv import xlsgen
from rv.core import Phase

PROP = 'C23'
LEVEL = 'exploration'
FILES = ['xlrd/book.py', 'xlrd/sheet.py', 'xlrd/biffh.py',
         'xlrd/formatting.py']
RULE = ('Workbook models are made at random and written by an independent '
        'writer as BIFF 8, 7, 5, 4W, 4, 3, 2.1 and 2.0 record streams using '
        'all number encodings (NUMBER, RK, MULRK, INTEGER, FORMULA), text '
        'encodings (LABELSST, LABEL, RSTRING, FORMULA with STRING and '
        'CONTINUE), code pages, sheets in any order, embedded charts and '
        'non-work sheets, opened by path and by bytes, with and without '
        'formatting info, and every cell compared with the model. '
        'Non-trivial: distinct (version, code page, cell encodings, '
        'options).')
ASSUME = ['files are valid: the writer does not produce what the format '
          'forbids']


def model(rng, bv, far=.25):
    wb = M.WbModel()
    wb.datemode = rng.choice((0, 0, 1))
    wb.xfs = [(0, 0)]
    pool = [f for f in M.FORMATS]
    std = M.BUILTIN if bv >= 50 else [(0, 0), (14, 1), (20, 1), (2, 0)]
    for _ in range(rng.choice((0, 1, 4, 12))):
        wb.xfs.append(rng.choice(pool) if rng.random() < .6
                      else rng.choice(std))
    if rng.random() < .1:
        wb.xfs[0] = rng.choice(pool)
    n = rng.choice((1, 1, 2, 3, 5)) if bv >= 45 else 1
    for i in range(n):
        sh = M.SheetModel(M.sheetname(rng, i))
        sh.visibility = rng.choice((0, 0, 0, 1, 2))
        M.random_cells(rng, sh, wb)
        if rng.random() < far:
            far_cells(rng, sh, bv)
        if bv >= 80:
            M.random_merges(rng, sh)
        wb.sheets.append(sh)
    return wb


def far_cells(rng, sh, bv):
    last = 65535 if bv >= 80 else 16383
    for _ in range(rng.randint(1, 3)):
        c = rng.choice((127, 128, 254, 255, rng.randint(0, 255)))
        r = rng.choice((255, 256, 300, rng.randint(0, 500)))
        if rng.random() < .03:
            r, c = last, rng.randint(0, 2)
        sh.cells[r, c] = M.Cell('number', M.number(rng), 0)


def books(cx, data):
    rng = cx.rng
    path = os.path.join(cx.tmp, rng.choice(('b.xls', 'b.xlsx', 'b')))
    with open(path, 'wb') as f:
        f.write(data)
    fi = rng.random() < .35
    kw = dict(formatting_info=fi)
    kw['logfile'] = io.StringIO()
    if rng.random() < .1:
        kw['verbosity'] = rng.choice((1, 2, 3, 4))
    mm = rng.choice((0, 1))
    cx.note('open_workbook', kw, mm)
    yield 'path', fi, xlrd.open_workbook(path, use_mmap=mm, **kw)
    yield 'bytes', fi, xlrd.open_workbook(file_contents=data, **kw)


def strip_merges(wb):
    return [s.merges for s in wb.sheets]


def fidelity(cx):
    rng = cx.rng
    bv = rng.choice((80, 80, 80, 80, 70, 50, 45, 40, 30, 20))
    wb = model(rng, bv)
    data, w = xlsgen.write(wb, rng, bv)
    cx.note('biff', bv, 'codepage', w.codepage, w.opt)
    for sh in wb.sheets:
        cx.note('sheet', sh.name, sh.visibility, sorted(sh.cells.items()),
                sh.merges)
    for where, fi, book in books(cx, data):
        saved = [s.merges for s in wb.sheets]
        with book:
            if not fi:
                # merged ranges are formatting information in these files
                for s in wb.sheets:
                    s.merges = []
            try:
                M.check_book(cx, wb, book, 'biff%d %s' % (bv, where),
                             blanks=fi)
                if fi:
                    for i, s in enumerate(wb.sheets):
                        ws = book.sheet_by_index(i)
                        cx.check(sorted(ws.merged_cells) == sorted(s.merges),
                                 'merged', ws.merged_cells, s.merges)
                        for (r, c), cell in s.cells.items():
                            x = ws.cell_xf_index(r, c)
                            base = w.bases[i] if w.bundle else w.xfbase
                            if cell.enc == 'rstring':
                                got = ws.rich_text_runlist_map.get(
                                    (r, c)) or []
                                cx.check([tuple(y) for y in got] ==
                                         cell.extra, 'rich text runs of',
                                         r, c, got, cell.extra)
                            if not w.v20:
                                cx.check(x == cell.xf + base, 'xf', r, c,
                                         x, cell.xf + base)
            finally:
                for s, m in zip(wb.sheets, saved):
                    s.merges = m
        cx.count('books of biff%d' % bv)
    kinds = sorted({(c.kind, c.enc) for s in wb.sheets
                    for c in s.cells.values()}, key=repr)
    cx.sig(bv, w.codepage, w.v20, kinds, sorted(
        (k, v) for k, v in w.opt.items() if k != 'sst'))


def wide(cx):
    """Rows as wide as the format allows, and many records in a row."""
    rng = cx.rng
    bv = rng.choice((80, 80, 70, 50))
    wb = M.WbModel()
    wb.xfs = [(0, 0), ('yyyy\\-mm\\-dd', 1), ('0.00', 0)]
    sh = M.SheetModel('wide')
    wb.sheets.append(sh)
    kinds = rng.choice((('number',), ('blank',), ('number', 'blank')))
    for r in range(rng.randint(1, 3)):
        kind = rng.choice(kinds)
        c0 = rng.choice((0, 0, rng.randint(0, 100)))
        for c in range(c0, rng.choice((256, 256, 255, rng.randint(
                120, 256)))):
            if rng.random() < .003:
                continue
            sh.cells[r, c] = M.Cell(kind, M.number(rng) if kind == 'number'
                                    else '', rng.choice((0, 0, 1, 2)))
            if kind == 'number':
                x = sh.cells[r, c]
                x.value, x.extra = M.rk_number(rng)
                x.enc = 'rk'
    o = xlsgen.options(rng, shuffle_cells=False)
    data, w = xlsgen.write(wb, rng, bv, o)
    cx.note('biff', bv, 'rows of', kinds, sh.dims(True))
    for where, fi, book in books(cx, data):
        with book:
            M.check_book(cx, wb, book, 'biff%d wide %s' % (bv, where),
                         blanks=fi)
    cx.sig('wide', bv, kinds, sh.dims(True), len(sh.cells))


def many(cx):
    """Many sheets, many cells, all rows."""
    rng = cx.rng
    bv = rng.choice((80, 80, 70, 50))
    wb = M.WbModel()
    wb.xfs = [(0, 0), ('yyyy\\-mm\\-dd', 1), ('0.00', 0)]
    what = ('sheets', 'dense', 'tall')[cx.index % 3]
    if what == 'sheets':
        for i in range(rng.choice((65, 130, 255, 256, 257, 300))):
            sh = M.SheetModel('Sheet %d' % i)
            sh.cells[0, i % 3] = M.Cell('number', float(i), i % 2)
            wb.sheets.append(sh)
    else:
        nr, nc = (rng.randint(150, 400), rng.randint(100, 220)) \
            if what == 'dense' else (rng.choice((
                16385, 32769, 65536 if bv >= 80 else 16384)), 2)
        if bv < 80:
            nr = min(nr, 16384)
        sh = M.SheetModel(what)
        for r in range(nr):
            for c in range(nc):
                sh.cells[r, c] = M.Cell('number', r * 1000. + c + .5, 0)
        for _ in range(200):
            r, c = rng.randrange(nr), rng.randrange(nc)
            sh.cells[r, c] = M.Cell('text', 't%d' % rng.randint(0, 50), 2)
        wb.sheets.append(sh)
    data, w = xlsgen.write(wb, rng, bv, xlsgen.options(
        rng, shuffle_cells=False))
    cx.note('biff', bv, 'many', what, len(data))
    rag = rng.random() < .4
    fi = rng.random() < .5
    with xlrd.open_workbook(file_contents=data, formatting_info=fi,
                            ragged_rows=rag, logfile=io.StringIO()) as book:
        M.check_book(cx, wb, book, 'biff%d many' % bv, blanks=fi, ragged=rag)
    cx.sig('many', what, bv, cx.index)


PHASES = [Phase('fidelity', fidelity, 5000, 100000),
          Phase('wide', wide, 160, 4000),
          Phase('many', many, 24, 120)]
