"""Notes, links and layout of xls sheets are as stored."""
from rv import annot
from rv import wbmodel as M
from rv import xlsgen
from rv.core import Phase
from rv.props import c23

PROP = 'C33'
LEVEL = 'exploration'
FILES = ['xlrd/sheet.py', 'xlrd/biffh.py', 'xlrd/book.py']
RULE = ('Sheets with random notes (texts split over records, rich text '
        'runs, authors, other objects in between), links of every kind, '
        'label and merged ranges, page breaks, row and column settings, '
        'default widths and heights, window settings, panes and zoom are '
        'written by an independent writer in BIFF 8, 7, 5, 4, 3 and 2 among '
        'the cells, opened with and without formatting info, and everything '
        'compared with the model, cells included. Non-trivial: distinct '
        '(version, what there is in the sheets, formatting info).')
ASSUME = ['files are valid: the writer does not produce what the format '
          'forbids', 'local file links have either parent directory levels '
          'or a unicode path, not both',
          'for BIFF 2 computed column widths are not covered']


def sheets(cx):
    rng = cx.rng
    bv = rng.choice((80, 80, 80, 80, 70, 50, 40, 30, 20))
    wb = c23.model(rng, bv, far=.05)
    if bv == 20 and len(wb.xfs) > 20:
        del wb.xfs[20:]
    for sh in wb.sheets:
        sh.annot = annot.Annot(rng, bv, len(wb.xfs))
    data, w = xlsgen.write(wb, rng, bv)
    cx.note('biff', bv, 'codepage', w.codepage, w.opt)
    for sh in wb.sheets:
        cx.note('sheet', sh.name, sorted(
            (k, v) for k, v in sh.annot.__dict__.items()
            if k not in ('rng', 'has')))
    for where, fi, book in c23.books(cx, data):
        saved = [s.merges for s in wb.sheets]
        with book:
            if not fi:
                for s in wb.sheets:
                    s.merges = []
            try:
                M.check_book(cx, wb, book, 'biff%d %s' % (bv, where),
                             blanks=fi)
                for i, s in enumerate(wb.sheets):
                    ws = book.sheet_by_index(i)
                    cx.check([tuple(x) for x in ws.merged_cells] == s.merges,
                             'merged', ws.merged_cells, s.merges)
                    s.annot.check(cx, ws, fi, 'biff%d %s sheet %d' % (
                        bv, where, i))
                    if fi and not w.v20:
                        formats(cx, s, ws, where)
            finally:
                for s, m in zip(wb.sheets, saved):
                    s.merges = m
        cx.count('books of biff%d' % bv)
    cx.sig(bv, fi, [(len(a.notes), [x['type'] for x in a.links],
                     len(a.rows), len(a.cols), a.defcol, a.std,
                     a.scl, bool(a.window))
                    for a in (s.annot for s in wb.sheets)])


def formats(cx, s, ws, where):
    """The format of a cell, or of its row or column if it has none."""
    rng, a = cx.rng, s.annot
    cols = {}
    for x in a.cols:
        if a.bv == 20:
            # nothing about formats there
            cols.update(dict.fromkeys(range(x[0], x[1] + 1), 15 - a.xfbase))
            continue
        cols.update(dict.fromkeys(range(x[0], x[1] + 1), x[3]))
    cols.update(a.coldef)
    keys = sorted(s.cells)
    rng.shuffle(keys)
    spots = keys[:50]
    if ws.nrows and ws.ncols:
        spots += [(rng.randrange(ws.nrows), rng.randrange(ws.ncols))
                  for _ in range(50)]
        spots += [(r, rng.randrange(ws.ncols)) for r in a.rows
                  if r < ws.nrows]
    for r, c in spots:
        if (r, c) in s.cells:
            kind, exp = 'cell', s.cells[r, c].xf
        elif r in a.rows and a.rows[r]['has_default_xf_index']:
            kind, exp = 'row', a.rows[r]['xf_index']
        elif c in cols:
            kind, exp = 'column', cols[c]
        else:
            kind, exp = 'default', 15 - a.xfbase
        got = ws.cell_xf_index(r, c) - a.xfbase
        cx.check(got == exp, where, 'format of the cell at', r, c, 'is', got,
                 'expected', exp, 'of the', kind)
        cx.count('formats of the ' + kind)


PHASES = [Phase('sheets', sheets, 8000, 80000)]
