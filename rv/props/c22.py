"""XLSX cells are read to exactly the stored values and types."""
import io
import os

from channelpack import xlrd
from rv import wbmodel as M
from rv import xlsxgen
from rv.core import Phase

PROP = 'C22'
LEVEL = 'exploration'
FILES = ['xlrd/xlsx.py', 'xlrd/sheet.py', 'xlrd/__init__.py']
RULE = ('Workbook models are made at random and written to xlsx by an '
        'independent writer in random equivalent encodings (references '
        'omitted, $ and lower case, namespace prefixes, xml encodings, '
        'char references, rich, inline, shared and formula strings, part '
        'names in any case and order, relative or absolute targets, wrong '
        'dimension hints, style lists), opened by path and by bytes, and '
        'every cell of every sheet compared with the model, as are names, '
        'notes, merges, visibility and date system. Non-trivial: distinct '
        '(encoding options, kinds of cells).')
ASSUME = ['files are valid: the writer does not produce what the format '
          'forbids, except wrong dimension hints, which are but hints',
          'text runs without xml:space="preserve" have no meaningful space '
          'at their ends']


def model(rng, far=.2):
    wb = M.WbModel()
    wb.datemode = rng.choice((0, 0, 1))
    wb.xfs = [(0, 0)]
    for _ in range(rng.choice((0, 1, 4, 12))):
        wb.xfs.append(rng.choice(M.FORMATS) if rng.random() < .6
                      else rng.choice(M.BUILTIN))
    if rng.random() < .1:
        wb.xfs[0] = rng.choice(M.FORMATS)
    for i in range(rng.choice((1, 1, 2, 3, 5))):
        sh = M.SheetModel(M.sheetname(rng, i))
        sh.visibility = rng.choice((0, 0, 0, 1, 2))
        M.random_cells(rng, sh, wb)
        if rng.random() < far:
            far_cells(rng, sh, wb)
        M.random_merges(rng, sh)
        notes(rng, sh)
        wb.sheets.append(sh)
    names(rng, wb)
    return wb


def far_cells(rng, sh, wb):
    """Far out columns, and rows not that far."""
    for _ in range(rng.randint(1, 3)):
        c = rng.choice((25, 26, 27, 51, 52, 255, 256, 257, 700, 701, 702,
                        703, 728, 16383, rng.randint(0, 16383)))
        r = rng.choice((0, 1, 8, 9, 10, 98, 99, 100, rng.randint(0, 40)))
        if c > 1000:
            r = min(r, 12)
        sh.cells[r, c] = M.Cell('number', M.number(rng), 0)


def notes(rng, sh):
    for _ in range(rng.choice((0, 0, 1, 4))):
        rc = (rng.randint(0, 30), rng.randint(0, 800))
        sh.notes[rc] = (rng.choice(('me', 'A & B', 'R\xe4v', '\u4e2d')),
                        M.text(rng))


def more(rng):
    """Attributes of macros."""
    return [(k, rng.choice(v)) for k, v in (
        ('function', ('1', 'true', '0')), ('vbProcedure', ('1', '0', 'false')),
        ('xlm', ('1', '0')), ('functionGroupId', ('0', '1', '14', '300')))
        if rng.random() < .2]


def names(rng, wb):
    used = set()
    for _ in range(rng.choice((0, 0, 1, 5))):
        name = rng.choice(('Total', 'total', 'x', 'A.b', '_xlnm.Print_Area',
                           'R\xe4v', 'Zeit'))
        scope = rng.choice((-1, -1) + tuple(range(len(wb.sheets))))
        if (name.lower(), scope) in used:
            continue
        used.add((name.lower(), scope))
        wb.names.append(dict(
            name=name, scope=scope, hidden=rng.choice((0, 0, 1)),
            more=more(rng), formula=rng.choice(("Sheet1!$A$1", "'a b'!$B$2:$C$3", '"x"',
                                'A1<>B1&"y"', '1.5'))))


def open_both(cx, data):
    """Yield books from a path and from bytes."""
    path = os.path.join(cx.tmp, cx.rng.choice(('b.xlsx', 'b.xls', 'b')))
    with open(path, 'wb') as f:
        f.write(data)
    log = io.StringIO()
    kw = dict(logfile=log) if cx.rng.random() < .5 else {}
    if cx.rng.random() < .1:
        kw['verbosity'] = cx.rng.choice((1, 2, 3))
        kw['logfile'] = log
    if cx.rng.random() < .2:
        kw['on_demand'] = True
    if cx.rng.random() < .3:
        kw['use_mmap'] = cx.rng.choice((0, 1))
    cx.note('open_workbook', kw)
    yield 'path', xlrd.open_workbook(path, **kw)
    yield 'bytes', xlrd.open_workbook(file_contents=data, **kw)


def check_rest(cx, wb, book, where):
    for i, sh in enumerate(wb.sheets):
        ws = book.sheet_by_index(i)
        cx.check(sorted(ws.merged_cells) == sorted(sh.merges), where,
                 'merged_cells', ws.merged_cells, 'expected', sh.merges)
        got = {k: (n.author, n.text, n.rowx, n.colx)
               for k, n in ws.cell_note_map.items()}
        exp = {k: v + k for k, v in sh.notes.items()}
        cx.check(got == exp, where, 'notes', got, 'expected', exp)
    got = [(n.name, n.scope, n.hidden, n.formula_text, bool(n.builtin))
           for n in book.name_obj_list]
    exp = [(n['name'], n['scope'], n['hidden'], n['formula'],
            n['name'].startswith('_xlnm.')) for n in wb.names]
    cx.check(got == exp, where, 'defined names', got, 'expected', exp)
    for o, n in zip(book.name_obj_list, wb.names):
        m = dict(n['more'])
        e = [int(m.get(k, '0') in ('1', 'true')) for k in (
            'function', 'vbProcedure', 'xlm')] + [
                int(m.get('functionGroupId', '0'))]
        g = [o.func or 0, o.vbasic or 0, o.macro or 0, o.funcgroup or 0]
        cx.check(g == e, where, 'attributes of name', n, 'are', g, 'expected',
                 e)
    for n in wb.names:
        o = book.name_and_scope_map[n['name'].lower(), n['scope']]
        cx.check(o.formula_text == n['formula'], where, 'name', n, 'gave', o)
        scopes = [x.scope for x in book.name_map[n['name'].lower()]]
        cx.check(scopes == sorted(scopes) and n['scope'] in scopes, where,
                 'name_map scopes', scopes)
    cx.count('notes compared', sum(len(s.notes) for s in wb.sheets))
    cx.count('merges compared', sum(len(s.merges) for s in wb.sheets))
    cx.count('defined names compared', len(wb.names))


def fidelity(cx):
    rng = cx.rng
    wb = model(rng)
    opt = xlsxgen.options(rng)
    if all(c.xf == 0 for s in wb.sheets for c in s.cells.values()) and \
       wb.xfs[0][1] == 0 and rng.random() < .3:
        opt['styles'] = False
    data, w = xlsxgen.write(wb, rng, opt)
    cx.note('options', sorted(opt.items()))
    for sh in wb.sheets:
        cx.note('sheet', sh.name, sh.visibility, sorted(sh.cells.items()),
                sh.merges, sh.notes)
    kinds = sorted({(c.kind, c.enc) for s in wb.sheets
                    for c in s.cells.values()}, key=repr)
    for where, book in open_both(cx, data):
        with book:
            M.check_book(cx, wb, book, where)
            check_rest(cx, wb, book, where)
        cx.count('books opened')
    cx.sig(sorted(opt.items()), kinds)


def tall(cx):
    """Rows beyond what the older formats can hold."""
    rng = cx.rng
    wb = M.WbModel()
    wb.xfs = [(0, 0), (14, 1)]
    sh = M.SheetModel('Tall')
    last = rng.choice((65535, 65536, 70000, 99999, 100000))
    for r in [0, 9, 10, 99, 100, 999, 1000, 9999, 10000, last]:
        sh.cells[r, rng.randint(0, 2)] = M.Cell('number', M.number(rng),
                                                rng.randint(0, 1))
    for _ in range(300):
        sh.cells[rng.randint(0, last), rng.randint(0, 2)] = M.Cell(
            'text', M.text(rng), 0)
    wb.sheets.append(sh)
    opt = dict(xlsxgen.PLAIN, rowref=rng.choice(('always', 'mixed')))
    data, w = xlsxgen.write(wb, rng, opt)
    with xlrd.open_workbook(file_contents=data) as book:
        M.check_book(cx, wb, book)
    cx.note('tall sheet of', last + 1, 'rows')
    cx.sig('tall', last, cx.index)


def many(cx):
    """Many of everything: strings, sheets, formats, long texts."""
    rng = cx.rng
    wb = M.WbModel()
    wb.xfs = [(0, 0), (14, 1)]
    what = ('strings', 'sheets', 'long', 'dense')[cx.index % 4]
    if what == 'strings':
        # more than a third of them are elsewhere than in the shared table
        n = rng.choice((60000, 70000, 115000))
        sh = M.SheetModel('Many')
        for i in range(n):
            sh.cells[i // 4, i % 4] = M.Cell('text', 't%x' % i, 0)
        wb.sheets.append(sh)
    elif what == 'sheets':
        for i in range(rng.choice((130, 256, 257, 300))):
            sh = M.SheetModel('Sheet %d' % i)
            sh.cells[0, i % 3] = M.Cell('number', float(i), i % 2)
            wb.sheets.append(sh)
    elif what == 'long':
        sh = M.SheetModel('Long')
        for i in range(8):
            sh.cells[i, 0] = M.Cell('text', rng.choice(
                'ab\u03b1\U0001f600') * rng.choice(
                    (255, 256, 8192, 32767, 32768, 65535, 70000)), 0)
        wb.sheets.append(sh)
    else:
        sh = M.SheetModel('Dense')
        for r in range(rng.randint(100, 300)):
            for c in range(120):
                sh.cells[r, c] = M.Cell('number', r * 1000. + c, 0)
        wb.sheets.append(sh)
    data, w = xlsxgen.write(wb, rng, dict(xlsxgen.PLAIN))
    cx.note('many', what, len(data))
    with xlrd.open_workbook(file_contents=data) as book:
        M.check_book(cx, wb, book)
    cx.sig('many', what, cx.index)


PHASES = [Phase('fidelity', fidelity, 10000, 60000),
          Phase('tall', tall, 8, 40),
          Phase('many', many, 16, 80)]
