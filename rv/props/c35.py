"""Fonts, cell formats, styles and colours of xls workbooks are as stored."""
import io

from channelpack import xlrd
from rv import look
from rv import wbmodel as M
from rv import xlsgen
from rv.core import Phase
from rv.props import c23

PROP = 'C35'
LEVEL = 'exploration'
FILES = ['xlrd/formatting.py', 'xlrd/book.py', 'xlrd/sheet.py']
RULE = ('Workbooks get random fonts, XF records with every attribute random '
        '(alignment, borders, background, protection, validity flags, '
        'parent), styles, number formats and a palette, written by an '
        'independent writer in BIFF 8, 7, 5, 4, 3 and 2, and are opened with '
        'formatting info. All attributes, the colour map, the style map, '
        'and for every cell the format it leads to, are compared with the '
        'model. Non-trivial: distinct (version, fonts, formats, styles).')
ASSUME = ['files are valid: the writer does not produce what the format '
          'forbids', 'colour indexes outside of the palette, and XF records '
          'with no font or number format in the file, are not covered']


def formats(cx):
    rng = cx.rng
    bv = rng.choice((80, 80, 80, 70, 50, 40, 30, 20))
    wb = c23.model(rng, bv, far=0)
    if bv == 20 and len(wb.xfs) > 20:
        del wb.xfs[20:]
        for sh in wb.sheets:
            for c in sh.cells.values():
                c.xf = min(c.xf, 19)
    lk = look.Look(rng, bv)
    opt = xlsgen.options(rng, look=lk)
    opt['v20'] = False
    data, w = xlsgen.write(wb, rng, bv, opt)
    cx.note('biff', bv, 'codepage', w.codepage)
    kw = dict(verbosity=rng.choice((0, 0, 0, 1, 2)), logfile=io.StringIO())
    with xlrd.open_workbook(file_contents=data, formatting_info=True,
                            **kw) as book:
        where = 'biff%d' % bv
        M.check_book(cx, wb, book, where, blanks=True)
        lk.check(cx, book, where)
        cells(cx, wb, book, w, where)
    cx.sig(bv, lk.fontspecs, lk.xfs, sorted(lk.styles))
    cx.count('books of biff%d' % bv)


def excel2(cx):
    """Cells with all attributes of their own."""
    rng = cx.rng
    wb = c23.model(rng, 20, far=0)
    del wb.xfs[rng.choice((1, 20, 20, 20)):]
    for c in wb.sheets[0].cells.values():
        c.xf = min(c.xf, len(wb.xfs) - 1)
    opt = xlsgen.options(rng)
    opt['v20'] = True
    data, w = xlsgen.write(wb, rng, 20, opt)
    cx.note('codepage', w.codepage, len(w.attrs20), 'cells')
    with xlrd.open_workbook(file_contents=data, formatting_info=True,
                            logfile=io.StringIO()) as book:
        M.check_book(cx, wb, book, 'excel 2.0', blanks=True)
        ws = book.sheet_by_index(0)
        by = {}
        for (r, c), a in w.attrs20.items():
            if (r, c) not in wb.sheets[0].cells:
                continue
            x = ws.cell_xf_index(r, c)
            cx.check(by.setdefault(a, x) == x, 'format number of', a.hex(),
                     'is', x, 'and', by[a])
            attrs20(cx, book.xf_list[x], a, (r, c))
            f = book.format_map[book.xf_list[x].format_key]
            key = wb.xfs[wb.sheets[0].cells[r, c].xf][0]
            cx.check(f.format_str == xlsgen.STD.get(key, key), 'format of',
                     r, c, f.format_str, key)
            cx.count('cells of Excel 2.0 compared')
        for i, xf in enumerate(book.xf_list):
            style = i < 15
            cx.check(xf.xf_index == i, 'xf_index', xf.xf_index, i)
            cx.check((xf.is_style, xf.parent_style_index) == (
                int(style), 0xFFF if style else 0), 'format', i,
                'is_style and parent_style_index', xf.is_style,
                xf.parent_style_index)
    cx.sig('excel2', sorted(by))


def attrs20(cx, xf, a, at):
    """An XF object is as the three bytes say."""
    p, f, h = a
    got = dict(locked=xf.protection.cell_locked,
               hidden=xf.protection.formula_hidden, key=xf.format_key,
               font=xf.font_index, hor=xf.alignment.hor_align,
               vert=xf.alignment.vert_align, wrap=xf.alignment.text_wrapped,
               rot=xf.alignment.rotation, fill=xf.background.fill_pattern,
               colours=(xf.background.pattern_colour_index,
                        xf.background.background_colour_index))
    exp = dict(locked=p >> 6 & 1, hidden=p >> 7, key=f & 63, font=f >> 6,
               hor=h & 7, vert=2, wrap=0, rot=0, fill=17 * (h >> 7),
               colours=(8, 9))
    for i, s in enumerate(('left', 'right', 'top', 'bottom')):
        on = h >> (i + 3) & 1
        exp[s] = on, 8 * on
        got[s] = (getattr(xf.border, s + '_line_style'),
                  getattr(xf.border, s + '_colour_index'))
    cx.check(got == exp, 'attributes', a.hex(), 'at', at, {
        k: (got[k], exp[k]) for k in exp if got[k] != exp[k]},
        '(got, expected)')


def cells(cx, wb, book, w, where):
    for i, s in enumerate(wb.sheets):
        ws = book.sheet_by_index(i)
        for (r, c), cell in s.cells.items():
            x = ws.cell_xf_index(r, c)
            cx.check(x == cell.xf + w.xfbase, where, 'xf', r, c, x,
                     cell.xf + w.xfbase)
            cx.check(ws.cell(r, c).xf_index == x, where, 'cell().xf_index')
            key, date = wb.xfs[cell.xf]
            f = book.format_map[book.xf_list[x].format_key]
            exp = key if isinstance(key, str) else xlsgen.STD.get(key) \
                if w.bv < 50 else None
            if exp is not None:
                cx.check(f.format_str == exp, where, 'format of', r, c,
                         repr(f.format_str), 'expected', repr(exp))
            elif w.bv >= 50:
                cx.check(f.format_key == key, where, 'format of', r, c,
                         f.format_key, 'expected', key)
        cx.count('cells compared', len(s.cells))


PHASES = [Phase('formats', formats, 14000, 200000),
          Phase('excel2', excel2, 2000, 20000)]
