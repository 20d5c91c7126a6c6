"""Cells, columns and ranges are named as in spread sheets."""
import io
import re

from channelpack import xlrd
from rv import namegen, xlsgen, xlsxgen
from rv import wbmodel as M
from rv.core import Phase
from rv.props import c23

PROP = 'C39'
LEVEL = 'exploration'
FILES = ['xlrd/formula.py', 'xlrd/book.py']
RULE = ('Every column number of any format is named, and random cells, '
        'references and relative references are given as text in both '
        'notations, for workbooks with sheet names of all kinds; the text is '
        'parsed by the rules of spread sheets (letters counted, quotes '
        'undone) and must mean the very cells and sheets. The same for the '
        'text of defined names that refer to cells. Non-trivial: distinct '
        '(reference, flags, notation, base).')
ASSUME = ['relative references are those of xls files, which wrap around at '
          '65536 rows and 256 columns',
          'of a base cell both the row and the column are given']

A1 = re.compile(r'(\$?)([A-Z]+)(\$?)([1-9]\d*)\Z')
RC = re.compile(r'R(?:([1-9]\d*)|\[(-?\d+)\])?C(?:([1-9]\d*)|\[(-?\d+)\])?\Z')


def number(letters):
    n = 0
    for c in letters:
        n = n * 26 + ord(c) - ord('A') + 1
    return n - 1


def parse(text, rc=False):
    """(row, row relative, col, col relative) or None"""
    m = (RC if rc else A1).match(text)
    if not m:
        return None
    a, b, c, d = m.groups()
    if rc:
        return int(a) - 1 if a else int(b or 0), a is None, \
            int(c) - 1 if c else int(d or 0), c is None
    return int(d) - 1, not c, number(b), not a


def quoted(s):
    return "'" + s.replace("'", "''") + "'"


def sheetnames(names, lo, hi):
    """All right ways to write the sheets."""
    def ways(s):
        return {quoted(s)} | (set() if "'" in s or ' ' in s else {s})
    if hi == lo + 1:
        return ways(names[lo])
    a, b = names[lo], names[hi - 1]
    return {x + ':' + y for x in ways(a) for y in ways(b)} | {
        quoted(a + ':' + b)}


def area(cx, text, coords, flags, base, what, rc=False):
    """text means the area."""
    r1, r2, c1, c2 = coords
    f = [bool(x) for x in flags]
    ends = text.split(':')
    cx.check(len(ends) <= 2, what, 'is', text)
    ends = [parse(x, rc) for x in (ends * 2)[:2]]
    cx.check(None not in ends, what, 'is', text)
    want = [(r1, f[0], c1, f[2]), (r2 - 1, f[1], c2 - 1, f[3])]
    for e, (r, rr, c, cr) in zip(ends, want):
        if not rc:
            r = (base[0] + r) % 65536 if rr else r
            c = (base[1] + c) % 256 if cr else c
        cx.check(e == (r, rr, c, cr), what, 'is', text, 'meaning', e,
                 'expected', (r, rr, c, cr))


def columns(cx):
    """All columns, in a block of numbers."""
    rng = cx.rng
    for c in range(cx.index * 128, cx.index * 128 + 128):
        nm = xlrd.colname(c)
        cx.check(re.match('[A-Z]+\\Z', nm) and number(nm) == c, 'column', c,
                 'is', nm)
        r = rng.choice((0, 1, 9, 65535, 65536, 1048575, rng.randint(0, 10**6)))
        cx.check(parse(xlrd.cellname(r, c)) == (r, True, c, True),
                 'cellname', r, c, xlrd.cellname(r, c))
        cx.check(parse(xlrd.cellnameabs(r, c)) == (r, False, c, False),
                 'cellnameabs', r, c, xlrd.cellnameabs(r, c))
        cx.check(parse(xlrd.cellnameabs(r, c, r1c1=1), True) == (
            r, False, c, False), 'cellnameabs', r, c,
            xlrd.cellnameabs(r, c, 1))
        cx.sig(c, nm)


NAMES = ('Sheet1', 'My data', "Tom's", "it''s", 'a b c', "'", ' x', 'Data-2',
         'åäö', '日本', 'A1', '1', 'Sheet 2', "x 'y' z", 'R1C1', 'a.b', 'x_y')


def references(cx):
    rng = cx.rng
    wb = M.WbModel()
    wb.xfs = [(0, 0)]
    names = rng.sample(NAMES, rng.randint(1, 6))
    for nm in names:
        sh = M.SheetModel(nm)
        sh.cells[0, 0] = M.Cell('number', 1.5, 0)
        wb.sheets.append(sh)
    if rng.random() < .3:
        data, w = xlsxgen.write(wb, rng, dict(xlsxgen.PLAIN))
    else:
        data, w = xlsgen.write(wb, rng, 80)
    with xlrd.open_workbook(file_contents=data,
                            logfile=io.StringIO()) as book:
        for _ in range(30):
            reference(cx, rng, book, names)


def reference(cx, rng, book, names):
    lo = rng.randrange(len(names))
    hi = lo + 1 if rng.random() < .7 else rng.randint(lo + 1, len(names))

    def pair(n):
        a = rng.choice((0, n - 1, rng.randrange(n), rng.randrange(min(n, 40))))
        if rng.random() < .3:
            return a, a + 1
        return a, rng.choice((n, rng.randint(a + 1, n)))
    big = rng.random() < .3
    coords = pair(1048576 if big else 65536) + pair(16384 if big else 256)
    what = 'sheets', lo, hi, 'area', coords
    ref = xlrd.Ref3D((lo, hi) + coords)
    text = xlrd.rangename3d(book, ref)
    cx.note(*what)
    sheet, at = text.rsplit('!', 1)
    cx.check(sheet in sheetnames(names, lo, hi), what, 'is', text)
    area(cx, at, coords, (0, 0, 0, 0), None, what)
    cx.sig(names[lo], coords)
    if big:
        return
    here = rng.random() < .3    # relative to the sheet
    flags = tuple(rng.randint(0, 1) for _ in range(4))
    co = []
    for i, n in ((0, 65536), (2, 256)):
        ends = [rng.randint(-n // 2, n // 2 - 1) if flags[i + j] and
                rng.random() < .7 else rng.choice((0, n - 1, rng.randrange(
                    n))) for j in (0, 1)]
        co += [ends[0], ends[1] + 1]
    ref = xlrd.Ref3D(((0, 1) if here else (lo, hi)) + tuple(co) +
                     (here, here) + flags)
    base = None if rng.random() < .5 else (
        rng.choice((0, 5, 65535, rng.randrange(65536))),
        rng.choice((0, 5, 255, rng.randrange(256))))
    r1c1 = rng.randint(0, 1)
    what = 'relative', co, flags, 'base', base, 'r1c1', r1c1
    cx.note(*what)
    args = base or (None, None)
    text = xlrd.rangename3drel(book, ref, args[0], args[1], r1c1) \
        if rng.random() < .5 else xlrd.rangename3drel(
            book, ref, browx=args[0], bcolx=args[1], r1c1=r1c1)
    if here:
        cx.check('!' not in text, what, 'is', text)
        at = text
    else:
        sheet, at = text.rsplit('!', 1)
        cx.check(sheet in sheetnames(names, lo, hi), what, 'is', text)
    # with no base a relative one can only be given as such
    area(cx, at, co, flags, base, what,
         bool(r1c1 or base is None and any(flags)))
    cx.sig(flags, tuple(co), base, r1c1, here)


def named(cx):
    """The text of defined names that refer to an area."""
    rng = cx.rng
    bv = rng.choice((80, 80, 70, 50))
    wb = c23.model(rng, bv, far=0)
    ns = namegen.Names(rng, wb, bv)
    data, w = xlsgen.write(wb, rng, bv, xlsgen.options(rng, globals=ns.emit))
    with xlrd.open_workbook(file_contents=data,
                            logfile=io.StringIO()) as book:
        names = book.sheet_names()
        for i, o in enumerate(book.name_obj_list):
            kind, value, must = ns.resolve(i)
            res = o.result
            if kind != 'ref' or not must or not value or len(value) != 1 or \
               res is None or not res.text or res.text.count('!') != 1:
                continue
            fml = ns.items[i].fml
            if (fml[0] & 0x1f, len(fml)) not in (
                    ((0x1a, 7), (0x1b, 11)) if bv >= 80 else
                    ((0x1a, 18), (0x1b, 21))):
                continue        # something else than a plain reference
            text = res.text
            co = value[0]
            if min(co[:2]) < 0:
                continue
            cx.note('name', i, ns.items[i].fml.hex(), co, text)
            sheet, at = text.rsplit('!', 1)
            cx.check(sheet in sheetnames(names, *co[:2]), 'name', i,
                     'referring to', co, 'is', text)
            area(cx, at, co[2:], (0, 0, 0, 0), None, ('name', i))
            cx.count('names compared')
            cx.sig('name', names[co[0]], co)


PHASES = [Phase('columns', columns, 128, 128),
          Phase('references', references, 6000, 60000),
          Phase('named', named, 4000, 40000)]
