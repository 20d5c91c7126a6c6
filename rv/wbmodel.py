"""A model of a workbook, and comparison of what the reader gives with it.

The model is the oracle: it is made first, at random, and files are
written from it (xlsxgen, xlsgen), in some of the many encodings the file
formats allow. What the reader gives must be the model.
"""
import math

EMPTY, TEXT, NUMBER, DATE, BOOLEAN, ERROR, BLANK = range(7)

ERRORS = {0x00: '#NULL!', 0x07: '#DIV/0!', 0x0F: '#VALUE!', 0x17: '#REF!',
          0x1D: '#NAME?', 0x24: '#NUM!', 0x2A: '#N/A'}

# (format code, is date): clear cases only. c31.py goes further.
FORMATS = [
    ('General', 0), ('0.00', 0), ('#,##0', 0), ('0%', 0),
    ('yyyy\\-mm\\-dd', 1), ('dd/mm/yy', 1), ('h:mm:ss', 1),
    ('"day "0', 0), ('[Red]0.0;[Blue]-0.0', 0), ('d mmm yyyy', 1),
    ('0.00" hours"', 0), ('[$-409]mmmm d', 1), ('yyyy\\-mm\\-dd hh:mm', 1),
    ('@', 0), ('0.000E+00', 0),
]
# builtin ids that need no format record, and whether they are dates
BUILTIN = [(0, 0), (1, 0), (2, 0), (4, 0), (9, 0), (10, 0), (11, 0), (12, 0),
           (14, 1), (15, 1), (17, 1), (20, 1), (21, 1), (22, 1), (37, 0),
           (40, 0), (45, 1), (46, 1), (47, 1), (48, 0), (49, 0)]


class Cell(object):
    __slots__ = ('kind', 'value', 'xf', 'enc', 'extra')

    def __init__(self, kind, value, xf=0):
        self.kind, self.value, self.xf = kind, value, xf
        self.enc = self.extra = None

    def expected(self, wb):
        if self.kind == 'number':
            return (DATE if wb.xfs[self.xf][1] else NUMBER), self.value
        return {'text': TEXT, 'bool': BOOLEAN, 'error': ERROR,
                'blank': BLANK}[self.kind], self.value

    def __repr__(self):
        return 'Cell(%s %r xf=%d %s)' % (self.kind, self.value, self.xf,
                                         self.enc or '')


class SheetModel(object):
    def __init__(self, name):
        self.name = name
        self.visibility = 0
        self.cells = {}
        self.merges = []    # rlo, rhi, clo, chi half open
        self.notes = {}     # (r, c): (author, text)

    def dims(self, blanks=False):
        pos = [rc for rc, c in self.cells.items()
               if blanks or c.kind != 'blank']
        nr = max([r + 1 for r, c in pos] + [m[1] for m in self.merges] + [0])
        nc = max([c + 1 for r, c in pos] + [m[3] for m in self.merges] + [0])
        return nr, nc


class WbModel(object):
    def __init__(self):
        self.sheets = []
        self.datemode = 0
        self.xfs = []        # (format key or code, is date)
        self.names = []      # defined names, dicts


# -- random parts

WORDS = ['a', 'speed', 'Zeit', 'x y', '0', '1.5', 'TRUE', '#N/A', 'nan',
         '2020-01-01', "it's", '"q"', '<b>&amp;</b>', '_x', 'x0041', '=A1',
         'R\xe4vs', '\u03b1\u03b2', '\u4e2d\u6587', '\U0001f600', '\xa0',
         '\xff', '\u0100', '~', '-', ',', ';']


def text(rng, maxlen=40, controls=True):
    r = rng.random()
    if r < .45:
        return rng.choice(WORDS)
    if r < .5:
        return ''
    if r < .6:
        # leading, trailing and inner space
        return rng.choice((' ', '\t', '\n', '  ', '')) + rng.choice(WORDS) + \
            rng.choice((' ', '\n', ' \t ', '')) + rng.choice(WORDS) + \
            rng.choice((' ', '\n', ''))
    n = rng.randint(1, maxlen)
    pool = rng.choice((
        'abcXYZ 019.,', 'abc\xe5\xe4\xf6\xff', '\u03b1\u03b2\u0416\u4e2d',
        'ab\u03b1', 'a\U0001f600\U00010000\u4e2d', '<>&"\'\\/',
        '_x0A1F_', ' \tab', 'a\x01\x02\x1f\x7f' if controls else 'ab'))
    return ''.join(rng.choice(pool) for _ in range(n))


def number(rng):
    r = rng.random()
    if r < .2:
        return float(rng.randint(-100, 100))
    if r < .35:
        return float(rng.randint(-2 ** 31, 2 ** 31))
    if r < .5:
        return rng.randint(-10 ** 6, 10 ** 6) / 100.
    if r < .65:
        return round(rng.uniform(1, 60000), rng.randint(0, 12))
    if r < .8:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)
    if r < .9:
        return rng.choice((0.0, -0.0, 1.0, .1, 1 / 3., 2.0 ** 53, 1e-308,
                           5e-324, 1.7976931348623157e308, 123456789012345.,
                           -1.0, 536870911.0, 536870912.0, -536870912.0,
                           -536870913.0, 5368709.11, 5368709.12,
                           -5368709.12, -5368709.13, .01, .07, 1.15, 100.0,
                           65535.0, 65536.0, 255.0, 256.0, 32767.0, 32768.0,
                           -32768.0))
    if r < .91:
        return rng.choice((-1, 1)) * math.ldexp(
            rng.choice((1, rng.uniform(.5, 1))), rng.choice(
                (1023, 1010, 1009, rng.randint(900, 1023), -1022, -1030)))
    return math.ldexp(rng.random(), rng.randint(-40, 40))


def rk_number(rng):
    """Numbers that the RK encoding can hold, return number, encoding."""
    k = rng.randint(0, 3)
    if k & 2:
        i = rng.choice((rng.randint(-2 ** 29, 2 ** 29 - 1), rng.randint(
            -200, 200), -2 ** 29, 2 ** 29 - 1, 0, -1, 1))
        v = float(i)
        raw = (i & 0x3fffffff) << 2 | k
    else:
        import struct
        hi = struct.unpack('<I', struct.pack('<d', number(rng))[4:])[0]
        hi &= 0xfffffffc
        v = struct.unpack('<d', struct.pack('<II', 0, hi))[0]
        if v != v or v in (float('inf'), -float('inf')):
            hi, v = 0, 0.0
        raw = hi | k
    if k & 1:
        v = v / 100.0
    return v, raw


def sheetname(rng, i, maxlen=31):
    base = rng.choice(('Sheet', 'Data', 'Bl\xe5', '\u4e2d', 'a b', "it's",
                       '<&>', 'R&D', '1', 'Sheet ', '=x', '_', '\u03b1'))
    return (base + str(i))[:maxlen]


def same(a, b):
    """Same value, also the sign of zero and the type."""
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


def random_cells(rng, sh, wb, maxr=12, maxc=8, dens=None, kinds=None):
    """Fill the sheet with cells at random, return nothing."""
    nr, nc = rng.randint(0, maxr), rng.randint(0, maxc)
    dens = dens or rng.choice((.1, .4, .8, 1.0))
    r0 = rng.choice((0, 0, 0, rng.randint(0, 6)))
    c0 = rng.choice((0, 0, 0, rng.randint(0, 30)))
    kinds = kinds or rng.choice((
        ('number',), ('text',), ('number', 'text'),
        ('number', 'text', 'bool', 'error'),
        ('number', 'number', 'text', 'bool', 'error', 'blank')))
    pool = [text(rng) for _ in range(rng.randint(1, 8))]
    for r in range(nr):
        for c in range(nc):
            if rng.random() >= dens:
                continue
            k = rng.choice(kinds)
            xf = rng.randrange(len(wb.xfs)) if rng.random() < .6 else 0
            if k == 'number':
                v = number(rng)
            elif k == 'text':
                v = rng.choice(pool) if rng.random() < .5 else text(rng)
            elif k == 'bool':
                v = rng.randint(0, 1)
            elif k == 'error':
                v = rng.choice(sorted(ERRORS))
            else:
                v = ''
            sh.cells[r0 + r, c0 + c] = Cell(k, v, xf)


def random_merges(rng, sh, maxr=20, maxc=20):
    for _ in range(rng.choice((0, 0, 0, 1, 3))):
        r, c = rng.randint(0, maxr), rng.randint(0, maxc)
        sh.merges.append((r, r + rng.randint(1, 4), c, c + rng.randint(1, 4)))


# -- comparison

def check_sheet(cx, sh, ws, wb, where='', blanks=False, ragged=False):
    """The grid of ws must be the cells of sh."""
    nr, nc = sh.dims(blanks)
    if not ragged:
        cx.check((ws.nrows, ws.ncols) == (nr, nc), where, 'sheet', sh.name,
                 'has', ws.nrows, 'rows', ws.ncols, 'cols, expected', nr, nc)
    rows = {}
    for (r, c), cell in sh.cells.items():
        if cell.kind != 'blank' or blanks:
            rows.setdefault(r, {})[c] = cell
    for r in range(nr):
        types, values = list(ws.row_types(r)), list(ws.row_values(r))
        et, ev = [EMPTY] * nc, [''] * nc
        for c, cell in rows.get(r, {}).items():
            et[c], ev[c] = cell.expected(wb)
        if ragged:
            cx.check(len(types) == len(values) <= nc, where, 'row', r,
                     'has', len(types), len(values), 'cells')
            types += [EMPTY] * (nc - len(types))
            values += [''] * (nc - len(values))
        cx.check(len(types) == len(values) == nc, where, 'row', r,
                 'has', len(types), len(values), 'cells')
        if types == et and values == ev and r not in rows:
            continue
        for c in range(nc):
            if types[c] != et[c] or not same(values[c], ev[c]):
                cx.fail('%s sheet %r cell (%d, %d): type %r value %r '
                        'expected type %r value %r (%r)' % (
                            where, sh.name, r, c, types[c], values[c],
                            et[c], ev[c], sh.cells.get((r, c))))
    cx.count('assertions', nr)
    cx.count('cells compared', nr * nc)
    # by single cell access, the stored ones
    for (r, c), cell in sh.cells.items():
        if cell.kind == 'blank' and not blanks:
            continue
        exp = cell.expected(wb)
        got = ws.cell(r, c)
        if got.ctype != exp[0] or not same(got.value, exp[1]) or \
           not same(ws.cell_value(r, c), exp[1]) or \
           ws.cell_type(r, c) != exp[0]:
            cx.fail('%s sheet %r cell(%d, %d) gave %r expected %r' % (
                where, sh.name, r, c, got, exp))
    cx.count('stored cells compared', len(sh.cells))
    cx.check(ws.visibility == sh.visibility, where, 'visibility of',
             sh.name, 'is', ws.visibility, 'expected', sh.visibility)


def check_book(cx, wb, book, where='', blanks=False, ragged=False):
    cx.check(book.nsheets == len(wb.sheets), where, 'nsheets', book.nsheets,
             'expected', len(wb.sheets))
    cx.check(list(book.sheet_names()) == [s.name for s in wb.sheets], where,
             'sheet names', list(book.sheet_names()), 'expected',
             [s.name for s in wb.sheets])
    cx.check(book.datemode == wb.datemode, where, 'datemode', book.datemode,
             'expected', wb.datemode)
    for i, sh in enumerate(wb.sheets):
        ws = book.sheet_by_index(i)
        cx.check(ws.name == sh.name and ws.number == i, where, 'sheet', i,
                 'is', ws.name, ws.number, 'expected', sh.name)
        cx.check(book.sheet_by_name(sh.name) is ws, where,
                 'sheet_by_name', sh.name, 'is not sheet', i)
        check_sheet(cx, sh, ws, wb, where, blanks, ragged)
