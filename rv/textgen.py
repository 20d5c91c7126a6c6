"""Delimited text tables with the values they denote."""
import io
import os
import string

import numpy as np

from rv import gen

WHITE = ' \t\n\r\x0b\x0c'

EXPLICIT = [';', ',', '\t', '|', ':', ';', ',', '\t', ' ', ', ', '; ', '::',
            '--', ' | ', '\t\t', '  ', '#', '&', '<>', 'x', '/', '"', '%%',
            '\x1f', ' ;', '.', '*', '+', '?', '\\', '$', '^', '[', '(', '\xa7', '\xa6 ']


def number(rng, dec, small=False):
    """A number as text, with decimal sign dec, and as float."""
    r = rng.random()
    if r < .12:
        t = rng.choice(('0', '1', '-1', '0.0', '-0.0', '.5', '5.', '-.25',
                        '+3', '+1.5', '007', '1e5', '1E-3', '-2.5e+10',
                        '00.10', '1e0', '100', '25', '0.1', '-0'))
    elif r < .45:
        t = '%d' % rng.choice((rng.randint(-9, 9), rng.randint(-1000, 1000),
                               rng.randint(-10**9, 10**9),
                               rng.randint(-10**17, 10**17),
                               gen.const_int(rng, -2000, 100000)))
    elif r < .75:
        t = '%.*f' % (rng.randint(0, 8), rng.uniform(-1, 1) *
                      10 ** rng.randint(-3, 9))
    elif r < .9:
        t = repr(rng.uniform(-1, 1) * 10 ** rng.randint(-12, 25))
    else:
        t = '%.*e' % (rng.randint(0, 16), rng.uniform(-10, 10) *
                      10.0 ** rng.randint(-200, 200))
    if rng.random() < .05 and not t.startswith(('-', '+')):
        t = '+' + t
    v = float(t)
    return t.replace('.', dec), v


def isnum(t):
    """Would the reader see a numeric field in t."""
    for s in (t, t.replace(',', '.')):
        try:
            float(s)
            return True
        except ValueError:
            pass
    return False


WORDS = ('a', 'b', 'on', 'off', 'x1', 'OK', 'fail', 'row', 'Z', 'q-7', '2x',
         '12:30', 'N/A', 'true', 'e5', 'None', '-', '+', 'str', 'abc def',
         '2019-01-02', '1.2.3', "it's", '"quoted"', 'é', 'åäö', '£5', 'Ω',
         '日本', 'naïve', '1,2,3', '1.234,5', '12,345,678', '1 2', 'a\tb', '--', '...', '10%', '#1', 'end')


def text(rng, encoding, first):
    while True:
        r = rng.random()
        if r < .55:
            t = rng.choice(WORDS)
        elif r < .7:
            t = ''.join(rng.choice(string.ascii_letters + string.digits +
                                   "_-/#!'") for _ in
                        range(rng.randint(1, 12)))
        elif r < .78:
            t = rng.choice(gen.constants()[1])
        elif r < .88 and not first:
            t = number(rng, rng.choice('.,'))[0]
        elif r < .93:
            t = rng.choice(WORDS) * rng.randint(1, 30)
        else:
            t = ''
        try:
            t.encode(encoding)
        except UnicodeEncodeError:
            continue
        if '\n' in t or '\r' in t or '\0' in t:
            continue
        if first and isnum(t):
            continue
        return t


class Table(object):
    """One table.

    lines    the data lines, with no line end (blank ones included)
    fields   per record, the text of each field as the reader is to see it
    first    index in lines of each record
    kinds    per column 'n' (numeric) or 's'
    names    field names, one per column
    """

    def __init__(self, cx, ncols=None, nrows=None,
                 numeric=False, wants_blank=True, ragged=True, delim=Ellipsis,
                 encoding='utf-8', empties=True, pads=True):
        rng = cx.rng
        self.cx = cx
        self.ncols = ncols if ncols is not None else rng.choice(
            (1, 1, 2, 2, 3, 3, 4, 5, 7, 12, gen.const_int(rng, 1, 30)))
        if nrows is None:
            nrows = max(1, gen.length(rng, 300 if cx.tier == 'quick' else
                                      2000))
            if self.ncols > 5 and nrows > 200:
                nrows = 200
        self.nrows = nrows
        if delim is Ellipsis:
            delim = None if rng.random() < .25 else rng.choice(EXPLICIT)
        if delim is not None and not delim.isascii() and encoding == 'ascii':
            delim = ';'
        self.delim = delim
        self.encoding = encoding
        self.dec = '.' if (delim and ',' in delim) or rng.random() < .6 \
            else ','
        self.kinds = ['n' if numeric or rng.random() < .65 else 's'
                      for _ in range(self.ncols)]
        # characters of the numbers can not be in the delimiter
        clash = set('0123456789.,+-eE')
        self.noneg = False
        if delim and set(delim) & clash:
            if numeric:
                self.delim = delim = ';'
            else:
                self.kinds = ['n' if k == 'n' and not (
                    set(delim) & set('0123456789.+-eE')) else 's'
                    for k in self.kinds]
        whites_edge = delim and len(delim) > 1 and (
            delim[0] in WHITE or delim[-1] in WHITE)
        self.stripset = ''.join(c for c in WHITE
                                if not (delim and len(delim) == 1 and
                                        c == delim))
        self.pad = 0
        if pads and rng.random() < .3 and delim and not delim.strip() == '' \
           and not any(c in WHITE for c in delim):
            self.pad = 3
        commafirst = self.dec == ',' and 'n' in self.kinds
        ncol0 = [i for i, k in enumerate(self.kinds) if k == 'n']
        must = rng.choice(ncol0) if ncol0 else None
        self.lines, self.fields, self.first = [], [], []
        self.empties = empties and delim is not None and rng.random() < .4
        self.values = []          # per record, float or text
        nan_p = rng.choice((.05, .3, .8))
        plain = [w for w in ('w', 'V', 'QQ', '!') if not delim or
                 not set(w) & set(delim)][0]
        for r in range(nrows):
            tries = 0
            while True:
                tries += 1
                raw, vals = [], []
                for c, k in enumerate(self.kinds):
                    if k == 'n':
                        if r and self.empties and rng.random() < nan_p:
                            t, v = '', float('nan')
                        elif r and rng.random() < .02:
                            t = rng.choice(('nan', 'inf', '-inf', 'NaN',
                                            'Infinity'))
                            v = float(t)
                        else:
                            dec = self.dec
                            if r and dec == ',' and rng.random() < .1:
                                dec = '.'
                            t, v = number(rng, dec)
                            if r == 0 and commafirst and c == must:
                                if ',' not in t:
                                    t, v = '1,5', 1.5
                        if delim and delim in t:
                            # such a clash: take a plain number
                            t, v = '7', 7.0
                            if delim in t:
                                t, v = '8', 8.0
                    else:
                        for _ in range(9):
                            t = text(rng, encoding, r == 0)
                            if not delim or delim not in t:
                                break
                        if tries > 20:
                            t = plain
                        if delim is None:
                            t = '_'.join(t.split()) or 'w'
                            if r == 0 and isnum(t):
                                t = 'word'
                        elif r == 0 and not t and self.ncols == 1:
                            t = 'word'
                        v = t
                    if self.pad and rng.random() < .5:
                        t2 = (' ' * rng.randint(0, self.pad) + t +
                              rng.choice((' ', '  ', '\t', '')))
                        if k == 's' or t:
                            t = t2
                    raw.append(t)
                    vals.append(v)
                line, fields = self.compose(raw, whites_edge)
                if line is None:
                    continue
                break
            if wants_blank and r and rng.random() < .05:
                for _ in range(rng.randint(1, 3)):
                    self.lines.append(rng.choice(self.blanks()))
            self.first.append(len(self.lines))
            if ragged and r and rng.random() < .05 and \
               self.ncols > 1 and delim is not None:
                line += delim + rng.choice(('extra', '1', '', 'x' + delim))
                if line.strip(self.stripset) != line.lstrip(self.stripset):
                    line += 'e'
                # the last field keeps its trailing padding then
                fields = self.split(line)[:self.ncols]
            elif ragged and r and rng.random() < .05 and delim is None:
                line += ' ' + rng.choice(('extra', '1', '5,5'))
            self.lines.append(line)
            self.fields.append(fields)
            self.values.append(vals)
        if wants_blank and rng.random() < .2:
            for _ in range(rng.randint(1, 3)):
                self.lines.append(rng.choice(self.blanks()))
        cx.note('table', self.ncols, 'columns', nrows, 'records delimiter',
                repr(self.delim), 'decimal', self.dec, 'kinds',
                ''.join(self.kinds))
        for ln in self.lines[:8]:
            cx.note('  ' + repr(ln))

    def blanks(self):
        if self.delim is None:
            return ['', ' ', '\t', '  \t ', '']
        if len(self.delim) == 1 and self.delim in WHITE:
            return ['', '\t' if self.delim == ' ' else '  ', '']
        return ['', ' ', '\t', '  \t ']

    def split(self, line):
        """Fields of a line, as documented."""
        s = line.strip(self.stripset)
        if self.delim is None:
            return s.split()
        return s.split(self.delim)

    def compose(self, raw, whites_edge):
        rng = self.cx.rng
        if self.delim is None:
            line = raw[0]
            for t in raw[1:]:
                line += rng.choice((' ', ' ', '\t', '  ', '   ', ' \t '))
                line += t
            if rng.random() < .2:
                line = rng.choice((' ', '\t', '    ')) + line
            if rng.random() < .2:
                line += rng.choice((' ', '\t', '    '))
            fields = [t for t in raw]
        else:
            line = self.delim.join(raw)
            fields = list(raw)
            fields[0] = fields[0].lstrip(self.stripset)
            fields[-1] = fields[-1].rstrip(self.stripset)
        got = self.split(line)
        # a table that could be seen another way is not made
        if got != fields or not line.strip(self.stripset):
            return None, None
        if whites_edge and (not raw[0] or not raw[-1]):
            return None, None
        return line, fields

    def columns(self, stripstrings=False):
        """Expected content by column."""
        res = []
        for c, k in enumerate(self.kinds):
            if k == 'n':
                res.append([v[c] for v in self.values])
            else:
                col = [f[c] for f in self.fields]
                res.append([t.strip() for t in col] if stripstrings else col)
        return res


def field_names(rng, t):
    pool = ['time', 'speed', 'T1', 'x', 'y', 'Temp', 'a1', 'u', 'rpm', 'V',
            'acc', 'pos', 'n', 'id', 'load', 'p0', 'p1', 'w', 'k', 'm']
    if t.delim is not None and t.delim.strip():
        pool += ['Engine speed', 'Time (s)', 'a b', '[V]', 'n#']
    try:
        'åäöµ'.encode(t.encoding)
        pool += ['åäö', 'µ']
    except UnicodeEncodeError:
        pass
    res = []
    for c in range(t.ncols):
        nm = rng.choice(pool)
        if rng.random() < .6:
            nm += '_%d' % c
        if t.delim and t.delim in nm:
            nm = 'NAME%d' % c
            if t.delim in nm:
                nm = 'Q'
        if t.delim is not None and len(t.delim) == 1 and rng.random() < .04:
            nm = ''
        res.append(nm)
    if rng.random() < .01:
        # a line of names longer than any buffer
        for c in range(t.ncols):
            if res[c]:
                res[c] += 'N' * rng.choice((40, 500, 5000, 9000))
    return res


def names_line(rng, t, names):
    if t.delim is None:
        return rng.choice((' ', '\t', '   ')).join(names)
    pad = t.delim.strip() == t.delim and len(t.delim) == 1 and \
        t.delim not in WHITE and rng.random() < .4
    line = t.delim.join(rng.choice(('', ' ')) * pad + nm +
                        rng.choice(('', ' ')) * pad for nm in names)
    return line


HEADERS = ('', 'A file of data', '# comment', 'date: 2019-01-02', '1;2;3',
           'some text, and more', '\t', '5 6 7 8', '---', 'x', 'é å')


def header(rng, n, encoding):
    hs = [h for h in HEADERS if encoding != 'ascii' or h.isascii()]
    return [rng.choice(hs) for _ in range(n)]


def content(rng, lines, eol=None, last=None):
    eol = eol or rng.choice(('\n', '\n', '\r\n'))
    s = eol.join(lines)
    if last is None:
        last = rng.random() < .8
    return s + eol if last else s


def bytes_delim(delim, encoding='ascii'):
    return delim if delim is None else delim.encode(encoding)


ODDNAMES = (' data.txt', 'data.txt ', 'd\xe5ta.txt', 'a;b.csv', 'noext',
            '%s.txt', '{0}.txt', 'A.TXT', 'x.dbf', "it's", 'a\tb')


def write(cx, data, name='data.txt'):
    if name == 'data.txt' and cx.rng.random() < .2:
        name = cx.rng.choice(ODDNAMES)
    path = os.path.join(cx.tmp, name)
    with io.open(path, 'wb') as f:
        f.write(data)
    return path


def column_diff(got, want):
    """Difference of a channel and the list of values expected, or None."""
    want = np.array(want)
    return gen.same_array(got, want)


LAZYDELIMS = (';', '\t', '|', ' ', ',', ';', '\t', ',', '; ', ' | ', ', ',
              '  ', '\t\t', ':', '#', '&', '::', '<>', ' ; ', '%', '/', '@',
              '*', '$', '?', '\\', ')', 'x', '\xa7', '\xa6')


def lazynumber(rng, dec, decimals):
    """Number, with digits on both sides of the decimal sign if so."""
    s = rng.choice(('', '', '', '-', '+') if rng.random() < .5 else
                   ('', '-'))
    t = '%d' % rng.choice((rng.randint(0, 9), rng.randint(0, 99999),
                           gen.const_int(rng, 0, 3000)))
    if decimals:
        t += dec + '%0*d' % (rng.randint(1, 8), rng.randint(0, 9))
        if rng.random() < .3:
            t += str(rng.randint(0, 9999))
    elif rng.random() < .15:
        t = rng.choice((dec + '5', '3' + dec, '0'))
    if rng.random() < .12:
        t += rng.choice('eE') + rng.choice(('', '+', '-')) + \
            str(rng.randint(0, 30))
    t = s + t
    return t, float(t.replace(',', '.'))


class LazyTable(object):
    """A numeric table with a header, for the automatic reader."""

    def __init__(self, cx, parselines=25):
        rng = cx.rng
        self.ncols = rng.choice((1, 2, 2, 3, 4, 6, 11))
        self.nrows = max(1, rng.choice((1, 2, 3, 6, 20, 24, 25, 26, 60,
                                        rng.randint(1, 40))))
        self.delim = rng.choice(LAZYDELIMS) if self.ncols > 1 else None
        self.encoding = 'utf-8'
        comma = self.delim is None or ',' not in self.delim
        self.dec = ',' if comma and rng.random() < .45 else '.'
        alldec = not comma
        self.rows, self.values = [], []
        for r in range(self.nrows):
            must = rng.randrange(self.ncols)
            row, vals = [], []
            for c in range(self.ncols):
                t, v = lazynumber(rng, self.dec, alldec or
                                  (self.dec == ',' and c == must) or
                                  rng.random() < .5)
                row.append(t)
                vals.append(v)
            self.rows.append(row)
            self.values.append(vals)
        joiner = '' if self.delim is None else self.delim
        lead = rng.choice(('', '', '', ' ', '\t')) \
            if joiner.strip() else ''
        self.lines = [lead + joiner.join(row) for row in self.rows]
        if joiner.strip() and rng.random() < .3:
            # spaces around the fields, not the same on all of the lines
            blank = ('', '', ' ', '  ', '\t', '   ')
            j = joiner.strip()
            self.lines = [lead + j.join(rng.choice(blank) + t +
                                        rng.choice(blank) for t in row)
                          for row in self.rows]
        # header
        room = parselines - 1
        self.head, self.names = [], {}
        nhead = min(room, rng.choice((0, 0, 1, 2, 3, rng.randint(0, room),
                                      room)))
        words = ('speed', 'Time', 'rpm', 'x1', 'x2', 'T', 'pos', 'a_b',
                 'ch0', 'ch1', 'V2', 'load', 'åäö', 'n', 'm5b')
        if self.delim == 'x':
            words = tuple(w.replace('x', 'y') for w in words)
        for i in range(nhead):
            self.head.append(self.freetext(rng, i == nhead - 1))
        if nhead and rng.random() < .7:
            names = [rng.choice(words) for _ in range(self.ncols)]
            if self.ncols > 1 and rng.random() < .3 and joiner.strip():
                names[-1] = 'Two words'
            # the names may be some lines above the data
            at = nhead - 1
            if rng.random() < .3:
                at = rng.randrange(nhead)
            line = (joiner or ' ').join(names)
            if joiner.strip() and rng.random() < .3 and \
               joiner.strip() == joiner:
                line = (joiner + ' ').join(names)
            self.head[at] = line
            self.names = dict(enumerate(names))
            for j in range(at):
                if rng.random() < .2:
                    self.head[j] = (joiner or ' ').join(
                        ['other'] * self.ncols)
        self.skip = len(self.head)
        cx.note('lazy table', self.ncols, 'columns', self.nrows,
                'rows delimiter', repr(self.delim), 'decimal', self.dec)
        for ln in (self.head + self.lines)[:9]:
            cx.note('  ' + repr(ln))

    def freetext(self, rng, last):
        """A line that is neither data nor names."""
        pool = ['', '', '-' * 5, '!', '== header ==', '# x', '*']
        if self.ncols != 2:
            pool += ['Measurement: done', 'File of', 'two words']
        if self.ncols != 5:
            pool += ['some text of five words']
        if self.ncols != 3:
            pool += ['date 2019-01-02 10:22']
        if self.ncols > 1:
            pool += ['word']
        if not last:
            pool += ['  ', '\t']
        while True:
            t = rng.choice(pool)
            d = self.delim
            fs = [f for f in t.split(d) if f.strip()]
            if len(fs) == self.ncols:
                continue
            if self.ncols == 1 and any(c.isdigit() for c in t) and \
               not t.startswith('date'):
                continue
            return t

    def columns(self):
        return [[v[c] for v in self.values] for c in range(self.ncols)]
