"""Write xls files (BIFF 2 to 8) from a workbook model.

Written from the published file format descriptions. The record stream
can be given raw or in a compound file (olegen).
"""
from struct import pack

from rv import olegen
from rv import wbmodel as M

STD = {0: 'General', 1: '0', 2: '0.00', 14: 'm/d/yy', 20: 'h:mm'}

CODEPAGES = [(1252, 'cp1252'), (1252, 'cp1252'), (1251, 'cp1251'),
             (1250, 'cp1250'), (1253, 'cp1253'), (932, 'cp932'),
             (437, 'cp437'), (850, 'cp850'), (10000, 'mac_roman'),
             (32768, 'mac_roman'), (32769, 'cp1252'), (None, 'latin-1')]
CODEPAGES *= 4
CODEPAGES += [(n, 'cp%d' % n) for n in (
    737, 775, 852, 855, 857, 860, 861, 862, 863, 865, 866, 869, 874, 936,
    949, 950, 1254, 1255, 1256, 1257, 1258, 1361)]
CODEPAGES += [(10006, 'mac_greek'), (10007, 'mac_cyrillic'),
              (10029, 'mac_latin2'), (10079, 'mac_iceland'),
              (10081, 'mac_turkish')]


def rec(code, data=b''):
    assert len(data) <= 8224, (hex(code), len(data))
    return pack('<HH', code, len(data)) + data


def uni(rng, s, lenlen=2, force=None, optbyte_if_empty=True):
    """BIFF8 unicode string, compressed if possible and chosen."""
    u = s.encode('utf-16-le')
    n = len(u) // 2
    head = pack('<B' if lenlen == 1 else '<H', n)
    if not n and not optbyte_if_empty:
        return head
    if max(s or ' ') < '\u0100' and rng.random() < .7:
        return head + b'\0' + s.encode('latin-1')
    return head + b'\1' + u


def unirich(rng, s):
    """As `uni`, at times with runs of fonts and phonetic text with it."""
    out = uni(rng, s)
    if not s or rng.random() < .8:
        return out
    flag = rng.choice((4, 8, 12))
    head = tail = b''
    if flag & 8:
        n = rng.randint(0, 5)
        head += pack('<H', n)
        tail += b''.join(pack('<HH', i, rng.randint(0, 9)) for i in range(n))
    if flag & 4:
        ph = bytes(rng.randrange(256) for _ in range(rng.randint(0, 40)))
        head += pack('<i', len(ph))
        tail += ph
    return out[:2] + bytes((out[2] | flag,)) + head + out[3:] + tail


class SSTWriter(object):
    """The shared string table split over records in many ways."""

    def __init__(self, rng, opt):
        self.rng, self.opt = rng, opt
        self.chunks = []
        self.cur = bytearray()
        self.events = {}

    def limit(self):
        lo, hi = self.opt['sst_limit']
        return self.rng.randint(lo, hi)

    def newrec(self, kind):
        self.chunks.append(bytes(self.cur))
        self.cur = bytearray()
        self.lim = self.limit()
        self.events[kind] = self.events.get(kind, 0) + 1

    def build(self, strings, total):
        rng, opt = self.rng, self.opt
        self.lim = self.limit()
        if opt.get('first'):
            self.lim = opt['first']
        self.first = True
        self.runs = {}
        self.cur += pack('<ii', total, len(strings))
        for i, s in enumerate(strings):
            runs = self.one(s)
            if runs:
                self.runs[i] = runs
        self.chunks.append(bytes(self.cur))
        out = rec(0x00FC, self.chunks[0])
        for c in self.chunks[1:]:
            out += rec(0x003C, c)
        return out

    def one(self, s):
        rng, opt = self.rng, self.opt
        units = s.encode('utf-16-le')
        n = len(units) // 2
        flag = 0
        runs = ph = None
        if rng.random() < opt['rich']:
            flag |= 8
            runs = [(rng.randint(0, 99), rng.randint(0, 4))
                    for _ in range(rng.choice((1, 2, 5, 20)))]
        if rng.random() < opt['phonetic']:
            flag |= 4
            ph = bytes(rng.randrange(256) for _ in range(
                opt.get('phosize') or rng.choice((4, 10, 30, 200))))
        head = 3 + (2 if runs is not None else 0) + (4 if ph is not None
                                                     else 0)
        # a header is never split, the string may start a new record
        # but not the first string
        if not (self.first or not self.cur) and (
                len(self.cur) + head > self.lim or
                rng.random() < opt['newrec']):
            self.newrec('between strings')
        self.first = False
        wide = self.wide(units, 0, n)
        self.cur += pack('<HB', n, flag | wide)
        if runs is not None:
            self.cur += pack('<H', len(runs))
        if ph is not None:
            self.cur += pack('<i', len(ph))
        pos = 0
        while pos < n:
            room = (self.lim - len(self.cur)) // (2 if wide else 1)
            if room <= 0 or (pos and rng.random() < opt['cut']) or (
                    not pos and rng.random() < opt['cut'] / 2):
                if pos and 0xd800 <= int.from_bytes(
                        units[2 * pos - 2:2 * pos], 'little') < 0xdc00:
                    kind = 'inside a surrogate pair'
                else:
                    kind = 'inside characters' if pos else 'after header'
                self.newrec(kind)
                w2 = self.wide(units, pos, n)
                if w2 != wide:
                    self.events['width changed'] = self.events.get(
                        'width changed', 0) + 1
                wide = w2
                self.cur += bytes((wide,))
                room = max(1, (self.lim - 1) // (2 if wide else 1))
            k = min(room, n - pos)
            if rng.random() < opt['cut']:
                k = rng.randint(1, k)
            if not wide:
                # a compressed part holds only one byte characters
                seg = units[2 * pos:2 * (pos + k)]
                good = 0
                while good < k and seg[2 * good + 1] == 0:
                    good += 1
                if good < k:
                    if good == 0:
                        # must change to wide, by a new record
                        self.newrec('inside characters')
                        wide = 1
                        self.cur += b'\1'
                        continue
                    self.cur += seg[:2 * good:2]
                    pos += good
                    self.newrec('inside characters')
                    self.events['width changed'] = self.events.get(
                        'width changed', 0) + 1
                    wide = 1
                    self.cur += b'\1'
                    continue
                self.cur += seg[::2]
            else:
                self.cur += units[2 * pos:2 * (pos + k)]
            pos += k
        if runs is not None:
            for r in runs:
                if len(self.cur) + 4 > self.lim or \
                   rng.random() < opt['cut'] / 2:
                    self.newrec('between runs')
                self.cur += pack('<HH', *r)
        if ph is not None:
            p = 0
            while p < len(ph):
                room = self.lim - len(self.cur)
                if room <= 0 or rng.random() < opt['cut'] / 2:
                    self.newrec('inside phonetic' if p else
                                'before phonetic')
                    room = self.lim
                k = min(room, len(ph) - p)
                if rng.random() < opt['cut']:
                    k = rng.randint(1, k)
                self.cur += ph[p:p + k]
                p += k
        return runs

    def wide(self, units, pos, n):
        """Width flag for the characters from pos on."""
        first = all(b == 0 for b in units[2 * pos + 1:2 * n:2])
        if first:
            return int(self.rng.random() < .25)
        # may be compressed in the beginning, and changed later
        if self.opt['mixed'] and self.rng.random() < .5 and \
           units[2 * pos + 1:2 * pos + 2] == b'\0':
            return 0
        return 1


PLAIN_SST = dict(sst_limit=(8224, 8224), rich=.1, phonetic=.1, newrec=0.0,
                 cut=0.0, mixed=False)


class Writer(object):
    def __init__(self, wb, rng, bv=80, opt=None):
        self.wb, self.rng, self.bv = wb, rng, bv
        self.opt = opt or options(rng)
        self.sst, self.sstx, self.ssttotal = [], {}, 0
        self.xfbase = 0
        self.codepage, self.enc = None, 'latin-1'
        self.records = 0
        self.v20, self.attrs20, self.lastixfe = False, {}, None
        self.user, self.country = '', None
        self.bundle = bv == 45          # a workbook of BIFF 4 sheets
        if self.bundle:
            self.bv = 40
        self.bases = []

    # -- strings of the older formats

    def bstr(self, s, lenlen):
        b = s.encode(self.enc)
        return pack('<B' if lenlen == 1 else '<H', len(b)) + b

    # -- cells

    def attr(self, xf, r=None, c=None):
        """BIFF2 cell attributes."""
        rng = self.rng
        if self.v20:
            # protection, font and format, alignment and borders
            a = bytes((rng.choice((0, 0, 0x40, 0x80, 0xC0)),
                       self.fmtindex(xf) | rng.choice((0, 0, 1, 2, 3)) << 6,
                       rng.choice((0, 0, 1, 0x78, rng.randrange(256)))))
            self.attrs20[r, c] = a
            return a
        x = xf + self.xfbase
        return bytes((min(x, 63) | self.rng.choice((0, 0x40)), 0, 0))

    def fmtindex(self, xf):
        key = self.wb.xfs[xf][0]
        return self.fmtkeys[STD.get(key, key)]

    def head(self, r, c, xf):
        if self.bv == 20:
            return pack('<HH', r, c) + self.attr(xf, r, c)
        return pack('<HHH', r, c, xf + self.xfbase)

    def ixfe(self, xf):
        if self.bv == 20 and not self.v20 and xf + self.xfbase >= 63:
            x = xf + self.xfbase
            if x == self.lastixfe and self.rng.random() < .6:
                # it applies until the next one
                return b''
            self.lastixfe = x
            return rec(0x44, pack('<H', x))
        return b''

    def formula(self, r, c, cell, result):
        rng = self.rng
        toks = b'\x1e\x01\x00'
        if self.bv == 20:
            body = self.head(r, c, cell.xf) + result + b'\0' + \
                bytes((len(toks),)) + toks
            return rec(0x06, body)
        body = self.head(r, c, cell.xf) + result + pack(
            '<H', rng.choice((0, 1, 2)))
        if self.bv >= 50:
            body += pack('<I', 0)
        body += pack('<H', len(toks)) + toks
        code = {30: 0x0206, 40: 0x0406}.get(self.bv, rng.choice(
            (0x06, 0x06, 0x0406) if self.bv < 80 else (0x06,)))
        return rec(code, body)

    def special(self, kind, value=None):
        """A result that is not a number; the unused bytes are free."""
        rng = self.rng
        b = bytearray(rng.randrange(256) for _ in range(6)) \
            if rng.random() < .2 else bytearray(6)
        b[0] = kind
        if value is not None:
            b[2] = value
        return bytes(b) + b'\xff\xff'

    def after_formula(self, r, c):
        """Optional record between FORMULA and STRING."""
        rng = self.rng
        if rng.random() > .25:
            return b''
        r1, c1 = r + rng.choice((0, 0, 1, 5)), c + rng.choice((0, 0, 1))
        r1, c1 = min(r1, 65535), min(c1, 255)
        fml = b'\x1e\x01\x00'
        if self.bv == 20:
            if rng.random() < .5:
                return rec(0x21, pack('<HHBBBB', r, r1, c, c1, 0, 3) + fml)
            return rec(0x36, pack('<HHBBBBHH', r, r1, c, c1, 0, 0, 0, 0))
        k = rng.random()
        if k < .15:
            return rec(0x0236, pack('<HHBBHHHHH', r, r1, c, c1, 0, 0, 0, 0,
                                    0))
        if self.bv >= 50 and k < .5:
            return rec(0x04BC, pack('<HHBBBBH', r, r1, c, c1, 0, 1, 3) + fml)
        return rec(0x0221, pack('<HHBBBxxxxxH', r, r1, c, c1, 0, 3) + fml)

    def string_rec(self, s):
        rng = self.rng
        if self.bv == 20:
            return rec(0x07, self.bstr(s, 1))
        if self.bv < 80:
            return rec(0x0207, self.bstr(s, 2))
        u = s.encode('utf-16-le')
        n = len(u) // 2
        # maybe continued, width may change
        cuts = sorted({rng.randint(1, n - 1) for _ in range(
            rng.choice((0, 0, 0, 1, 2)))}) if n > 1 else []
        out = b''
        for i, (a, b) in enumerate(zip([0] + cuts, cuts + [n])):
            seg = u[2 * a:2 * b]
            if not any(seg[1::2]) and rng.random() < .7:
                d = b'\0' + seg[::2]
            else:
                d = b'\1' + seg
            if i == 0:
                out += rec(0x0207, pack('<H', n) + d)
            else:
                out += rec(0x003C, d)
        return out

    def cell(self, r, c, cell):
        rng, bv = self.rng, self.bv
        k = cell.kind
        out = self.ixfe(cell.xf)
        h = self.head(r, c, cell.xf)
        if k == 'number':
            enc = cell.enc
            if enc is None:
                enc = rng.choice(('number', 'number', 'formula'))
                if bv == 20 and cell.value == int(cell.value) and \
                   0 <= cell.value < 65536 and repr(cell.value) != '-0.0':
                    enc = rng.choice((enc, 'integer', 'integer'))
            if enc == 'rk':
                raw = pack('<I', cell.extra)
                return out + rec(0x027E, h + raw)
            if enc == 'integer':
                return out + rec(0x02, h + pack('<H', int(cell.value)))
            v = pack('<d', cell.value)
            if enc == 'formula':
                return out + self.formula(r, c, cell, v) + (
                    self.after_formula(r, c) if rng.random() < .3 else b'')
            extra = b'' if bv == 20 else rng.choice((b'',) * 9 + (b'\0\0',))
            return out + rec(0x03 if bv == 20 else 0x0203, h + v + extra)
        if k == 'text':
            s = cell.value
            encs = ['label', 'formula']
            if bv >= 80:
                encs = ['sst', 'sst', 'sst', 'label', 'rstring', 'formula']
            elif bv >= 50:
                encs = ['label', 'label', 'rstring', 'formula']
            enc = cell.enc = cell.enc or rng.choice(encs)
            if enc == 'sst':
                self.ssttotal += 1
                cell.extra = self.shared(s)
                return out + rec(0x00FD, h + pack('<i', cell.extra))
            if enc == 'label':
                if bv == 20:
                    return out + rec(0x04, h + self.bstr(s, 1))
                if bv < 80:
                    return out + rec(0x0204, h + self.bstr(s, 2))
                return out + rec(0x0204, h + unirich(rng, s))
            if enc == 'rstring':
                runs = cell.extra = [(1, 2), (3, 4), (7, 0), (200, 255)][
                    :rng.randint(0, 4)]
                if bv < 80:
                    return out + rec(0x00D6, h + self.bstr(s, 2) + bytes(
                        (len(runs),)) + b''.join(pack('<BB', *x)
                                                 for x in runs))
                return out + rec(0x00D6, h + unirich(rng, s) + pack(
                    '<H', len(runs)) + b''.join(pack('<HH', *x)
                                                for x in runs))
            if s == '' and bv >= 80 and rng.random() < .8:
                return out + self.formula(r, c, cell, self.special(3))
            return out + self.formula(
                r, c, cell, self.special(0)) + \
                self.after_formula(r, c) + self.string_rec(s)
        if k in ('bool', 'error'):
            e = k == 'error'
            if rng.random() < .3:
                return out + self.formula(r, c, cell, self.special(
                    1 + e, cell.value))
            extra = b'' if bv == 20 else rng.choice((b'',) * 9 + (b'\0',))
            return out + rec(0x05 if bv == 20 else 0x0205,
                             h + bytes((cell.value, e)) + extra)
        return out + rec(0x01 if bv == 20 else 0x0201, h)

    def shared(self, s):
        if s in self.sstx and self.rng.random() < .8:
            return self.sstx[s]
        self.sst.append(s)
        self.sstx[s] = len(self.sst) - 1
        return len(self.sst) - 1

    # -- sheets

    def bof(self, kind):
        bv = self.bv
        if bv >= 80:
            return rec(0x0809, pack('<HHHHII', 0x0600, kind, 0x0dbb, 0x07cc,
                                    0, 6))
        if bv >= 50:
            b, y = (2412, 1993) if bv == 50 else (0x0dbb, 1996)
            return rec(0x0809, pack('<HHHH', 0x0500, kind, b, y))
        if self.opt.get('oddbof'):
            # as some other programs write it
            v = {40: 0x0400, 30: 0x0300}.get(
                bv, self.opt['oddbof'] & 0xffff)
            return rec(0x0809, pack('<HHHH', v, kind, 0, 0)[
                :self.rng.choice((4, 6, 8))])
        if bv == 40:
            return rec(0x0409, pack('<HHH', 0x0400, kind, 0))
        if bv == 30:
            return rec(0x0209, pack('<HHH', 0x0300, kind, 0))
        return rec(0x0009, pack('<HH', 0x0200, kind))

    def chart(self):
        """An embedded chart, nothing in there is a cell."""
        return self.bof(0x20) + rec(0x0203, pack(
            '<HHHd', self.rng.randint(0, 300), self.rng.randint(0, 200), 0,
            1.5)) + rec(0x1002, b'\0' * 16) + rec(0x000A)

    def noise(self):
        rng = self.rng
        return rng.choice((
            b'', b'', rec(0x000C, pack('<H', 100)),
            rec(0x000D, pack('<H', 1)), rec(0x0011, pack('<d', .001)),
            rec(0x0083, pack('<H', 0)),
            rec(0x08A0 if self.bv >= 80 else 0x0084, b'\0\0')))

    def cellrecs(self, sh):
        rng, bv = self.rng, self.bv
        items = sorted(sh.cells.items())
        if self.opt['shuffle_cells']:
            rng.shuffle(items)
        out, i = [], 0
        while i < len(items):
            (r, c), cell = items[i]
            # MULRK and MULBLANK, as long as cells are adjacent
            if bv >= 50 and not self.opt['shuffle_cells'] and \
               cell.kind in ('number', 'blank'):
                j = i
                while j < len(items) and items[j][0] == (r, c + j - i) and \
                        items[j][1].kind == cell.kind and (
                            cell.kind == 'blank' or items[j][1].enc == 'rk'):
                    j += 1
                n = rng.choice((j - i, rng.randint(1, j - i))) if j > i else 1
                if j - i >= 2 and n >= 2 and rng.random() < .85:
                    if cell.kind == 'number':
                        out.append(rec(0x00BD, pack('<HH', r, c) + b''.join(
                            pack('<HI', x.xf + self.xfbase, x.extra)
                            for _, x in items[i:i + n]) +
                            pack('<H', c + n - 1)))
                    else:
                        out.append(rec(0x00BE, pack('<HH', r, c) + b''.join(
                            pack('<H', x.xf + self.xfbase)
                            for _, x in items[i:i + n]) +
                            pack('<H', c + n - 1)))
                    i += n
                    continue
            out.append(self.cell(r, c, cell))
            i += 1
            if bv >= 50 and self.opt['noise'] and rng.random() < .05:
                out.append(self.chart())
        return out

    def sheet(self, sh, embedded=b''):
        """The records of a sheet, from BOF to EOF."""
        rng, bv = self.rng, self.bv
        nr, nc = sh.dims(True)
        out = [self.bof(0x10), embedded]
        if self.opt['noise']:
            out.append(self.noise())
        if bv >= 80:
            dim = rec(0x0200, pack('<iiHHH', 0, nr, 0, nc, 0))
        elif bv == 20:
            dim = rec(0x0000, pack('<HHHH', 0, nr, 0, nc))
        else:
            dim = rec(0x0200, pack('<HHHHH', 0, min(nr, 65535), 0, nc, 0))
        out.append(dim)
        rows = post = b''
        ann = getattr(sh, 'annot', None)
        if ann is not None:
            # notes, links and layout
            rows, post = ann.emit(self)
            ann.plainrows = False
        elif rng.random() < .6:
            for r in sorted({k[0] for k in sh.cells}):
                if bv == 20:
                    rows += rec(0x08, pack('<HHHHHBH', r, 0, nc, 255, 0, 0,
                                           0))
                else:
                    rows += rec(0x0208, pack('<HHHHHHHH', r, 0, nc, 255, 0,
                                             0, 0x100, 15))
        out.append(rows)
        out += self.cellrecs(sh)
        if bv >= 50 and self.opt['noise'] and rng.random() < .3:
            out.append(self.chart())
        out.append(post)
        if bv >= 80:
            if rng.random() < .7 and ann is None:
                out.append(rec(0x023E, pack('<HHHHHHI', 0x6b6, 0, 0, 64, 0,
                                            0, 0)))
            ms = [pack('<HHHH', a, b - 1, c, d - 1)
                  for a, b, c, d in sh.merges]
            while ms:
                n = rng.randint(1, len(ms))
                out.append(rec(0x00E5, pack('<H', n) + b''.join(ms[:n])))
                del ms[:n]
        if self.opt['noise']:
            out.append(self.noise())
        out.append(rec(0x000A))
        return b''.join(out)

    # -- formats

    def formats(self):
        """FORMAT and XF records."""
        rng, wb, bv = self.rng, self.wb, self.bv
        keys = {}
        out = []
        if bv >= 50:
            nextkey = rng.choice((164, 165, 170, 300))
            # keys of standard formats, for formats of this file
            own = []
            if rng.random() < .25:
                own = [k for k in range(1, 82) if k not in
                       [key for key, d in wb.xfs]]
                rng.shuffle(own)
            for key, d in wb.xfs:
                if isinstance(key, str) and key not in keys:
                    if own and rng.random() < .6:
                        keys[key] = own.pop()
                        continue
                    keys[key] = nextkey
                    nextkey += rng.randint(1, 3)
            items = list(keys.items())
            rng.shuffle(items)
            if rng.random() < .15:
                # told again later, otherwise
                items = [(rng.choice(('0.000', 'dd/mm', '#')), k)
                         for s, k in items if rng.random() < .4] + items
            for s, k in items:
                if bv >= 80:
                    out.append(rec(0x041E, pack('<H', k) + uni(rng, s)))
                else:
                    out.append(rec(0x041E, pack('<H', k) + self.bstr(s, 1)))
            fk = [k if isinstance(k, int) else keys[k] for k, d in wb.xfs]
        else:
            strs = []
            for key, d in wb.xfs:
                s = STD[key] if isinstance(key, int) else key
                if s not in strs:
                    strs.append(s)
            # others, not used
            for s in ('0', 'm/d/yy', 'h:mm'):
                if s not in strs and rng.random() < .5:
                    strs.append(s)
            first, rest = strs[0], strs[1:]
            rng.shuffle(rest)
            if self.v20 or rng.random() < .5:
                strs = [first] + rest
            else:
                strs = rest + [first]
            keys = {s: i for i, s in enumerate(strs)}
            for s in strs:
                if bv >= 40:
                    out.append(rec(0x041E, b'\0\0' + self.bstr(s, 1)))
                else:
                    out.append(rec(0x001E, self.bstr(s, 1)))
            fk = [keys[STD[k] if isinstance(k, int) else k]
                  for k, d in wb.xfs]
            if self.v20 and [k for k, d in wb.xfs] == [0] and \
                    rng.random() < .5:
                out = []        # nothing but the general format
        self.fmtkeys = keys
        if self.v20:
            return b''.join(out)
        style = 0
        nstyle = rng.choice((0, 1, 15, 16, 21))
        if bv == 20 and rng.random() < .3:
            nstyle = 70     # beyond what fits in the cell attributes
        xfs = []
        for i in range(nstyle):
            # hostile: styles of other formats
            k = rng.choice(fk)
            if bv == 20:
                k = min(k, 63)
            xfs.append(self.xf(k, True))
        self.xfbase = nstyle
        for k in fk:
            xfs.append(self.xf(k, False))
        return b''.join(out + xfs)

    def xf(self, k, style):
        bv = self.bv
        look = self.opt.get('look')
        if look:
            return look.xf(self, k, style)
        tp = 0xfff4 | 1 if style else 1
        if bv >= 80:
            return rec(0x00E0, pack('<HHHBBBBIIH', 0, k, tp, 0x20, 0, 0,
                                    0 if style else 4, 0, 0, 0x20c0))
        if bv >= 50:
            return rec(0x00E0, pack('<HHHBBII', 0, k, tp, 0x20, 0, 0x20c0,
                                    0))
        if bv == 40:
            return rec(0x0443, pack('<BBHBBHI', 0, k, tp, 0x20, 0, 0, 0))
        if bv == 30:
            return rec(0x0243, pack('<BBBBHHI', 0, k, tp & 0xff, 0, 0x20, 0,
                                    0))
        return rec(0x0043, pack('<BBBB', 0, 0, k & 0x3f, 0))

    def fonts(self):
        bv = self.bv
        out = b''
        look = self.opt.get('look')
        if look:
            return look.fonts(self)
        for i in range(self.rng.choice((4, 4, 5))):
            if bv >= 80:
                n = 'Arial'
                out += rec(0x0031, pack('<HHHHHBBBB', 200, 0, 0x7fff, 400, 0,
                                        0, 0, 0, 0) + bytes((len(n), 0)) +
                           n.encode())
            elif bv >= 50:
                out += rec(0x0031, pack('<HHHHHBBBB', 200, 0, 0x7fff, 400, 0,
                                        0, 0, 0, 0) + b'\5Arial')
            elif bv >= 30:
                out += rec(0x0231, pack('<HHH', 200, 0, 0x7fff) + b'\5Arial')
            else:
                out += rec(0x0031, pack('<HH', 200, 0) + b'\5Arial')
        return out

    # -- workbook

    def codepage_rec(self):
        if 'said' in self.opt:
            # a code page that is not the one used
            if self.opt['said'] is None:
                return b''
            return rec(0x0042, pack('<H', self.opt['said']))
        if self.codepage is None:
            return b''
        return rec(0x0042, pack('<H', self.codepage))

    def datemode_rec(self):
        if self.wb.datemode or self.rng.random() < .6:
            return rec(0x0022, pack('<H', self.wb.datemode))
        return b''

    def username(self):
        """The name of the one who wrote the file."""
        rng, s = self.rng, self.opt.get('user')
        if s is None:
            s = 'me' if rng.random() < .5 else ''
        if not s:
            return b''
        if self.bv >= 80:
            s = s[:26]
            out = uni(rng, s)
            size = 112
        else:
            s = fit(s, self.enc, rng)
            while len(s.encode(self.enc)) > 31:
                s = s[:-1]
            out = self.bstr(s, 1)
            size = 32
        pad = rng.choice((b' ', b' ', b' ', b'\0'))
        self.user = s.rstrip()
        return rec(0x005C, (out + pad * size)[:rng.choice((
            size, size, max(len(out), 2 if self.bv < 80 else 4)))])

    def country_rec(self):
        rng = self.rng
        self.country = self.opt.get('country')
        if 'country' not in self.opt and rng.random() < .4:
            self.country = (46, 46)
        if not self.country:
            return b''
        return rec(0x008C, pack('<HH', *self.country))

    def stream(self):
        """The record stream."""
        rng, wb, bv = self.rng, self.wb, self.bv
        if bv < 80:
            cands = self.opt.get('codepage') or rng.choice(CODEPAGES)
            self.codepage, self.enc = cands
        elif rng.random() < .9:
            self.codepage = 1200
        fit_text(self)
        if self.bundle:
            return self.bundled()
        if bv < 50:
            return self.single()
        fo = self.fonts()
        fm = self.formats()
        look = self.opt.get('look')
        if look:
            fm += look.tail(self)
        sheets = [self.sheet(s) for s in wb.sheets]
        extra = []
        if rng.random() < .2:
            # sheets that are not work sheets
            kind = rng.choice((1, 2, 6))
            extra.append((kind, self.bof({1: 0x40, 2: 0x20, 6: 0x06}[kind]) +
                          rec(0x0203, pack('<HHHd', 0, 0, 0, 1.0)) +
                          rec(0x000A)))
        head = self.bof(5)
        if self.opt['noise'] and bv >= 80:
            head += rec(0x00E1, pack('<H', 1200)) + rec(0x00E2)
        both = [self.username(), self.codepage_rec()]
        if rng.random() < .2:
            both.reverse()
        head += b''.join(both)
        head += self.datemode_rec() + fo + fm
        if self.opt['noise'] and not look:
            head += rec(0x0293, pack('<HBB', 0x8000, 0, 255))
        tail = self.country_rec()
        entries = []
        for i, s in enumerate(wb.sheets):
            entries.append([i, s.visibility, 0, s.name])
        for kind, data in extra:
            entries.insert(rng.randint(0, len(entries)),
                           [len(sheets), 0, kind, 'Extra'])
            sheets.append(data)
        if self.opt.get('globals'):
            # defined names and the like
            g = self.opt['globals'](self, entries)
            if bv >= 80 or rng.random() < .2:
                tail = g + tail
            else:
                head += g
        sstw = None
        if bv >= 80 and (self.sst or rng.random() < .5):
            sstw = SSTWriter(rng, self.opt['sst'])
            tail += sstw.build(self.sst, self.ssttotal)
            if rng.random() < .5:
                tail += rec(0x00FF, pack('<H', 8) + b'\0' * 8)
        self.sstw = sstw
        tail += rec(0x000A)
        order = list(range(len(sheets)))
        if self.opt['shuffle_sheets']:
            rng.shuffle(order)
        bounds = []
        for i, vis, kind, name in entries:
            if bv >= 80:
                nm = uni(rng, name, 1)
            else:
                nm = self.bstr(name, 1)
            bounds.append((i, pack('<BB', vis, kind) + nm))
        size = sum(8 + len(b) for i, b in bounds)
        pos = len(head) + size + len(tail)
        where = {}
        body = b''
        for i in order:
            if self.opt['gaps'] and rng.random() < .3:
                # garbage between the substreams is never looked at
                body += b'\xff' * rng.randint(1, 40)
            where[i] = pos + len(body)
            body += sheets[i]
        bs = b''.join(rec(0x0085, pack('<i', where[i]) + b)
                      for i, b in bounds)
        return head + bs + tail + body

    def single(self):
        """BIFF 2 to 4: one sheet and no globals."""
        rng, wb, bv = self.rng, self.wb, self.bv
        if bv == 20:
            self.v20 = self.opt['v20'] and all(
                len(wb.xfs) <= 60 for _ in (1,))
        emb = self.codepage_rec() + self.datemode_rec() + self.fonts()
        if 'user' in self.opt:
            emb += self.username()
        if 'country' in self.opt:
            emb += self.country_rec()
        fm = self.formats()
        look = self.opt.get('look')
        if look:
            fm += look.tail(self)
        emb += fm
        assert len(wb.sheets) == 1
        return self.sheet(wb.sheets[0], emb)


    def bundled(self):
        """BIFF 4 workbook: sheets with formats of their own."""
        rng, wb = self.rng, self.wb
        head = rec(0x0409, pack('<HHH', 0x0400, 0x0100, 0))
        head += self.username()
        head += self.codepage_rec()
        head += self.country_rec()
        if rng.random() < .5:
            head += self.datemode_rec()
        names = b''.join(rec(0x85, self.bstr(s.name, 1)) for s in wb.sheets)
        body = b''
        for sh in wb.sheets:
            emb = self.codepage_rec() * rng.randint(0, 1)
            emb += self.datemode_rec() + self.fonts() + self.formats()
            self.bases.append(self.xfbase)
            data = self.sheet(sh, emb)
            if self.opt['gaps'] and rng.random() < .3:
                # the length given counts, not where the sheet ends
                data += b'\xff' * rng.randint(1, 40)
            body += rec(0x8F, pack('<i', len(data)) + self.bstr(
                sh.name, 1)) + data
        pos = len(head) + 8 + len(names)
        return head + rec(0x8E, pack('<i', pos)) + names + body + rec(0x0A)


def fit_text(w):
    """Make the model hold only what this version can store."""
    rng, wb, bv = w.rng, w.wb, w.bv
    for sh in wb.sheets:
        for cell in sh.cells.values():
            if cell.kind == 'text' and bv < 80:
                cell.value = fit(cell.value, w.enc, rng)[:100]
        if bv < 50 and not w.bundle:
            sh.name = 'Sheet 1'
        if bv < 50:
            sh.visibility = 0
        if bv < 50 and not w.bundle:
            pass
        elif bv < 80:
            sh.name = fit(sh.name, w.enc, rng)
        if bv < 80:
            sh.merges = []
    seen = set()
    for sh in wb.sheets:
        while sh.name in seen:
            sh.name += 'x'
        seen.add(sh.name)
    if bv < 80:
        xfs = []
        for k, d in wb.xfs:
            if isinstance(k, str):
                if bv < 50 and k == '':
                    k = '@'
            elif bv < 50 and k not in STD:
                k, d = ('General', 0)
            xfs.append((k, d))
        wb.xfs = xfs


REP = {}


def fit(s, enc, rng):
    if enc not in REP:
        chars = []
        for o in list(range(32, 0x600)) + list(range(0x3040, 0x3060)) + \
                list(range(0x4e00, 0x4e80)):
            try:
                ch = chr(o)
                if ch.encode(enc).decode(enc) == ch and o > 126:
                    chars.append(ch)
            except UnicodeError:
                pass
        REP[enc] = chars or ['a']
    out = []
    for ch in s:
        try:
            if ch.encode(enc).decode(enc) != ch:
                ch = rng.choice(REP[enc])
        except UnicodeError:
            ch = rng.choice(REP[enc])
        out.append(ch)
    return ''.join(out)


def options(rng, **kw):
    o = dict(shuffle_cells=rng.random() < .1, noise=rng.random() < .4,
             shuffle_sheets=rng.random() < .3, gaps=rng.random() < .15,
             v20=rng.random() < .4, sst=dict(PLAIN_SST))
    o.update(kw)
    return o


def use_rk(rng, wb):
    """Give some number cells values in the RK encoding."""
    for sh in wb.sheets:
        p = rng.choice((0, .3, .8, 1))
        for cell in sh.cells.values():
            if cell.kind == 'number' and rng.random() < p:
                cell.value, cell.extra = M.rk_number(rng)
                cell.enc = 'rk'


def write(wb, rng, bv=80, opt=None, ole=None):
    """Return bytes and the writer. ole: None (at random), True or False."""
    if bv >= 30 and not (opt and opt.get('nork')):
        use_rk(rng, wb)
    w = Writer(wb, rng, bv, opt)
    s = w.stream()
    w.raw = s
    if ole is None:
        ole = bv >= 50 and (bv >= 80 or rng.random() < .8)
    if not ole:
        return s, w
    name = 'Workbook' if bv >= 80 else 'Book'
    return olegen.simple(s, name), w
