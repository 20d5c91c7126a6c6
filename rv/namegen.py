"""Defined names in xls files: random formulas with the value they denote, and
the records they are stored in. Written from the OpenOffice.org documentation
of the format, with no regard to the reader.

The value of a formula is a tuple (kind, value, must): kind 'num', 'str',
'bool', 'err', 'ref', 'rel' or 'unk', must tells whether the reader has to
find the value (constants, references) or may as well tell that it did not.
"""
from struct import pack

from rv import wbmodel as M
from rv import xlsgen
from rv.xlsgen import rec, uni

BUILTIN = ['Consolidate_Area', 'Auto_Open', 'Auto_Close', 'Extract',
           'Database', 'Criteria', 'Print_Area', 'Print_Titles', 'Recorder',
           'Data_Form', 'Auto_Activate', 'Auto_Deactivate', 'Sheet_Title',
           '_FilterDatabase']
FIXED = [(2, 1), (10, 0), (15, 1), (19, 0), (27, 2), (31, 3), (34, 0),
         (48, 2), (221, 0), (74, 0)]
VAR = [(4, 1, 9), (7, 1, 5), (8, 0, 1), (9, 0, 1), (36, 1, 4), (5, 1, 3),
       (78, 3, 5)]
UNK = ('unk', None, False)
NOTHING = ('unk', None, True)
ANY = ('any', None, False)
NOREF = ('noref', None, False)    # no cells of this workbook


class Name(object):
    pass


class Names(object):
    """All names of a workbook."""

    def __init__(self, rng, wb, bv):
        self.rng, self.wb, self.bv = rng, wb, bv
        self.n = rng.choice((1, 2, 4, 8, 14))
        self.items = []
        self.circular = rng.random() < .08
        self.chain = rng.random() < .08

    # -- formulas

    def sheetref(self):
        """A reference to sheets: (first, last) of all entries, or None."""
        rng = self.rng
        n = len(self.entries)
        a = rng.randrange(n)
        b = rng.choice((a, a, a, rng.randrange(a, n)))
        return a, b

    def ref(self, depth=0, area=None, sheets=None, rel=None):
        """Token and value of a reference."""
        rng, bv = self.rng, self.bv
        if area is None:
            area = rng.random() < .6
        if rel is None:
            rel = rng.random() < .15
        if rng.random() < .08:
            return self.badref(area)
        sh = sheets or self.sheetref()
        maxr = 65535 if bv >= 80 else 16383
        r1 = rng.choice((rng.randint(0, 12), rng.randint(0, maxr), 0, maxr,
                         255, 256, (maxr + 1) // 2, maxr // 2))
        c1 = rng.choice((rng.randint(0, 8), rng.randint(0, 255), 0, 255,
                         127, 128))
        r2, c2 = r1, c1
        if area:
            r2 = rng.choice((r1, min(maxr, r1 + rng.randint(0, 20)), maxr))
            c2 = rng.choice((c1, min(255, c1 + rng.randint(0, 10)), 255))
            if rng.random() < .1:
                r1, r2 = 0, maxr
        fl = [0] * 4    # rows, then columns
        if rel:
            fl = [rng.randint(0, 1) for _ in range(4)]
            if not area:
                fl[1], fl[3] = fl[0], fl[2]
        cls = 0x20
        tok = bytes(((0x1B if area else 0x1A) + cls,))
        if bv >= 80:
            tok += pack('<H', self.xti(sh))
            cc = [c | f << 15 | g << 14 for c, f, g in zip(
                (c1, c2), fl[:2], fl[2:])]
            tok += pack('<HHHH', r1, r2, *cc) if area else pack(
                '<HH', r1, cc[0])
        else:
            tok += pack('<h8xhh', -rng.randint(1, 3), *sh)
            rr = [r | f << 15 | g << 14 for r, f, g in zip(
                (r1, r2), fl[:2], fl[2:])]
            tok += pack('<HHBB', rr[0], rr[1], c1, c2) if area else pack(
                '<HB', rr[0], c1)
        if any(fl):
            half, full = (32768, 65536) if bv >= 80 else (8192, 16384)
            r1, r2 = [r - full if f and r >= half else r
                      for r, f in zip((r1, r2), fl[:2])]
            c1, c2 = [c - 256 if f and c >= 128 else c
                      for c, f in zip((c1, c2), fl[2:])]
        s1, s2 = (self.map[i] for i in sh)
        if s1 < 0 or s2 < 0:
            return tok, NOREF
        co = (s1, s2 + 1, r1, r2 + 1, c1, c2 + 1)
        if any(fl):
            return tok, ('rel', [(co, (0, 0) + tuple(fl))], True)
        return tok, ('ref', [co], True)

    def badref(self, area):
        rng, bv = self.rng, self.bv
        k = rng.random()
        if k < .4:
            # a deleted reference
            t = rng.choice((0x2A, 0x2B))
            n = {0x2A: 4, 0x2B: 8}[t] if bv >= 80 else {0x2A: 3, 0x2B: 6}[t]
            return bytes((t,)) + b'\0' * n, ('err', None, False)
        if k < .6:
            t = rng.choice((0x3C, 0x3D))
            if bv >= 80:
                b = pack('<H', self.xti((0, 0))) + b'\0' * (
                    4 if t == 0x3C else 8)
            else:
                b = pack('<h8xhh', -1, 0, 0) + b'\0' * (
                    3 if t == 0x3C else 6)
            return bytes((t,)) + b, ('err', None, False)
        if bv >= 80:
            # other book, deleted sheet, sheet not specified
            x = rng.choice((('ext', 0, 0), ('ext', 0, 1), (0, 65535, 65535),
                            (0, 65534, 65534)))
            b = pack('<H', self.xti(x)) + pack('<HH', 3, 4)
        else:
            b = pack('<h8xhh', *rng.choice(((1, 0, 0), (-1, -1, -1)))) + \
                pack('<HB', 3, 4)
        return b'\x3A' + b, NOREF

    def xti(self, sh):
        if sh not in self.xtis:
            self.xtis.append(sh)
        return self.xtis.index(sh)

    def const(self):
        rng = self.rng
        k = rng.random()
        if k < .3:
            i = rng.choice((0, 1, 2, 65535, rng.randint(0, 65535)))
            return pack('<BH', 0x1E, i), ('num', float(i), True)
        if k < .55:
            x = rng.choice((M.number(rng), rng.uniform(0, 100), 1e308, 0.0))
            x = abs(x)
            return pack('<Bd', 0x1F, x), ('num', x, True)
        if k < .8:
            s = M.text(rng, 20, controls=False)
            if self.bv >= 80:
                s = s.encode('utf-16-le')[:400].decode('utf-16-le', 'ignore')
                return b'\x17' + uni(rng, s, 1), ('str', s, True)
            s = xlsgen.fit(s, self.enc, rng)[:60]
            b = s.encode(self.enc)
            return pack('<BB', 0x17, len(b)) + b, ('str', s, True)
        if k < .9:
            b = rng.randint(0, 1)
            return bytes((0x1D, b)), ('bool', b, True)
        e = rng.choice(sorted(M.ERRORS))
        return bytes((0x1C, e)), ('err', e, True)

    def expr(self, depth):
        """Tokens and value of an expression."""
        rng, bv = self.rng, self.bv
        k = rng.random()
        if depth <= 0 or k < .25:
            k = rng.random()
            if k < .6:
                return self.const()
            if k < .8:
                t, v = self.ref()
                if rng.random() < .5 and t[0] in (0x3A, 0x3B):
                    # a value is wanted, not a reference
                    t = bytes((t[0] + 0x20,)) + t[1:]
                    v = UNK
                return t, v
            return self.name()
        if k < .55:
            return self.binop(depth)
        if k < .65:
            op = rng.choice((0x12, 0x13, 0x14))
            t, v = self.number(depth - 1) if rng.random() < .7 else \
                self.expr(depth - 1)
            t += bytes((op,))
            if v[0] == 'bool' or v[0] in ('any', 'name'):
                return t, ANY
            if v[0] != 'num' or v[1] is None:
                return t, UNK
            x = v[1]
            x = -x if op == 0x13 else x / 100.0 if op == 0x14 else x
            return t, ('num', x, v[2])
        if k < .7:
            t, v = self.expr(depth - 1)
            return t + b'\x15', v
        if k < .75:
            t, v = self.expr(depth - 1)
            return b'\x19\x40' + pack('<BB', rng.randint(0, 5), 1) + t, v
        if k < .95:
            return self.func(depth)
        if bv >= 80 and rng.random() < .5:
            # a constant array, its values are after the formula
            self.extra = True
            return b'\x60' + b'\0' * 7, UNK
        t, v = self.expr(depth - 1)
        return t + b'\x19\x10\0\0', UNK     # SUM of it

    def number(self, depth):
        for _ in range(20):
            t, v = self.expr(depth)
            if v[0] == 'num':
                break
        return t, v

    def binop(self, depth):
        rng = self.rng
        op = rng.randint(0x03, 0x0E)
        get = self.number if rng.random() < .7 and op != 8 else self.expr
        ta, a = get(depth - 1)
        tb, b = get(depth - 1)
        if op in (4, 6, 7) and b[0] == 'num' and rng.random() < .1:
            tb, b = b'\x1e\0\0', ('num', 0.0, True)
        t = ta + tb + bytes((op,))
        if 'any' in (a[0], b[0]) or 'name' in (a[0], b[0]):
            return t, ANY
        if a[1] is None or b[1] is None:
            return t, UNK
        must = a[2] and b[2]
        try:
            if a[0] == b[0] == 'num':
                x, y = a[1], b[1]
                if op <= 6:
                    v = (x + y if op == 3 else x - y if op == 4 else
                         x * y if op == 5 else x / y)
                    if v in (float('inf'), -float('inf')) or v != v:
                        return t, ANY
                    return t, ('num', v, must)
                if op == 7:
                    if x == y == 0:
                        return t, ANY
                    v = x ** y
                    if isinstance(v, complex) or v == float('inf'):
                        return t, UNK
                    return t, ('num', v, must)
                if op == 8:
                    if x == int(x) and y == int(y) and x and y and \
                       abs(x) < 1e9 and abs(y) < 1e9:
                        return t, ('str', '%d%d' % (x, y), must)
                    return t, ANY
                v = {9: x < y, 10: x <= y, 11: x == y, 12: x >= y,
                     13: x > y, 14: x != y}[op]
                return t, ('bool', int(v), must)
        except (ZeroDivisionError, OverflowError):
            return t, UNK
        if op == 8 and a[0] == b[0] == 'str':
            return t, ('str', a[1] + b[1], must)
        # what comes of other kinds is not known here
        return t, ANY

    def func(self, depth):
        rng = self.rng
        k = rng.random()
        if k < .3:
            i, n = rng.choice(FIXED)
            t = b''.join(self.expr(depth - 1)[0] for _ in range(n))
            return t + pack('<BH', 0x41, i), UNK
        if k < .6:
            i, lo, hi = rng.choice(VAR)
            n = rng.choice((lo, rng.randint(lo, hi)))
            t = b''.join(b'\x16' if rng.random() < .1 else
                         self.expr(depth - 1)[0] for _ in range(n))
            return t + pack('<BBH', 0x42, n, i), UNK
        if k < .8:
            # IF with its jumps
            n = rng.choice((2, 3))
            parts = [self.expr(depth - 1) for _ in range(n)]
            t = parts[0][0] + b'\x19\x02\x05\0' + parts[1][0] + \
                b'\x19\x08\x05\0'
            if n == 3:
                t += parts[2][0] + b'\x19\x08\x05\0'
            t += pack('<BBH', 0x42, n, 1)
            c = parts[0][1]
            if c[0] == 'bool' or c[0] == 'num' and c[1] in (0.0, 1.0):
                if c[1] is None:
                    return t, ANY
                if c[1]:
                    k, v, m = parts[1][1]
                elif n == 3:
                    k, v, m = parts[2][1]
                else:
                    k, v, m = 'bool', 0, True
                return t, (k, v, False)
            return t, ANY
        if k < .9:
            # CHOOSE with its jump table
            n = rng.randint(1, 4)
            i = rng.randint(1, n)
            parts = [self.expr(depth - 1) for _ in range(n)]
            t = pack('<BH', 0x1E, i) + b'\x19\x04' + pack('<H', n) + \
                b'\0\0' * (n + 1)
            for x, _ in parts:
                t += x + b'\x19\x08\0\0'
            t += pack('<BBH', 0x42, n + 1, 100)
            k, v, m = parts[i - 1][1]
            return t, (k, v, False)
        # a user defined function: its name is the first argument
        n = rng.randint(0, 2)
        if self.bv >= 80:
            t = b'\x39' + pack('<HHxx', self.xti(('add', 65534, 65534)), 1)
        else:
            t = b'\x39' + pack('<h8xH12x', 1, 1)
        t += b''.join(self.expr(depth - 1)[0] for _ in range(n))
        return t + pack('<BBH', 0x42, n + 1, 255), UNK

    def name(self):
        """Another name of this workbook."""
        rng = self.rng
        me = len(self.items)
        if rng.random() < .7 and me:
            i = rng.randrange(me)
        elif self.circular:
            i = rng.randrange(self.n)
        elif me + 1 < self.n:
            # one that is defined later
            i = rng.randrange(me + 1, self.n)
        else:
            return self.const()
        t = pack('<BHxx' if self.bv >= 80 else '<BH12x', 0x23, i + 1)
        return t, ('name', i, True)

    def formula(self):
        rng = self.rng
        me = len(self.items)
        if self.chain and me + 1 < self.n:
            return pack('<BHxx' if self.bv >= 80 else '<BH12x', 0x23,
                        me + 2), ('name', me + 1, self.n < 9)
        k = rng.random()
        if k < .3:
            return self.ref()
        if k < .45:
            # a list of references
            n = rng.randint(2, 4)
            parts = [self.name() if rng.random() < .15 else
                     self.ref(rel=False) for _ in range(n)]
            t = parts[0][0]
            for x, _ in parts[1:]:
                t += x + b'\x10'
            if rng.random() < .5:
                t = b'\x29' + pack('<H', len(t)) + t
            return t, ('list', [v for _, v in parts], True)
        if k < .55:
            # range or intersection
            sh = self.sheetref()
            ta, a = self.ref(sheets=sh)
            tb, b = self.ref(sheets=sh) if rng.random() < .9 else \
                self.expr(1)
            op = rng.choice((0x0F, 0x11))
            t = ta + tb + bytes((op,))
            if a[0] != 'ref' or b[0] != 'ref':
                return t, ANY
            a, b = a[1][0], b[1][0]
            if a[:2] != b[:2]:
                return t, ANY
            f, g = (min, max) if op == 0x11 else (max, min)
            co = a[:2] + (f(a[2], b[2]), g(a[3], b[3]), f(a[4], b[4]),
                          g(a[5], b[5]))
            if co[2] >= co[3] or co[4] >= co[5]:
                return t, ANY
            return t, ('ref', [co], True)
        if k < .6:
            return b'', NOTHING
        return self.expr(rng.choice((0, 1, 2, 3, 4)))

    # -- records

    def emit(self, w, entries):
        rng, bv = self.rng, self.bv
        self.enc, self.entries = w.enc, entries
        self.map = [e[0] if e[2] == 0 else -1 for e in entries]
        self.xtis = []
        out = []
        seen = set()
        for _ in range(self.n):
            nm = Name()
            while 1:
                nm.text = rng.choice((
                    'rate', 'Total_1', 'x.y', '_a', 'Bl\xe5', '\u03a9mega',
                    'S\xf6', '\\b', 'name' + str(rng.randint(0, 99)),
                    '\u4e2d\u6587', 'A' * rng.choice((20, 255))))
                if rng.random() < .3:
                    nm.text = nm.text.upper()
                if bv < 80:
                    nm.text = xlsgen.fit(nm.text, self.enc, rng)[:100]
                nm.builtin = rng.random() < .15
                if nm.builtin:
                    nm.code = rng.randrange(len(BUILTIN))
                    nm.text = BUILTIN[nm.code]
                local = rng.randrange(len(entries)) if rng.random() < .3 \
                    else None
                key = (nm.text.lower(), local)
                if key not in seen:
                    break
            seen.add(key)
            nm.hidden = rng.randint(0, 1)
            nm.macro = rng.random() < .06
            nm.func = nm.vbasic = 0
            nm.group = 0
            if nm.macro:
                nm.func, nm.vbasic = rng.randint(0, 1), rng.randint(0, 1)
                nm.group = rng.choice((rng.randint(0, 14), rng.randint(0, 63)))
            self.extra = False
            fml, val = self.formula()
            if len(fml) > 3000:
                fml, val = self.const()
            nm.value = val if not nm.macro else ANY
            nm.scope = -1
            if local is not None:
                nm.scope = self.map[local]
                if nm.scope < 0:
                    nm.scope = -2
            flags = (nm.hidden | nm.func << 1 | nm.vbasic << 2 |
                     int(nm.macro) << 3 | int(nm.builtin) << 5 |
                     nm.group << 6)
            stored = chr(nm.code) if nm.builtin else nm.text
            texts = [0] * 4
            if bv >= 80:
                enc = uni(rng, stored, 2)[2:] if stored else b''
                n = len(stored.encode('utf-16-le')) // 2
            else:
                enc = stored.encode(self.enc)
                n = len(enc)
            head = pack('<HBBHHH4B', flags, 0, n, len(fml),
                        0 if bv >= 80 or local is None else local + 1,
                        0 if local is None else local + 1, *texts)
            body = head + enc + fml
            if self.extra:
                body += b'\0\0\0' + b'\1' + pack('<d', 1.5)
            out.append(rec(0x18, body))
            nm.fml = fml
            self.items.append(nm)
        if bv >= 80:
            # the books referred to, and the pairs of sheets
            books = [('own', rec(0x1AE, pack('<H', len(entries)) +
                                 b'\1\4')),
                     ('ext', rec(0x1AE, pack('<H', 2) + uni(
                         rng, '\1file.xls', 2) + uni(rng, 'One', 2) + uni(
                             rng, 'Tw\u03c9', 2))),
                     ('add', rec(0x1AE, b'\1\0\1\x3A') + rec(
                         0x23, b'\0\0\0\0\0\0' + uni(rng, 'MYFUNC', 1) +
                         b'\2\0\x1c\x17'))]
            rng.shuffle(books)
            pos = {k: i for i, (k, b) in enumerate(books)}
            x = []
            for sh in self.xtis:
                if len(sh) == 3 and isinstance(sh[0], str):
                    x.append(pack('<HHH', pos[sh[0]], *sh[1:]))
                elif len(sh) == 3:
                    x.append(pack('<HHH', pos['own'], *sh[1:]))
                else:
                    x.append(pack('<HHH', pos['own'], *sh))
            xb = pack('<H', len(x)) + b''.join(x)
            cut = len(xb)
            if rng.random() < .2 and len(x) > 1:
                cut = 2 + 6 * rng.randrange(1, len(x))
            ext = rec(0x17, xb[:cut])
            if cut < len(xb):
                ext += rec(0x3C, xb[cut:])
            return b''.join(b for _, b in books) + ext + b''.join(out)
        ext = b''
        for e in entries:
            b = e[3].encode(self.enc)
            ext += rec(0x17, pack('<BB', len(b), 3) + b)
        return rec(0x16, pack('<H', len(entries))) + ext + b''.join(out)

    # -- values

    def resolve(self, i, path=()):
        """The value of name i, with other names in its formula."""
        if i in path:
            return ANY
        v = self.items[i].value
        if v[0] == 'name':
            # the macro names are not values
            if self.items[v[1]].macro:
                return UNK
            k, x, must = self.resolve(v[1], path + (i,))
            return k, x, must and v[2]
        if v[0] == 'list':
            refs = []
            for n, p in enumerate(v[1]):
                if p[0] == 'name':
                    if self.items[p[1]].macro:
                        return ANY
                    p = self.resolve(p[1], path + (i,))
                if p[0] != 'ref' or not p[2] or n and len(p[1]) > 1:
                    return ANY
                refs += p[1]
            return 'ref', refs, True
        return v
