"""DBF files written byte by byte with the values they denote."""
import datetime
import string
import struct

from rv import gen

NAN = float('nan')


class Dbf(object):
    """fields: (name, type, size, deci); rows: (deleted, raw, values)"""

    def __init__(self, cx, nfields=None, nrecs=None, types='NNDLFC',
                 dups=0, small=False):
        rng = cx.rng
        n = nfields or rng.choice((1, 1, 2, 3, 4, 6, 10, rng.randint(1, 40)))
        self.fields = []
        names = []
        for i in range(n):
            while True:
                nm = ''.join(rng.choice(string.ascii_uppercase +
                                        string.digits + '_') for _ in
                             range(rng.choice((1, 3, 6, 10, 11))))
                if rng.random() < .1:
                    nm = rng.choice(('RECNO', 'DeletionFla', 'a b', 'x',
                                     'ch0', 'ch1', 'C', 'N'))
                if nm not in names:
                    break
            if names and rng.random() < dups:
                nm = rng.choice(names)
            names.append(nm)
            typ = rng.choice(types)
            deci = 0
            if typ == 'N':
                size = rng.choice((1, 2, 5, 8, 10, 15, 19, 20))
                if rng.random() < .5 and size > 2:
                    deci = rng.randint(1, min(size - 2, 9)) if size > 3 \
                        else 1
            elif typ == 'F':
                size = rng.choice((5, 8, 13, 20))
                deci = rng.randint(0, 4)
            elif typ == 'D':
                size = 8
            elif typ == 'L':
                size = 1
            else:
                size = rng.choice((1, 2, 5, 10, 40, 100, 254, 255))
            if small and typ in 'NFC':
                size, deci = rng.choice(((5, 1), (6, 2), (7, 0))) if \
                    typ != 'C' else (rng.randint(1, 3), 0)
            self.fields.append((nm, typ, size, deci))
        self.nrecs = nrecs if nrecs is not None else \
            gen.length(rng, 120)
        delp = rng.choice((0, 0, .05, .3, .9, 1) if rng.random() < .7 else
                          (.5,))
        blankp = rng.choice((0, .05, .4, .95))
        self.rows = []
        for r in range(self.nrecs):
            raw, vals = b'', []
            for f in self.fields:
                b, v = self.value(rng, f, blankp)
                assert len(b) == f[2], (f, b)
                raw += b
                vals.append(v)
            self.rows.append((rng.random() < delp, raw, vals))
        if self.rows and rng.random() < .2:
            # edges
            for at in (0, -1):
                d, raw, vals = self.rows[at]
                self.rows[at] = (rng.random() < .7, raw, vals)
        self.pad = rng.choice((0, 0, 0, 1, 2, 31, rng.randint(0, 31)))
        self.delmark = rng.choice((b'*', b'*', b'*', b'\x2a'))
        self.version = rng.choice((3, 3, 0x83, 4, 0x30))
        self.tail = rng.choice((b'', b'\x1a', b'\x1a', b'\x1a' + b'junk' * 5))
        self.date = bytes((rng.randint(0, 255), rng.randint(1, 12),
                           rng.randint(1, 31)))
        self.noise = rng.random() < .3 and rng.randbytes(20) or bytes(20)
        self.fnoise = rng.random() < .3
        self.rng = rng
        cx.note('dbf fields', self.fields, 'records', self.nrecs, 'deleted',
                [i for i, r in enumerate(self.rows) if r[0]][:40],
                'padding', self.pad)
        for d, raw, vals in self.rows[:4]:
            cx.note('  ', raw)

    def value(self, rng, f, blankp):
        nm, typ, size, deci = f
        if typ == 'N':
            if rng.random() < blankp:
                return rng.choice((b' ' * size, b' ' * size, b'\0' * size)), \
                    NAN
            while True:
                if deci:
                    x = rng.uniform(-1, 1) * 10 ** rng.randint(-deci, size)
                    t = '%.*f' % (deci, x)
                    if rng.random() < .1:
                        t = '0.' + '0' * deci
                else:
                    t = str(rng.choice((0, 1, -1, 9, rng.randint(-99, 99),
                                        rng.randint(-10**6, 10**6),
                                        rng.randint(-10**18, 10**18),
                                        gen.const_int(rng, 0, 99999))))
                if len(t) <= size:
                    break
            v = float(t) if deci else int(t)
            form = rng.random()
            if form < .75:
                b = t.rjust(size)
            elif form < .85:
                b = t.ljust(size)
            elif form < .95 and t[0] != '-':
                b = t.rjust(size, '0')
            elif form < .97:
                b = t.center(size)
            else:
                # NULs are no part of the value
                b = rng.choice((t.rjust(size, '\0'), t.ljust(size, '\0')))
            return b.encode('ascii'), v
        if typ == 'F':
            if rng.random() < blankp:
                return b' ' * size, NAN
            while True:
                t = rng.choice(('%.*f' % (deci, rng.uniform(-1, 1) *
                                          10 ** rng.randint(-2, 9)),
                                '%.1e' % rng.uniform(-1e9, 1e9), '0', '-1'))
                if len(t) <= size:
                    break
            return t.rjust(size).encode('ascii'), float(t)
        if typ == 'D':
            if rng.random() < blankp:
                return b' ' * 8, None
            d = datetime.date(1, 1, 1) + datetime.timedelta(
                days=rng.choice((rng.randint(0, 3652058),
                                 rng.randint(693595, 750000))))
            if rng.random() < .1:
                d = rng.choice((datetime.date(1, 1, 1),
                                datetime.date(9999, 12, 31),
                                datetime.date(2000, 2, 29),
                                datetime.date(1999, 12, 31),
                                datetime.date(1900, 1, 1)))
            return ('%04d%02d%02d' % (d.year, d.month,
                                      d.day)).encode('ascii'), d
        if typ == 'L':
            c = rng.choice('YyTtNnFf? ')
            return c.encode('ascii'), ('T' if c in 'YyTt' else
                                       'F' if c in 'NnFf' else '?')
        if rng.random() < blankp:
            return b' ' * size, ' ' * size
        n = rng.randint(1, size)
        chars = string.ascii_letters + string.digits + ' .,;-_/#"\'\\'
        t = ''.join(rng.choice(chars) for _ in range(n))
        if rng.random() < .1:
            t = rng.choice(('*', '12', '-5', 'nan', 'T', '20190102',
                            '\r', '\n', '\x1a', '*x'))[:size]
        t = t.ljust(size)
        return t.encode('ascii'), t

    def header(self, numrec=None, lenheader=None):
        n = len(self.fields)
        lh = 33 + 32 * n + self.pad
        lr = 1 + sum(f[2] for f in self.fields)
        h = bytes((self.version,)) + self.date + struct.pack(
            '<LHH', self.nrecs if numrec is None else numrec,
            lh if lenheader is None else lenheader, lr) + self.noise
        for nm, typ, size, deci in self.fields:
            fn = bytes(14) if not self.fnoise else bytes(
                (7 * i + 1) & 255 for i in range(14))
            h += struct.pack('<11sc4sBB14s', nm.encode('ascii'),
                             typ.encode('ascii'), bytes(4), size, deci, fn)
        return h + b'\r' + bytes(self.pad)

    def records(self):
        return b''.join((self.delmark if d else b' ') + raw
                        for d, raw, _ in self.rows)

    def file(self):
        return self.header() + self.records() + self.tail

    def live(self):
        return [v for d, _, v in self.rows if not d]

    def columns(self):
        live = self.live()
        return [[v[i] for v in live] for i in range(len(self.fields))]

    @property
    def names(self):
        return [f[0] for f in self.fields]
