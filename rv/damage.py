"""Damage spreadsheet files in many ways."""
import io
import re
import struct
import zipfile

U16 = (0, 1, 2, 3, 4, 7, 8, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff)
I32 = (0, 1, 2, 3, -1, -2, -3, -4, -5, -8, -100, 0x7fffffff, -0x80000000,
       0xffff, 0x10000, 255, 256)


def flips(rng, data, n=None, lo=0, hi=None):
    b = bytearray(data)
    hi = len(b) if hi is None else min(hi, len(b))
    if hi <= lo:
        return data
    for _ in range(n or rng.choice((1, 1, 2, 5, 30))):
        i = rng.randrange(lo, hi)
        k = rng.random()
        if k < .4:
            b[i] = rng.getrandbits(8)
        elif k < .6:
            b[i] ^= 1 << rng.randrange(8)
        elif k < .8:
            b[i] = rng.choice((0, 255, 1, 0x7f, 0x80))
        else:
            j = rng.randrange(lo, hi)
            m = min(rng.choice((1, 2, 4, 8, 64)), len(b) - i, len(b) - j)
            b[i:i + m] = b[j:j + m]
    return bytes(b)


def fields(rng, data, lo=0, hi=None, n=None, size=None):
    """Overwrite aligned integers."""
    b = bytearray(data)
    hi = len(b) if hi is None else min(hi, len(b))
    for _ in range(n or rng.choice((1, 1, 2, 4))):
        w = size or rng.choice((2, 4))
        if hi - lo < w:
            continue
        i = lo + rng.randrange((hi - lo - w) // 2 + 1) * 2
        if w == 2:
            v = rng.choice(U16 + (rng.getrandbits(16), rng.randrange(64)))
            b[i:i + 2] = struct.pack('<H', v)
        else:
            v = rng.choice(I32 + (rng.randint(-2 ** 31, 2 ** 31 - 1),
                                  rng.randrange(64), -rng.randrange(64)))
            b[i:i + 4] = struct.pack('<i', v)
    return bytes(b)


def truncate(rng, data):
    return data[:rng.randrange(len(data) + 1)]


def cutout(rng, data):
    i = rng.randrange(len(data))
    n = rng.choice((1, 2, 4, 16, 128, 512, 4096))
    return data[:i] + data[i + n:]


# -- BIFF record streams

def records(stream):
    out, pos = [], 0
    while pos + 4 <= len(stream):
        code, n = struct.unpack('<HH', stream[pos:pos + 4])
        out.append((code, stream[pos + 4:pos + 4 + n]))
        pos += 4 + n
    return out


def join(recs):
    return b''.join(struct.pack('<HH', c, len(d)) + d for c, d in recs
                    if len(d) < 65536)


CODES = (0x3c, 0xfc, 0xfd, 0x06, 0x207, 0x203, 0x809, 0x0a, 0x85, 0x18, 0x17,
         0x1ae, 0xe5, 0xbd, 0xbe, 0xe0, 0x31, 0x41e, 0x5d, 0x1c, 0x1b6, 0xec,
         0x7d, 0x208, 0x92, 0x93, 0x23e, 0x1b8, 0x800, 0x22, 0x42, 0x13d,
         0x2f, 0x4bc, 0x221, 0x236, 0x1e, 0x1b, 0x1a, 0x99, 0x293, 0x43, 0x9,
         0x209, 0x409, 0x45, 0x231, 0x1d, 0xa0, 0xab, 0xef, 0x8f, 0x8e)


def record_damage(rng, stream):
    recs = records(stream)
    if not recs:
        return flips(rng, stream)
    keep = rng.random() < .6   # positions of the sheets stay right
    for _ in range(rng.choice((1, 1, 2, 4))):
        i = rng.randrange(len(recs))
        if rng.random() < .5:
            # prefer kinds of records to numbers of them
            kinds = sorted({c for c, d in recs})
            k = rng.choice(kinds)
            i = rng.choice([j for j, r in enumerate(recs) if r[0] == k])
        code, d = recs[i]
        k = rng.random()
        if k < .5:
            recs[i] = code, fields(rng, d)
        elif k < .6:
            recs[i] = code, flips(rng, d)
        elif k < .7:
            recs[i] = rng.choice(CODES), d
        elif keep:
            # same total size
            n = rng.randrange(len(d) + 1)
            if len(d) - n >= 4:
                recs[i:i + 1] = [(code, d[:n]),
                                 (rng.choice(CODES), d[n + 4:])]
            else:
                recs[i] = code, fields(rng, d)
        elif k < .75:
            del recs[i]
            if not recs:
                break
        elif k < .8:
            recs.insert(rng.randrange(len(recs) + 1), recs[i])
        elif k < .85:
            recs[i] = code, d[:rng.randrange(len(d) + 1)]
        elif k < .9:
            recs[i] = code, d + bytes(rng.getrandbits(8) for _ in range(
                rng.choice((1, 2, 8, 100))))
        elif k < .95:
            recs.insert(i, (rng.choice(CODES), bytes(
                rng.getrandbits(8) for _ in range(rng.choice((
                    0, 1, 2, 4, 8, 12, 40))))))
        else:
            j = rng.randrange(len(recs))
            recs[i], recs[j] = recs[j], recs[i]
    return join(recs)


# -- compound files

def ole_damage(rng, data):
    """Header, allocation tables and directory."""
    if len(data) < 1536:
        return flips(rng, data)
    k = rng.random()
    if k < .3:
        return fields(rng, data, 24, 76)
    if k < .4:
        return fields(rng, data, 76, 140, size=4)
    try:
        ssz = struct.unpack('<H', data[30:32])[0]
        ss = 1 << min(ssz, 12)
        base = max(512, ss)
        nsat, dirsid = struct.unpack('<ii', data[44:52])
        ssat, nssat = struct.unpack('<ii', data[60:68])
        sats = struct.unpack('<109i', data[76:512])[:max(0, min(nsat, 109))]
    except struct.error:
        return flips(rng, data)
    if k < .65 and sats:
        s = base + rng.choice(sats) * ss
        return table_damage(rng, data, s, ss)
    if k < .8 and ssat >= 0:
        return table_damage(rng, data, base + ssat * ss, ss)
    d = base + dirsid * ss
    n = 128 * rng.randrange(max(1, ss // 128))
    if k < .9:
        # links of a directory entry
        return fields(rng, data, d + n + 68, d + n + 80, size=4)
    return fields(rng, data, d + n + 64, d + n + 128)


def table_damage(rng, data, pos, ss):
    """Entries pointing at each other, and out of the table."""
    b = bytearray(data)
    live = []
    for i in range(0, ss, 4):
        v = struct.unpack('<i', bytes(b[pos + i:pos + i + 4]) or b'\0\0\0\0')
        if v[0] != -1:
            live.append(i)
    live = live or [0]
    for _ in range(rng.choice((1, 1, 2, 6))):
        i = rng.choice(live)
        v = rng.choice((rng.choice(live) // 4, i // 4, 0, -1, -2, -3, -4,
                        -5, 10 ** 6, 0x7fffffff, len(live)))
        b[pos + i:pos + i + 4] = struct.pack('<i', v)
    return bytes(b)


# -- zip and xml

def zip_damage(rng, data):
    """Parts missing, doubled, swapped, emptied or with damaged XML."""
    zi = zipfile.ZipFile(io.BytesIO(data))
    parts = [(n, zi.read(n)) for n in zi.namelist()]
    for _ in range(rng.choice((1, 1, 2, 4))):
        i = rng.randrange(len(parts))
        n, d = parts[i]
        k = rng.random()
        if k < .65:
            parts[i] = n, xml_damage(rng, d)
        elif k < .72:
            parts[i] = n, truncate(rng, d)
        elif k < .8:
            parts[i] = n, flips(rng, d)
        elif k < .86:
            del parts[i]
            if not parts:
                break
        elif k < .91:
            parts[i] = n, b''
        elif k < .96:
            j = rng.randrange(len(parts))
            parts[i], parts[j] = (n, parts[j][1]), (parts[j][0], d)
        else:
            parts[i] = n.upper(), d
    out = io.BytesIO()
    with zipfile.ZipFile(out, 'w', rng.choice((
            zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED))) as z:
        for n, d in parts:
            z.writestr(n, d)
    return out.getvalue()


VALUES = (b'', b'0', b'-1', b'1', b'2', b'99', b'1000', b'x', b'A', b'A0',
          b'0A', b'ZZ9', b'A1:', b':', b'B2:A1', b's', b'str', b'inlineStr',
          b'e', b'b', b'n', b'd', b'1e999', b'nan', b'rId1', b'rId99',
          b'_x0000_', b'true', b'/', b'../', b'A1:C3', b'#REF!', b' 1 ')


def xml_damage(rng, d):
    k = rng.random()
    if k < .35:
        ms = list(re.finditer(rb'="([^"]*)"', d))
        if ms:
            m = rng.choice(ms)
            return d[:m.start(1)] + rng.choice(VALUES) + d[m.end(1):]
    if k < .5:
        ms = list(re.finditer(rb'>([^<]*)<', d))
        if ms:
            m = rng.choice(ms)
            return d[:m.start(1)] + rng.choice(VALUES) + d[m.end(1):]
    tags = list(re.finditer(rb'<(/?)([\w:]+)([^>]*)>', d))
    if not tags:
        return flips(rng, d)
    m = rng.choice(tags)
    if k < .6:
        # an attribute lost
        at = list(re.finditer(rb'\s[\w:]+="[^"]*"', m.group(0)))
        if at:
            a = rng.choice(at)
            s = m.start()
            return d[:s + a.start()] + d[s + a.end():]
    if k < .75:
        # an element lost, with its content if it can be found
        close = d.find(b'</' + m.group(2) + b'>', m.end())
        if not m.group(1) and close > 0 and not m.group(0).endswith(b'/>'):
            return d[:m.start()] + d[close + len(m.group(2)) + 3:]
        if m.group(0).endswith(b'/>'):
            return d[:m.start()] + d[m.end():]
    if k < .85:
        # an element twice
        close = d.find(b'</' + m.group(2) + b'>', m.end())
        if not m.group(1) and close > 0 and not m.group(0).endswith(b'/>'):
            e = close + len(m.group(2)) + 3
            return d[:e] + d[m.start():e] + d[e:]
    if k < .93:
        # another name
        return d.replace(m.group(2), rng.choice((
            b'c', b'v', b'row', b'si', b't', b'is', b'sheet', b'x')), 2)
    # not well formed any more
    return d[:m.start()] + d[m.end():]


# -- loops

class OleTables(object):
    """Where the links of a compound file are."""

    def __init__(self, data):
        self.data = bytearray(data)
        self.ss = 1 << struct.unpack('<H', data[30:32])[0]
        self.base = max(512, self.ss)
        (self.nsat, self.dirsid) = struct.unpack('<ii', data[44:52])
        self.cutoff, self.ssat, self.nssat, self.msat, self.nmsat = \
            struct.unpack('<iiiii', data[56:76])
        self.satpos = []
        sats = [s for s in struct.unpack('<109i', data[76:512]) if s >= 0]
        s = self.msat
        self.msatsids = []
        while s >= 0:
            self.msatsids.append(s)
            p = self.base + s * self.ss
            ent = struct.unpack('<%di' % (self.ss // 4), data[p:p + self.ss])
            sats += [e for e in ent[:-1] if e >= 0]
            s = ent[-1]
        for s in sats:
            p = self.base + s * self.ss
            self.satpos += list(range(p, p + self.ss, 4))
        self.ssatpos = []
        for s in self.chain(self.satpos, self.ssat):
            p = self.base + s * self.ss
            self.ssatpos += list(range(p, p + self.ss, 4))
        self.dirs = []
        for s in self.chain(self.satpos, self.dirsid):
            p = self.base + s * self.ss
            self.dirs += list(range(p, p + self.ss, 128))

    def get(self, pos):
        return struct.unpack('<i', bytes(self.data[pos:pos + 4]))[0]

    def put(self, pos, v):
        self.data[pos:pos + 4] = struct.pack('<i', v)

    def chain(self, table, sid):
        out = []
        while sid >= 0:
            out.append(sid)
            sid = self.get(table[sid])
        return out

    def streams(self):
        """Kind and (table, chain) for all of the chains."""
        yield 'directory', self.satpos, self.chain(self.satpos, self.dirsid)
        if self.ssat >= 0:
            yield 'short table', self.satpos, self.chain(self.satpos,
                                                         self.ssat)
        for i, p in enumerate(self.dirs):
            typ = self.data[p + 66]
            sid, size = self.get(p + 116), self.get(p + 120)
            if typ not in (2, 5) or size == 0 or sid < 0:
                continue
            if typ == 5:
                yield 'short sectors', self.satpos, self.chain(self.satpos,
                                                               sid)
            elif size < self.cutoff:
                yield 'short stream', self.ssatpos, self.chain(self.ssatpos,
                                                               sid)
            else:
                yield 'stream', self.satpos, self.chain(self.satpos, sid)


def ole_loop(rng, data):
    """Make links go in a loop, return data and what was done."""
    t = OleTables(data)
    k = rng.random()
    if k < .6:
        todo = list(t.streams())
        kinds = sorted({x[0] for x in todo})
        kind = rng.choice(kinds)
        kind, table, chain = rng.choice([x for x in todo if x[0] == kind])
        i = rng.randrange(len(chain))
        j = rng.randint(0, i)
        t.put(table[chain[i]], chain[j])
        return bytes(t.data), 'loop in ' + kind
    if k < .65 and t.msatsids:
        p = t.base + rng.choice(t.msatsids) * t.ss + t.ss - 4
        t.put(p, rng.choice(t.msatsids))
        return bytes(t.data), 'loop in table extension'
    live = [i for i, p in enumerate(t.dirs) if t.data[p + 66]]
    for _ in range(rng.choice((1, 1, 2, 4))):
        i = rng.choice(live)
        t.put(t.dirs[i] + rng.choice((68, 72, 76)), rng.choice(live))
        if rng.random() < .3:
            t.data[t.dirs[i] + 66] = 1
    return bytes(t.data), 'loop in directory'


def sst_loop(rng, stream):
    """A string table which goes backwards, for ever."""
    recs = records(stream)
    head = struct.pack('<ii', 5, rng.choice((5, 1000, 0x7fffffff)))
    s = b'abc'
    flag = 4
    first = struct.pack('<HBi', len(s), flag, -(7 + len(s))) + s
    lead = struct.pack('<HB', 2, 0) + b'xy'
    new = (0xfc, head + lead * rng.randint(0, 2) + first + lead)
    at = [i for i, r in enumerate(recs) if r[0] == 0xfc]
    if at:
        recs[at[0]] = new
    else:
        eof = [i for i, r in enumerate(recs) if r[0] == 0x0a]
        recs.insert(eof[0] if eof else len(recs), new)
    return join(recs)


def xml_depth(rng, data):
    """Elements in elements, or entities of entities."""
    zi = zipfile.ZipFile(io.BytesIO(data))
    parts = [[n, zi.read(n)] for n in zi.namelist()]
    xmls = [p for p in parts if b'<' in p[1]]
    part = rng.choice(xmls)
    d = part[1]
    if rng.random() < .5:
        n = rng.choice((500, 2000, 20000, 60000))
        tag = rng.choice((b'c', b'row', b'si', b'x', b'r', b't'))
        tags = list(re.finditer(rb'<(?![?!])[^>]*[^/]>', d))
        if not tags:
            return data, 'nothing'
        m = rng.choice(tags)
        if m.group(0).startswith(b'</'):
            at = m.start()
        else:
            at = m.end()
        part[1] = d[:at] + b'<%s>' % tag * n + b'</%s>' % tag * n + d[at:]
        what = 'deep xml'
    else:
        ents = b'<!ENTITY a0 "aaaaaaaaaa">'
        for i in range(1, 12):
            ents += b'<!ENTITY a%d "%s">' % (i, b'&a%d;' % (i - 1) * 10)
        root = re.search(rb'<([A-Za-z][\w:]*)', d)
        d = d[:root.start()] + b'<!DOCTYPE %s [%s]>' % (
            root.group(1), ents) + d[root.start():]
        ms = list(re.finditer(rb'>([^<]*)</', d)) or list(
            re.finditer(rb'="([^"]*)"', d))
        if not ms:
            return data, 'nothing'
        m = rng.choice(ms)
        part[1] = d[:m.start(1)] + b'&a11;' + d[m.end(1):]
        what = 'growing entities'
    out = io.BytesIO()
    with zipfile.ZipFile(out, 'w', zipfile.ZIP_DEFLATED) as z:
        for n, d in parts:
            z.writestr(n, d)
    return out.getvalue(), what
