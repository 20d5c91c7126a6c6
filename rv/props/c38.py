"""The record listings of xls files account for every byte."""
import io
import os
import re

from channelpack import xlrd
from rv import olegen, xlsgen
from rv.core import Phase
from rv.props import c23

PROP = 'C38'
LEVEL = 'exploration'
FILES = ['xlrd/__init__.py', 'xlrd/biffh.py', 'xlrd/book.py']
RULE = ('xls files of BIFF 2 to 8, bare and in compound files, with runs of '
        'zeros between and after the records and odd bytes at the end, are '
        'listed by xlrd.dump, numbered and not; the stream is put together '
        'again from the listing (offsets, codes, lengths, hexadecimal '
        'bytes, zeros skipped) and compared with the one written, and '
        'xlrd.count_records with the number of records of each name. '
        'Non-trivial: distinct (version, stream).')
ASSUME = ['the layout of the listing is the documented one of the package: '
          'a line for the record, lines of 16 bytes']

REC = re.compile(r'(?: *(\d+): )?([0-9a-f]{4}) (\S+) len = ([0-9a-f]{4}) '
                 r'\((\d+)\)\Z')
HEX = re.compile(r'(?: *(\d+): )? {5}((?:(?:[0-9a-f]{2}|  ) ){16}) (.*)\Z',
                 re.S)
ZERO = re.compile(r'(?: *(\d+): )?---- (\d+) zero bytes skipped ----\Z')
MISC = re.compile(r'(?: *(\d+): )?---- Misc bytes at end ----\Z')
LONG = re.compile(r'Last dumped record')


def split(s):
    """The records of s, the odd bytes at the end are the last one."""
    out, pos = [], 0
    while len(s) - pos >= 4:
        code = int.from_bytes(s[pos:pos + 2], 'little')
        n = int.from_bytes(s[pos + 2:pos + 4], 'little')
        out.append((pos, code, s[pos + 4:pos + 4 + n]))
        pos += 4 + n
    return out


def printed(b):
    return ''.join('~' if c == 0 else chr(c) if 32 <= c <= 126 else '?'
                   for c in b)


def parse(cx, text, numbered):
    """The bytes listed, and (code, name) of the records."""
    out, names = bytearray(), []
    left = None
    for line in text.split('\n'):
        if not line:
            continue
        m = REC.match(line)
        if m:
            cx.check(not left, 'record at', line, 'after', left,
                     'bytes missing')
            at(cx, m, numbered, out, line)
            code, n = int(m.group(2), 16), int(m.group(4), 16)
            cx.check(n == int(m.group(5)), 'lengths in', line)
            names.append((code, m.group(3)))
            out += code.to_bytes(2, 'little') + n.to_bytes(2, 'little')
            left = n
            continue
        m = ZERO.match(line)
        if m:
            at(cx, m, numbered, out, line)
            out += b'\0' * int(m.group(2))
            continue
        m = MISC.match(line)
        if m:
            at(cx, m, numbered, out, line)
            left = None
            continue
        if LONG.match(line):
            left = None
            continue
        m = HEX.match(line)
        cx.check(m, 'line', line, 'of the listing')
        at(cx, m, numbered, out, line)
        b = bytes.fromhex(m.group(2))
        cx.check(m.group(3) == printed(b), 'characters of', line, 'expected',
                 printed(b))
        if left is not None:
            left -= len(b)
            cx.check(left >= 0, 'too many bytes at', line)
        out += b
    cx.check(not left, 'last record is', left, 'bytes short')
    return bytes(out), names


def at(cx, m, numbered, out, line):
    cx.check((m.group(1) is not None) == numbered, 'offset in', line)
    if numbered:
        cx.check(int(m.group(1)) == len(out), 'offset in', line, 'expected',
                 len(out))


def listing(cx):
    rng = cx.rng
    bv = rng.choice((80, 80, 70, 50, 45, 40, 30, 20))
    wb = c23.model(rng, bv, far=0)
    data, w = xlsgen.write(wb, rng, bv, xlsgen.options(rng, gaps=False),
                           ole=False)
    s = w.raw
    if rng.random() < .3:
        for _ in range(rng.randint(1, 3)):
            op = rng.choice((0x1234, 0x7fff, 0x0fff, 0x0042,
                             rng.randint(0x3000, 0xfff0)))
            s += xlsgen.rec(op, bytes(rng.randrange(256) for _ in
                                      range(rng.randint(0, 60))))
    if rng.random() < .3:
        # zeros between records
        rs = split(s)
        k = rng.randint(1, len(rs) - 1)
        s = s[:rs[k][0]] + b'\0' * 4 * rng.choice((
            1, 2, 5, 16, 30, 300, rng.randint(1, 600))) + s[rs[k][0]:]
    trail = rng.choice(('', '', 'zeros', 'odd', 'long'))
    ole = bv >= 50 and rng.random() < .6
    if trail == 'zeros':
        s += b'\0' * rng.randint(1, 40)
    elif trail == 'odd':
        s += bytes(rng.randrange(1, 256) for _ in range(rng.randint(1, 3)))
    elif trail == 'long' and not ole:
        s += (0x7ff0).to_bytes(2, 'little') + b'\x40\0' + b'abc' * \
            rng.randint(1, 20)
    else:
        trail = ''
    data = s
    if ole:
        if len(s) < 4096 and trail != 'odd' and rng.random() < .5:
            s += b'\0' * (4096 - len(s))
            trail = 'zeros'
        data = olegen.Ole([olegen.Entry(
            'Workbook' if bv >= 80 else 'Book', s)], rng,
            order=rng.choice(('plain', 'shuffle'))).make()
    path = os.path.join(cx.tmp, 'l.xls')
    with open(path, 'wb') as f:
        f.write(data)
    cx.note('biff', bv, 'ole', ole, 'trail', trail, 'stream of', len(s))
    for numbered in (True, False):
        out = io.StringIO()
        kw = {} if numbered else dict(unnumbered=True)
        xlrd.dump(path, out, **kw)
        got, names = parse(cx, out.getvalue(), numbered)
        cx.check(got == s, 'the stream listed differs at', first(got, s),
                 'of', len(s), 'length', len(got), got[len(s):][:40])
    rs = split(s)
    exp = [r[1] for r in rs if r[1] or len(r[2])]
    cx.check([c for c, n in names] == exp, 'records listed', len(names),
             'of', len(exp))
    byname, bycode = {}, {}
    for c, n in names:
        bycode.setdefault(c, set()).add(n)
        k = 'Unknown_0x%04X' % c if n == '<UNKNOWN>' else n
        byname[k] = byname.get(k, 0) + 1
    cx.check(all(len(v) == 1 for v in bycode.values()), 'names of records',
             bycode)
    for c, n in KNOWN.items():
        if c in bycode:
            cx.check(bycode[c] == {n}, 'name of record', c, bycode[c])
    out = io.StringIO()
    xlrd.count_records(path, out)
    lines = [x.split(None, 1) for x in out.getvalue().split('\n') if x]
    got = {x[1]: int(x[0]) for x in lines}
    cx.check(len(got) == len(lines) and [x[1] for x in lines] ==
             sorted(got), 'order of', lines)
    dummies = got.pop('<Dummy (zero)>', 0)
    nz = sum(1 for r in rs if not r[1] and not r[2])
    cx.check(dummies <= nz and (dummies or trail == 'zeros' or not nz),
             'zero records counted', dummies, 'of', nz)
    cx.check(got == byname, 'records counted', got, 'expected', byname)
    cx.count('records listed', len(names))
    cx.count('bytes listed', 2 * len(s))
    cx.sig(bv, ole, trail, s)


def first(a, b):
    return next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
                min(len(a), len(b)))


KNOWN = {0x000A: 'EOF', 0x0042: 'CODEPAGE', 0x0085: 'BOUNDSHEET',
         0x00FC: 'SST', 0x00FD: 'LABELSST', 0x0006: 'FORMULA',
         0x0203: 'NUMBER', 0x027E: 'RK', 0x0809: 'BOF', 0x00E0: 'XF',
         0x003C: 'CONTINUE', 0x0022: 'DATEMODE'}

PHASES = [Phase('listing', listing, 9000, 150000)]
