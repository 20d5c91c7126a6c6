"""A truncated or malformed DBF file raises."""
import datetime
import io

import channelpack as cp
from rv import dbfgen, gen, textgen as tg
from rv.core import Phase, Violation
from rv.props import c19

PROP = 'C21'
LEVEL = 'fault_enumeration'
FILES = ['dbf.py']
RULE = ('Small DBF files are cut at every byte in turn, larger ones at '
        'random bytes, and read in full and with selected names; values '
        'that can not be converted are put in fields of live records. '
        'Each read must raise (with names, it may also return the complete '
        'right channels when only bytes of unselected fields are missing). '
        'Non-trivial: distinct (fields, cut position) or (field type, bad '
        'value, record).')
ASSUME = c19.ASSUME


def outcome(cx, data, names):
    rng = cx.rng
    src = io.BytesIO(data) if rng.random() < .8 else \
        tg.write(cx, data, 'f.dbf')
    try:
        return cp.dbfpack(src, names) if names else cp.dbfpack(src), None
    except Exception as e:
        return None, e


def cut(cx):
    rng = cx.rng
    small = rng.random() < .8
    d = dbfgen.Dbf(cx, nfields=rng.choice((1, 2, 3)) if small else None,
                   nrecs=rng.choice((1, 2, 3, 4)) if small else 30,
                   types='NDLFC')
    if small:
        d.fields = [f for f in d.fields]
    data = d.header() + d.records()
    end = len(data)
    at = range(end) if end < 400 else sorted(rng.sample(range(end), 120) +
                                             [end - 1, len(d.header())])
    sel = sorted(rng.sample(range(len(d.fields)),
                            rng.randint(1, len(d.fields))))
    names = [d.fields[i][0] for i in sel]
    # first byte position after which all selected values are in the file
    off = 1 + sum(f[2] for f in d.fields[:sel[-1] + 1])
    lr = 1 + sum(f[2] for f in d.fields)
    need = len(d.header()) + lr * (d.nrecs - 1) + off
    for n in at:
        p, e = outcome(cx, data[:n], None)
        cx.check(e is not None, 'file cut at byte', n, 'of', end,
                 'gave', p and dict(p.data))
        p, e = outcome(cx, data[:n], names)
        if n < need:
            cx.check(e is not None, 'file cut at byte', n, 'of', end,
                     'read with names', names, 'gave', p and dict(p.data))
        elif e is None:
            c19.compare(cx, p, d, sel)
        cx.count('cuts', 2)
        cx.sig('cut', d.fields, n - len(d.header()), bool(names))
    # whole, with anything after
    for tail in (b'', b'\x1a', b' more', data):
        p, e = outcome(cx, data + tail, None)
        if e is not None:
            raise e
        c19.compare(cx, p, d)
        p, e = outcome(cx, data + tail, names)
        if e is not None:
            raise e
        c19.compare(cx, p, d, sel)


BADS = {'N': ('x', '-', '.', '1x', '5-', '*', '1.2.3', '**********', 'abc',
              '- 5', '+-1'),
        'F': ('x', '-', '.', '1x', '**********', 'abc', '1..2', '- 5'),
        'D': ('20191301', '20190230', 'abcdefgh', '2019', '20190100',
              '        1'[-8:], '2019-1-1', '00001231', '99999999',
              '00000000', '00000101', '20000000', '20210229', '19000229',
              '20200431', '20200132', '0000 0 0', '--------'),
        'C': ('\xe5', '\xff\xfe', 'a\x80')}


def bad_value(rng, typ, size, deci):
    """A text that is not a value of the type."""
    if typ == 'C' or rng.random() < .4:
        return rng.choice(BADS[typ])
    while True:
        if typ == 'D':
            b = '%04d%02d%02d' % (rng.choice((0, 1900, 2019, 2020, 2100)),
                                  rng.randint(0, 14), rng.randint(0, 33))
            if rng.random() < .3:
                i = rng.randrange(8)
                b = b[:i] + rng.choice('x-/. ') + b[i + 1:]
            try:
                datetime.date(int(b[:4]), int(b[4:6]), int(b[6:8]))
            except ValueError:
                return b
            continue
        b = ''.join(rng.choice('0123456789.,+-*eEx:/ %')
                    for _ in range(rng.randint(1, size)))
        if rng.random() < .5:
            b = str(rng.randint(-999, 999)) + rng.choice((
                '', '.0', '.25', 'x', ',5', '%', ' 1', '-', 'e', '..'))
            b = b[:size]
        if not b.strip() or b.startswith(' '):
            continue
        try:
            if typ == 'N' and not deci:
                int(b)
            else:
                float(b)
        except ValueError:
            return b


def bad(cx):
    """A value that is not of its type, in a live record."""
    rng = cx.rng
    d = dbfgen.Dbf(cx, nrecs=rng.choice((1, 2, 4, 12)))
    live = [i for i, r in enumerate(d.rows) if not r[0]]
    cols = [i for i, f in enumerate(d.fields) if f[1] in BADS]
    if not live or not cols:
        return
    r, c = rng.choice(live), rng.choice(cols)
    nm, typ, size, deci = d.fields[c]
    b = bad_value(rng, typ, size, deci)
    if typ == 'N' and not deci and rng.random() < .3:
        b = rng.choice(('1.5', '1e5', '.0', '3.'))
    if len(b) > size:
        b = b[:size]
        if typ != 'C':
            b = 'x'
        if typ == 'C' and b.isascii():
            b = '\xe5'
    if not b.strip():
        return
    raw = b.rjust(size) if typ != 'D' else b.ljust(size)
    raw = raw.encode('latin-1')
    if typ == 'D' and raw.strip() != b.encode('latin-1'):
        return
    off = sum(f[2] for f in d.fields[:c])
    dd, old, vals = d.rows[r]
    d.rows[r] = (dd, old[:off] + raw + old[off + size:], vals)
    cx.note('bad value', raw, 'field', d.fields[c], 'record', r)
    data = d.file()
    sel = set(rng.sample(range(len(d.fields)), rng.randint(
        1, len(d.fields)))) | {c}
    for names in (None, [d.fields[i][0] for i in sel]):
        p, e = outcome(cx, data, names)
        cx.check(e is not None, 'value', raw, 'of field', d.fields[c],
                 'names', names, 'gave', p and p.data.get(c))
        cx.count('bad values')
    cx.sig('bad', typ, size, deci, b, r, len(d.fields))
    # the same in a deleted record is of no concern
    d.rows[r] = (True,) + d.rows[r][1:]
    for names in (None, [d.fields[i][0] for i in sel]):
        p, e = outcome(cx, d.file(), names)
        cx.check(e is None, 'bad value in a deleted record raised', repr(e))
        c19.compare(cx, p, d, sorted(sel) if names else None)


PHASES = [Phase('cut', cut, 3600, 8000), Phase('bad', bad, 36000, 72000)]
