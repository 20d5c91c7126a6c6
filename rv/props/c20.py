"""Selecting DBF fields is a projection of the full read."""
import io

import channelpack as cp
from rv import dbfgen, gen, textgen as tg
from rv.core import Phase
from rv.props import c19

PROP = 'C20'
LEVEL = 'exploration'
FILES = ['dbf.py']
RULE = ('Generated DBF files are read with lists of field names (any '
        'subset and order, with repetitions) from a path, binary file or '
        'byte stream, also positioned after other bytes; channels, names '
        'and file name are compared with those written and with the full '
        'read. Non-trivial: distinct (fields, selection, deletions, '
        'source).')
ASSUME = c19.ASSUME


def select(cx):
    rng = cx.rng
    d = dbfgen.Dbf(cx, nrecs=rng.choice((0, 1, 2, 3, 6, 20, 60)),
                   dups=rng.choice((0, 0, 0, .3)))
    data = d.file()
    pre = rng.choice((b'', b'', b'junk', bytes(100)))

    def source(kind):
        if kind == 'path':
            p = tg.write(cx, data, 'f.dbf')
            return p, p
        if kind == 'file':
            f = io.open(tg.write(cx, pre + data, 'g.dbf'), 'rb')
            f.seek(len(pre))
            return f, f.name
        f = io.BytesIO(pre + data)
        f.seek(len(pre))
        return f, ''
    kinds = ('path', 'file', 'bytes', 'bytes')
    src, fn = source(rng.choice(kinds))
    full = cp.dbfpack(src)
    if hasattr(src, 'close'):
        cx.check(not src.closed, 'stream closed')
        src.close()
    c19.compare(cx, full, d)
    cx.check(full.fn == fn, 'file name', full.fn, fn)
    n = len(d.fields)
    for _ in range(3):
        k = rng.randint(1, n)
        sel = rng.sample(range(n), k)
        names = [d.fields[i][0] for i in sel]
        # fields of the same name are all selected
        sel = [i for i in range(n) if d.fields[i][0] in names]
        if rng.random() < .3:
            names += [rng.choice(names)]
        if rng.random() < .3:
            names = rng.choice((tuple, set, list))(names)
        kind = rng.choice(kinds)
        src, fn = source(kind)
        cx.note('names', names, 'source', kind)
        p = cp.dbfpack(src, names)
        if hasattr(src, 'close'):
            cx.check(not src.closed, 'stream closed')
            src.close()
        c19.compare(cx, p, d, sorted(sel))
        cx.check(p.fn == fn, 'file name', p.fn, fn)
        for i in p.data:
            diff = gen.same_array(p.data[i], full.data[i])
            cx.check(diff is None, 'channel', i, 'in the full read', diff)
        cx.count('projections')
        cx.sig(d.fields, sorted(sel), [r[0] for r in d.rows], kind, d.pad)


PHASES = [Phase('select', select, 48000, 100000)]
