"""DBF records are read to exactly the stored values."""
import io

import numpy as np

import channelpack as cp
from rv import dbfgen, gen, textgen as tg
from rv.core import Phase

PROP = 'C19'
LEVEL = 'exploration'
FILES = ['dbf.py']
RULE = ('DBF files are written byte by byte from generated fields and '
        'records (all types, sizes, decimals, blank values, deletion '
        'marks, header padding, trailing bytes) and read by dbfpack from a '
        'path or stream; every channel is compared element by element '
        'with the values written. Non-trivial: distinct (fields, deletion '
        'pattern, padding).')
ASSUME = ['field values are ascii', 'character values do not end with NUL',
          'header padding after the field descriptors is less than 32 bytes']


def compare(cx, p, d, sel=None):
    want = d.columns()
    if sel is None:
        sel = range(len(d.fields))
    names = {i: d.fields[i][0] for i in sel}
    cx.check(dict(p.names) == names, 'names', dict(p.names), 'expected',
             names)
    if not d.live():
        cx.check(not p.data or all(len(p.data[k]) == 0 for k in p.data),
                 'data of a file with no live records', p.data)
        cx.count('files with no live record')
        return
    cx.check(list(p.data) == list(sel), 'channels', list(p.data),
             'expected', list(sel))
    for i in sel:
        diff = gen.same_array(p.data[i], np.array(want[i]))
        cx.check(diff is None, 'field', d.fields[i], diff, 'got',
                 p.data[i][:8], 'expected', want[i][:8])
        cx.count('values compared', len(want[i]))
    cx.check(len(p.mask) == len(d.live()) and p.mask.all(), 'mask')


def read(cx):
    d = dbfgen.Dbf(cx)
    data = d.file()
    if cx.rng.random() < .3:
        src = tg.write(cx, data, 'f.dbf')
    else:
        src = io.BytesIO(data)
    p = cp.dbfpack(src)
    compare(cx, p, d)
    cx.sig(d.fields, [r[0] for r in d.rows], d.pad)


def big(cx):
    rng = cx.rng
    d = dbfgen.Dbf(cx, *rng.choice(((1, 3000), (3, 1500), (100, 20),
                                    (255, 3), (12, 300))))
    p = cp.dbfpack(io.BytesIO(d.file()))
    compare(cx, p, d)
    cx.sig('big', d.fields)


def huge(cx):
    """More records, fields or bytes than 16 bits can count."""
    rng = cx.rng
    shape = ((1, 65535), (1, 65536), (2, 66000), (1024, 2), (2040, 1),
             (1, 70000), (1300, 40), (3, 33000))[cx.index % 8]
    d = dbfgen.Dbf(cx, *shape, small=True)
    p = cp.dbfpack(io.BytesIO(d.file()))
    compare(cx, p, d)
    sel = sorted(rng.sample(range(len(d.fields)), min(len(d.fields), 3)))
    if shape[0] > 3:
        sel[-1] = len(d.fields) - 1
    p = cp.dbfpack(io.BytesIO(d.file()), [d.fields[i][0] for i in sel])
    compare(cx, p, d, sorted(set(sel)))
    cx.sig('huge', shape)


PHASES = [Phase('read', read, 72000, 150000), Phase('big', big, 240, 480),
          Phase('huge', huge, 16, 64)]
