"""A workbook in any valid compound file layout is read the same."""
import io
import os
import random

from channelpack import xlrd
from rv import olegen
from rv import wbmodel as M
from rv import xlsgen
from rv.core import Phase

PROP = 'C27'
LEVEL = 'exploration'
FILES = ['xlrd/compdoc.py', 'xlrd/book.py']
RULE = ('The record stream of a random workbook is put in compound files '
        'by an independent writer in random layouts: sector order, sector '
        'and short sector sizes, short stream cutoff, extension sectors of '
        'the allocation table, other streams and storages, directory tree '
        'shapes and unused entries, trailing bytes. Each is opened mapped, '
        'read and as bytes, and every cell compared with the model. '
        'Non-trivial: distinct (layout options, fragments, sectors, short '
        'or not).')
ASSUME = ['sector sizes 512 and 4096 as the format has it; short sectors '
          'of 64 bytes and other powers of two below the sector size']

OTHER = ['\x05SummaryInformation', '\x05DocumentSummaryInformation', 'CompObj',
         '\x01Ole', 'Ctls', 'R\xe4v', '\u4e2d', 'Workbooks', 'Boo', 'a', 'zz',
         'VBA', 'dir', 'PROJECT']


def workbook(rng, small=False):
    wb = M.WbModel()
    wb.datemode = rng.choice((0, 0, 1))
    wb.xfs = [(0, 0), (14, 1)]
    bv = rng.choice((80, 80, 80, 50, 70))
    for i in range(1 if small else rng.choice((1, 2, 3))):
        sh = M.SheetModel('S%d' % i)
        if small:
            sh.cells[0, 0] = M.Cell('number', M.number(rng), 0)
            sh.cells[1, 1] = M.Cell('text', M.text(rng, 10), 0)
        else:
            M.random_cells(rng, sh, wb, rng.choice((10, 40, 120)),
                           rng.choice((4, 12)))
        wb.sheets.append(sh)
    opt = xlsgen.options(rng)
    data, w = xlsgen.write(wb, rng, bv, opt, ole=False)
    return wb, data, bv


def blob(rng, n):
    """Bytes, often looking like records or a workbook."""
    k = rng.random()
    if k < .3:
        return bytes(rng.getrandbits(8) for _ in range(n))
    if k < .5:
        return (b'\x09\x08\x10\x00\x00\x06\x05\x00' * (n // 8 + 1))[:n]
    if k < .7:
        return b'\xff' * n
    return b'\0' * n


def names(rng, n, deep=True):
    """Distinct names."""
    got = []
    pool = list(OTHER)
    rng.shuffle(pool)
    while len(got) < n:
        nm = pool.pop() if pool and rng.random() < .7 else \
            's%d' % rng.randrange(10 ** 6)
        if nm.lower() not in [g.lower() for g in got]:
            got.append(nm)
    return got


def others(rng, n, sizes, depth=0):
    out = []
    for nm in names(rng, n):
        if depth < 3 and rng.random() < .25:
            k = rng.choice((0, 1, 2, 4))
            ch = others(rng, k, sizes, depth + 1)
            if rng.random() < .3:
                # a stream of the same name in a storage is another one
                ch.append(olegen.Entry(
                    rng.choice(('Workbook', 'Book')),
                    blob(rng, rng.choice(sizes))))
            out.append(olegen.Entry(nm, None, ch))
        else:
            out.append(olegen.Entry(nm, blob(rng, rng.choice(sizes))))
    return out


def layout(rng):
    o = dict(ssz=rng.choice((9, 9, 9, 12)), sssz=6,
             order=rng.choice(('plain', 'shuffle', 'runs', 'reverse',
                               'interleave')),
             tree=rng.choice(('balanced', 'left', 'right', 'random')),
             spare=rng.choice((0, 0, 1, 7, 300)),
             extra_sat=rng.choice((0, 0, 0, 1, 3)),
             dirpad=rng.choice((0, 0, .3)),
             trailing=rng.choice((0, 0, 0, 1, 100, 511)))
    if rng.random() < .1:
        o['sssz'] = rng.choice((5, 7, 8))
    o['cutoff'] = rng.choice((4096, 4096, 4096, 4096, 8192, 65536, 512))
    return o


def read_all(cx, wb, data, what):
    rng = cx.rng
    path = os.path.join(cx.tmp, 'b.xls')
    with open(path, 'wb') as f:
        f.write(data)
    kw = dict(logfile=io.StringIO())
    if rng.random() < .1:
        kw['verbosity'] = rng.choice((1, 2, 3))
    if rng.random() < .2:
        kw['ignore_workbook_corruption'] = True
    ways = [('mapped', dict(filename=path, use_mmap=1)),
            ('read', dict(filename=path, use_mmap=0)),
            ('bytes', dict(file_contents=data)),
            ('on demand', dict(filename=path, on_demand=True))]
    for where, k in ways:
        k.update(kw)
        with xlrd.open_workbook(**k) as book:
            M.check_book(cx, wb, book, '%s %s' % (where, what))
        cx.count('books read')


def layouts(cx):
    rng = cx.rng
    wb, stream, bv = workbook(rng, rng.random() < .4)
    o = layout(rng)
    pad = rng.choice((0, 0, 1, 63, 64, 511, 512, 4096,
                      max(0, 4096 - len(stream))))
    stream += b'\0' * pad
    sizes = rng.choice(((0, 1, 64, 65, 500), (0, 5000, 4096, 4095, 100),
                        (4096, 20000)))
    es = others(rng, rng.choice((0, 0, 1, 3, 10)), sizes)
    nm = 'Workbook' if bv >= 80 else 'Book'
    if bv >= 80 and rng.random() < .15:
        # both are present in files for both generations of readers
        es.append(olegen.Entry('Book', blob(rng, 5000)))
    if rng.random() < .1:
        nm = rng.choice((nm.upper(), nm.lower()))
    es.append(olegen.Entry(nm, stream))
    rng.shuffle(es)
    if o['order'] != 'plain' and rng.random() < .15:
        # files that end with the data, within a sector
        k = rng.choice((1, 2, 3, 4, 5, 63, 64, 100, 511))
        stream += b'\0' * ((k - len(stream)) % (1 << o['ssz']))
        last = olegen.Entry(nm, stream)
        es = [e for e in es if e.name != nm] + [last]
        o['cut'] = last
    ole = olegen.Ole(es, rng, **o)
    data = ole.make()
    cx.count('files ending within a sector', 'cut' in ole.info)
    cx.note('layout', o, ole.info, 'stream', nm, len(stream),
            [e.name for e in es])
    read_all(cx, wb, data, 'layout %r' % (o,))
    frag = ole.info.get(nm)
    if frag is None:
        cx.count('short stream layouts')
    elif frag[1] > 1:
        cx.count('fragmented layouts')
    else:
        cx.count('contiguous layouts')
    cx.sig(sorted((k, str(v)) for k, v in o.items()), frag is None, min(frag[1], 20) if frag else 0,
           ole.info['dirs'] // 4, ole.info['sat'])


def many_entries(cx):
    """Directories of hundreds of entries in every tree shape."""
    rng = cx.rng
    wb, stream, bv = workbook(rng, True)
    n = rng.choice((100, 240, 245, 249, 250, 251, 256, 300, 1200, 2500))
    o = layout(rng)
    o['tree'] = ('left', 'right', 'random', 'balanced')[cx.index % 4]
    if rng.random() < .5:
        stream += b'\0' * max(0, o['cutoff'] - len(stream))
    es = [olegen.Entry('%d-%s' % (i, 'x' * rng.randint(0, 5)),
                       blob(rng, rng.choice((0, 10))))
          for i in range(n)]
    es.insert(rng.choice((0, n, rng.randint(0, n))),
              olegen.Entry('Workbook' if bv >= 80 else 'Book', stream))
    if rng.random() < .3:
        # storages in storages
        deep = []
        for i in range(rng.choice((5, 60, 400))):
            deep = [olegen.Entry('d%d' % i, None, deep)]
        es += deep
    ole = olegen.Ole(es, rng, **o)
    data = ole.make()
    cx.note('entries', n, o, ole.info)
    read_all(cx, wb, data, '%d entries %r' % (n, o))
    cx.sig('entries', n, o['tree'], o['order'], len(stream) >= o['cutoff'])


def big(cx):
    """Allocation table in extension sectors: files beyond 7 MB."""
    rng = cx.rng
    wb, stream, bv = workbook(rng, False)
    o = layout(rng)
    o['ssz'] = 9
    o['extra_sat'] = rng.choice((109, 110, 130, 109 + 127, 109 + 128, 300,
                                 109 + 2 * 127, 109 + 2 * 127 + 1, 400, 500))
    if o['order'] == 'plain' and rng.random() < .5:
        o['extra_sat'] = 0
        o['spare'] = 109 * 128 + rng.randint(0, 40)
    if cx.index % 40 == 7:
        # three extension sectors that matter
        o.update(order='reverse', extra_sat=0, trailing=0,
                 spare=(109 + 2 * 127) * 128 + rng.randint(0, 40))
    es = others(rng, 2, (10, 5000))
    es.append(olegen.Entry('Workbook' if bv >= 80 else 'Book', stream))
    ole = olegen.Ole(es, rng, **o)
    data = ole.make()
    cx.note('big', o, ole.info, len(data))
    read_all(cx, wb, data, 'big %r' % (o,))
    cx.count('files with extension of the allocation table',
             ole.info['msat'] > 0)
    cx.sig('big', o['order'], ole.info['msat'], o['extra_sat'])


PHASES = [Phase('layouts', layouts, 12500, 50000),
          Phase('many_entries', many_entries, 400, 1600),
          Phase('big', big, 400, 1600)]
