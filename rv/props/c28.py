"""Shared strings survive every split over continuation records."""
import io

from channelpack import xlrd
from rv import wbmodel as M
from rv import xlsgen
from rv.core import Phase

PROP = 'C28'
LEVEL = 'exploration'
FILES = ['xlrd/book.py']
RULE = ('String tables are made at random (one and two byte characters, '
        'surrogate pairs, empty strings, rich text runs, phonetic data) and '
        'written split over CONTINUE records by an independent writer, with '
        'small record limits so that splits fall at every kind of position, '
        'with cells in random order referring to the strings; every cell '
        'text and its rich text runs are compared with the model. The sweep '
        'phase takes one table and places a single split at each possible '
        'position in turn. Non-trivial: distinct (kinds of splits seen, '
        'number of records, kinds of strings).')
ASSUME = ['records may be split at the places the format allows: not in '
          'the fixed part of a string header, nor in a rich text run or a '
          'character']

POOLS = ('abcXYZ 019', 'abc\xe5\xe4\xff', '\u03b1\u03b2\u4e2d', 'ab\u03b1',
         'a\U0001f600\U00010000', '\U0001f600', '\xff\u0100')


def string(rng, maxlen):
    n = rng.choice((0, 1, 2, 3, rng.randint(0, maxlen), rng.randint(
        0, maxlen)))
    pool = rng.choice(POOLS)
    if rng.random() < .2:
        # one byte characters, then two byte
        k = rng.randint(0, n)
        return 'abc' * k + ''.join(rng.choice(pool) for _ in range(n))
    return ''.join(rng.choice(pool) for _ in range(n))


def book_of(rng, strings, opt):
    wb = M.WbModel()
    wb.xfs = [(0, 0)]
    n = rng.choice((1, 1, 2))
    wb.sheets = [M.SheetModel('S%d' % i) for i in range(n)]
    cells = list(range(len(strings)))
    rng.shuffle(cells)
    cols = rng.randint(1, 5)
    for i, k in enumerate(cells):
        sh = wb.sheets[i % n]
        c = M.Cell('text', strings[k], 0)
        c.enc = 'sst'
        sh.cells[i // n // cols, i // n % cols] = c
    o = xlsgen.options(rng, sst=opt, force_sst=True, shuffle_cells=False)
    return wb, o


def compare(cx, wb, w, data, kw):
    with xlrd.open_workbook(file_contents=data, logfile=io.StringIO(),
                            **kw) as book:
        M.check_book(cx, wb, book, 'sst')
        if kw.get('formatting_info'):
            for i, sh in enumerate(wb.sheets):
                ws = book.sheet_by_index(i)
                exp = {}
                for rc, c in sh.cells.items():
                    r = w.sstw.runs.get(c.extra)
                    if r:
                        exp[rc] = r
                got = {rc: [tuple(x) for x in r] for rc, r in ws.rich_text_runlist_map.items()}
                cx.check(got == exp, 'rich text runs', got, 'expected', exp)
    cx.count('strings compared', len(w.sst))
    for k, v in w.sstw.events.items():
        cx.count('splits ' + k, v)


def random_splits(cx):
    rng = cx.rng
    n = rng.choice((1, 2, 5, 20, 60))
    strings = [string(rng, rng.choice((5, 30, 120))) for _ in range(n)]
    lo = rng.choice((13, 16, 20, 40))
    hi = lo + rng.choice((0, 1, 7, 50, 400))
    opt = dict(sst_limit=(lo, hi), rich=rng.choice((0, .3, .7)),
               phonetic=rng.choice((0, .3, .7)),
               newrec=rng.choice((0, 0, .3)), cut=rng.choice((0, 0, .1, .4)),
               mixed=rng.random() < .5)
    wb, o = book_of(rng, strings, opt)
    data, w = xlsgen.write(wb, rng, 80, o)
    cx.note('strings', w.sst, opt)
    cx.note('records', [len(c) for c in w.sstw.chunks], w.sstw.events)
    kw = dict(formatting_info=rng.random() < .5)
    if rng.random() < .05:
        kw['verbosity'] = rng.choice((1, 2, 3))
    compare(cx, wb, w, data, kw)
    cx.sig(sorted(w.sstw.events), len(w.sstw.chunks) // 4, opt['rich'] > 0,
           opt['phonetic'] > 0, len({len(s) for s in w.sst}))


def big(cx):
    """Tables beyond the record limit of the format, as writers do it."""
    rng = cx.rng
    strings = []
    size = 0
    want = rng.choice((8300, 17000, 40000))
    while size < want:
        s = string(rng, rng.choice((20, 300, 3000)))
        strings.append(s)
        size += len(s)
    opt = dict(xlsgen.PLAIN_SST, rich=.1, phonetic=.1,
               mixed=rng.random() < .5)
    wb, o = book_of(rng, strings, opt)
    data, w = xlsgen.write(wb, rng, 80, o)
    cx.note('table of', len(w.sst), 'strings in', len(w.sstw.chunks),
            'records', w.sstw.events)
    compare(cx, wb, w, data, dict(formatting_info=rng.random() < .5))
    cx.sig('big', sorted(w.sstw.events), len(w.sstw.chunks))


def many(cx):
    """More strings than a 16-bit index can tell apart, or strings and
    their phonetic data as long as they get."""
    rng = cx.rng
    opt = dict(xlsgen.PLAIN_SST, rich=.02, phonetic=0,
               mixed=rng.random() < .5)
    if cx.index % 2:
        n = rng.choice((33000, 40000, 66000, 70000))
        strings = ['%x %s' % (i, 'a\u03b1'[i % 2]) for i in range(n)]
    else:
        opt['phonetic'], opt['phosize'] = .5, rng.choice(
            (32768, 65536, 70000, 140000))
        strings = [('%d' % i + rng.choice('ab\u03b1')) * rng.choice(
            (1, 2, 1000, 16000)) for i in range(6)]
        strings += ['z\u03b1' * 16000 + 'z' * 767, 'y' * 32767]
    wb, o = book_of(rng, strings, opt)
    data, w = xlsgen.write(wb, rng, 80, o)
    cx.note('table of', len(w.sst), 'strings in', len(w.sstw.chunks),
            'records', opt)
    compare(cx, wb, w, data, dict(formatting_info=rng.random() < .5))
    cx.sig('many', len(w.sst), len(w.sstw.chunks), opt.get('phosize'))


def sweep(cx):
    """One table, a single split at each position in turn."""
    rng = cx.rng
    strings = [string(rng, 6) for _ in range(rng.randint(1, 4))]
    strings = sorted(set(strings), key=strings.index)
    opt = dict(sst_limit=(8224, 8224), rich=.4, phonetic=.4, newrec=0,
               cut=0, mixed=False)
    state = rng.getstate()
    total = 400
    pos = 11
    done = 0
    while pos < total:
        # the first record ends at most at pos, the rest is not split
        rng.setstate(state)
        opt['first'] = pos
        wb, o = book_of(rng, strings, opt)
        data, w = xlsgen.write(wb, rng, 80, o)
        total = sum(len(c) for c in w.sstw.chunks) + 2
        compare(cx, wb, w, data, dict(formatting_info=bool(pos % 2)))
        cx.sig('sweep', sorted(w.sstw.events), [len(c) for c in
                                                w.sstw.chunks])
        pos += 1
        done += 1
    cx.note('sweep of', strings, done, 'positions')


PHASES = [Phase('random_splits', random_splits, 18000, 120000),
          Phase('sweep', sweep, 600, 4000),
          Phase('many', many, 8, 80),
          Phase('big', big, 300, 2000)]
