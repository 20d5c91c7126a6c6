"""Records are the rows of the channel views."""
import keyword

import numpy as np

from channelpack import ChannelPack
from rv import bigpack, gen
from rv.core import Phase

PROP = 'C11'
LEVEL = 'exploration'
FILES = ['pack.py']
RULE = ('Packs with random keys, names (also names equal to fallback strings '
        'of other channels), masks and settings; all records under each part, '
        'filter argument and fallback are compared with the columns the pack '
        'calls give by channel number. Non-trivial: distinct (names, keys, '
        'arguments, number of records).')
ASSUME = ['all channels have the length of the mask']

GOOD = ('a', 'b', 'x1', 'speed', 'Temp', 'åäö', 'ch', 'ch0', 'ch1', 'ch2',
        'ch3', 'ch10', 'count', 'index', 'n_1')
BAD = ('two words', '1a', 'a-b', '', 'class', '_x', 'a.b', 'for', ' ')


def compare(cx, p, recs, keys, fields, part, nof):
    cols = [p(k, part=part, nof=nof) for k in keys]
    n = min(map(len, cols)) if cols else 0
    cx.check(len(recs) == n, len(recs), 'records, expected', n, 'part',
             part, 'nof', nof)
    for i, r in enumerate(recs):
        cx.check(isinstance(r, tuple) and tuple(r._fields) ==
                 tuple(fields), 'record fields', getattr(r, '_fields', r),
                 'expected', fields)
        for j, (k, f) in enumerate(zip(keys, fields)):
            w = cols[j][i]
            for v in (r[j], getattr(r, f)):
                cx.check(gen.same(v, w) and type(v) is type(w), 'record',
                         i, 'field', f, 'is', v, 'expected', w,
                         'channel', k)
    cx.count('records compared', len(recs))
    cx.sig(tuple(fields), tuple(keys), part is None, nof, n, p.nof)


def records(cx):
    rng = cx.rng
    n = gen.length(rng, 40)
    ks = gen.keys(rng, rng.randint(1, 4))
    names = {}
    style = rng.random()
    pool = list(GOOD)
    rng.shuffle(pool)
    if style < .85:
        for k in ks:
            names[k] = pool.pop()
        if rng.random() < .35 and min(ks) >= 0:
            for k in ks:
                names[k] = 'ch%d' % k
            vals = list(names.values())
            rng.shuffle(vals)
            names = dict(zip(ks, vals))
        if rng.random() < .2 and len(ks) > 1:
            names.pop(rng.choice(ks))
    invalid = False
    if rng.random() < .15 and names:
        names[rng.choice(list(names))] = rng.choice(BAD)
        invalid = True
    elif rng.random() < .08 and len(names) > 1:
        a, b = rng.sample(sorted(names), 2)
        names[a] = names[b]
        invalid = True
    p = ChannelPack({k: gen.column(rng, n) for k in ks}, names)
    p.mask = np.array(gen.boolmask(rng, n), dtype=bool)
    p.nof = rng.choice((None, None, 'nan', 'filter'))
    prefix = 'ch'
    if rng.random() < .2:
        prefix = p.FALLBACK_PREFIX = rng.choice(('x', 'col_', 'v'))
    cx.note('keys', ks, 'names', names, 'mask', gen.maskstr(p.mask), 'nof',
            p.nof, 'n', n, 'prefix', prefix)
    nparts = len(p.parts())
    for _ in range(4):
        part = rng.randrange(nparts) if nparts and rng.random() < .4 \
            else None
        if part is not None and rng.random() < .3:
            part = np.int64(part)
        nof = rng.choice((None, 'nan', 'filter', 'ignore'))
        cx.note('records', part, nof)
        fb = sorted(p.data)
        if fb[0] >= 0:
            recs = list(p.records(part=part, nof=nof, fallback=True))
            compare(cx, p, recs, fb, [prefix + str(k) for k in fb], part,
                    nof)
        else:
            cx.count('negative channel numbers')
        if invalid:
            try:
                r = list(p.records(part=part, nof=nof))
            except ValueError:
                cx.count('invalid names raised')
            else:
                cx.fail('names %r gave records %r' % (names, r[:2]))
        else:
            keys = sorted(names)
            if rng.random() < .5:
                recs = list(p.records(part=part, nof=nof))
            else:
                recs = list(p.records(part, nof))
            compare(cx, p, recs, keys, [names[k] for k in keys], part, nof)
    # a generator keeps to the state at its start of iteration, two at a
    # time do not disturb each other
    fb = invalid or not names
    if fb and min(ks) < 0:
        return
    g1, g2 = p.records(fallback=fb), p.records(fallback=fb)
    a = [x for pair in zip(g1, g2) for x in pair]
    cx.check(all(all(gen.same(u, v) for u, v in zip(a[i], a[i + 1]))
                 for i in range(0, len(a), 2)), 'interleaved records')


PHASES = [Phase('records', records, 50000, 150000),
          Phase('many', bigpack.records, 48, 200)]
