"""Packs of many elements: sizes where counters and chunks turn over."""
import numpy as np

from channelpack import ChannelPack

SIZES = (20000, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 100000,
         131073, 200000)


def bigmask(rng, n):
    """A mask of runs short and long, as an array."""
    style = rng.randint(0, 4)
    if style == 0:
        return np.full(n, True)
    if style == 1:
        m = np.zeros(n, dtype=bool)
        m[rng.randint(0, 1)::rng.choice((2, 2, 3, 7))] = True
        return m
    if style == 2:
        g = np.random.RandomState(rng.randrange(2 ** 31))
        return g.random_sample(n) < rng.choice((.05, .5, .95, .999))
    m = np.zeros(n, dtype=bool)
    i = rng.randint(0, 3)
    while i < n:
        k = rng.choice((1, 2, 5, 255, 256, 300, 1000, 4095, 4096, 4097, 9000,
                        32767, 32768, 32769, 40000, 65535, 65536, 65537))
        m[i:i + k] = True
        i += k + rng.choice((1, 1, 2, 50, 256, 5000))
    return m


def edges(m):
    """Starts and stops of the runs, as arrays."""
    d = np.diff(np.concatenate(([0], m.astype(np.int8), [0])))
    return np.flatnonzero(d == 1), np.flatnonzero(d == -1)


def keep(m, pred):
    """m with the runs only whose lengths (an array) give True."""
    a, b = edges(m)
    out = m.copy()
    for i, j in zip(a[~pred(b - a)], b[~pred(b - a)]):
        out[i:j] = False
    return out


def triggers(a, b):
    """The start/stop result: the last trigger at or before decides."""
    ev = np.where(b, -1, np.where(a, 1, 0))
    ix = np.where(ev != 0, np.arange(len(ev)), -1)
    ix = np.maximum.accumulate(ix) if len(ix) else ix
    return np.where(ix >= 0, ev[ix] == 1, False)


def parts(cx, p, m, what):
    """The parts of p are the runs of m."""
    a, b = edges(m)
    cx.check(np.array_equal(p.mask, m) and p.mask.dtype == bool, what,
             'mask differs, first at', first(p.mask, m), 'of', len(m))
    cx.check(p.parts() == list(range(len(a))), what, 'parts',
             len(p.parts()), 'expected', len(a))
    key = min(p.data)
    arr = p.data[key]
    some = range(len(a)) if len(a) < 40 else sorted(
        set(cx.rng.sample(range(len(a)), 20)) |
        {0, 1, len(a) - 2, len(a) - 1})
    for i in some:
        got = p(key, part=i)
        cx.check(np.array_equal(got, arr[a[i]:b[i]]), what, 'part', i,
                 'of', len(a), 'has', len(got), 'elements, run', a[i], b[i])
    try:
        p(key, part=len(a))
    except IndexError:
        pass
    else:
        cx.fail('part %d of %d' % (len(a), len(a)))
    cx.sig(what, len(m), len(a), int((b - a).sum()))


def first(x, y):
    if len(x) != len(y):
        return 'lengths %d %d' % (len(x), len(y))
    w = np.flatnonzero(x != y)
    return int(w[0]) if len(w) else 'dtype'


def pack(cx):
    rng = cx.rng
    n = rng.choice(SIZES)
    p = ChannelPack({0: np.arange(n), 2: np.arange(n) * .5})
    m = bigmask(rng, n)
    p.mask = m.copy()
    cx.note('big', n, 'runs', len(edges(m)[0]))
    return p, m


def mask(cx):
    p, m = pack(cx)
    parts(cx, p, m, 'mask')
    o = bigmask(cx.rng, len(m))
    p.mask &= o
    parts(cx, p, m & o, 'and')
    p.mask_reset()
    parts(cx, p, np.full(len(m), True), 'reset')


def duration(cx):
    p, m = pack(cx)
    rng = cx.rng
    a, b = edges(m)
    n = int(rng.choice((b - a).tolist() or [5])) + rng.choice((-1, 0, 0, 1))
    mindur = rng.random() < .5
    cx.note('duration', n, mindur)
    res = p.duration(n, mindur=mindur)
    w = keep(m, (lambda x: x >= n) if mindur else (lambda x: x <= n))
    cx.check(np.array_equal(res, w), 'result differs, first at',
             first(res, w))
    parts(cx, p, w, 'duration')


def setting(cx):
    p, m = pack(cx)
    rng = cx.rng
    a, b = edges(m)
    n = int(rng.choice((b - a).tolist() or [5])) + rng.choice((-1, 0, 0, 1))
    cx.note('mindur', n)
    p.mindur = n
    w = keep(m, lambda x: x >= n)
    parts(cx, p, w, 'mindur')
    o = bigmask(rng, len(m))
    p.mask = o
    w = keep(o, lambda x: x >= n)
    parts(cx, p, w, 'mindur, mask')
    o = bigmask(rng, len(m))
    p.mask &= o
    w = keep(w & o, lambda x: x >= n)
    parts(cx, p, w, 'mindur, and')


def startstop(cx):
    p, m = pack(cx)
    rng = cx.rng
    n = len(m)
    a, b = np.zeros(n, dtype=bool), np.zeros(n, dtype=bool)
    for x in (a, b):
        for _ in range(rng.choice((1, 3, 20, 2000))):
            x[rng.randrange(n)] = True
    cx.note('triggers', int(a.sum()), int(b.sum()))
    apply = rng.random() < .7
    res = p.startstop(a, b, apply=apply)
    w = triggers(a, b)
    cx.check(np.array_equal(res, w), 'result differs, first at',
             first(res, w), 'of', n)
    parts(cx, p, m & w if apply else m, 'startstop')


def views(cx):
    p, m = pack(cx)
    f = np.where(m, p.data[2], np.nan)
    i = np.where(m, p.data[0].astype(float), np.nan)
    for how in ('argument', 'attribute'):
        if how == 'attribute':
            p.nof = 'nan'
        kw = dict(nof='nan') if how == 'argument' else {}
        for key, w in ((0, i), (2, f)):
            got = p(key, **kw)
            cx.check(got.dtype == float and np.array_equal(
                got, w, equal_nan=True), how, 'nan differs, channel', key,
                'first at', first(got, w))
        if how == 'attribute':
            p.nof = 'filter'
        kw = dict(nof='filter') if how == 'argument' else {}
        for key in (0, 2):
            got, w = p(key, **kw), p.data[key][m]
            cx.check(got.dtype == w.dtype and np.array_equal(got, w), how,
                     'filter differs, channel', key, len(got), len(w))
        got = p(0, nof='ignore')
        cx.check(np.array_equal(got, np.arange(len(m))), how, 'ignore')
    s = p.data[0].astype(str)
    p.data[5] = s
    got = p(5, nof='nan')
    cx.check(got.dtype == object and
             got.tolist() == [e if k else None for e, k in
                              zip(s.tolist(), m.tolist())], 'text, nan')
    cx.sig(len(m), int(m.sum()))


def reset(cx):
    p, m = pack(cx)
    n = len(m)
    what = cx.rng.choice(('reset', 'data', 'append', 'new'))
    if what == 'reset':
        p.mask_reset()
    elif what == 'data':
        n = cx.rng.choice(SIZES)
        p.data = {1: np.full(n, np.nan)}
    elif what == 'append':
        q = ChannelPack({0: [1, 2], 2: [0, 0]})
        p.append_pack(q)
        n += 2
    else:
        p = ChannelPack({3: [None] * n})
    cx.check(p.mask.dtype == bool and len(p.mask) == n and p.mask.all(),
             what, n, 'mask of', len(p.mask), 'true', int(p.mask.sum()))
    cx.check(p.parts() == [0], 'parts', p.parts()[:5])
    cx.sig(what, n)


def append(cx):
    rng = cx.rng
    w = {0: [], 4: []}
    p = ChannelPack()
    fns = []
    for i in range(rng.randint(2, 5)):
        n = rng.choice(SIZES[:6]) if rng.random() < .6 else rng.randint(0, 5)
        q = ChannelPack({0: np.arange(n), 4: np.arange(n) / 4.},
                        {0: 'a', 4: 'b'})
        q.fn = 'f%d' % i
        fns.append(q.fn)
        for k in w:
            w[k].append(q.data[k].copy())
        if i == 0:
            p = q
        else:
            p.append_pack(q)
    cx.note('append', [len(x) for x in w[0]])
    for k in w:
        x = np.concatenate(w[k])
        cx.check(np.array_equal(p(k), x), 'channel', k, 'differs, first at',
                 first(p(k), x))
    cx.check(p.filenames == fns and len(p.mask) == len(p(0)) and
             p.mask.all(), p.filenames, len(p.mask))
    cx.sig(tuple(len(x) for x in w[0]))


def records(cx):
    p, m = pack(cx)
    p.names = {0: 'a', 2: 'b'}
    nof = cx.rng.choice((None, 'filter', 'ignore'))
    fb = cx.rng.random() < .5
    x, y = p.data[0], p.data[2]
    if nof == 'filter':
        x, y = x[m], y[m]
    recs = list(p.records(nof=nof, fallback=fb))
    cx.check(len(recs) == len(x), len(recs), 'records of', len(x))
    w = list(zip(x.tolist(), y.tolist()))
    got = [tuple(r) for r in recs]
    if got != w:
        i = next(i for i, (g, e) in enumerate(zip(got, w)) if g != e)
        cx.fail('record %d is %r, expected %r' % (i, recs[i], w[i]))
    want = ('ch0', 'ch2') if fb else ('a', 'b')
    cx.check(not recs or recs[-1]._fields == want, want)
    cx.sig(len(m), int(m.sum()), nof, fb)
