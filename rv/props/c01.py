"""Parts are the maximal True runs of the mask, after any history."""
import numpy as np

from channelpack import ChannelPack
from rv import bigpack, gen
from rv.core import Phase
from rv.packmachine import Machine

PROP = 'C01'
LEVEL = 'exploration'
FILES = ['pack.py', 'datautils.py']
RULE = ('Random histories of mask, duration, start/stop, data and append '
        'operations over packs of random dtypes and lengths, plus all masks '
        'up to a length enumerated; after every operation a monitor compares '
        'parts() and all part calls with the maximal True runs of the '
        'current mask found by definition. Non-trivial: a distinct '
        '(operation, run structure) with at least one False and one True '
        'element, or an empty or uniform mask right after a mask change.')
ASSUME = ['the mask is changed through the pack (assignment, in-place '
          'operators and methods), not by writing elements of pack.mask',
          'all channels of a pack have the same length']

# a part number may be counted by numpy
PARTTYPES = (int, int, int, np.int64, np.intp, np.int16)


def observe(cx, p, op=''):
    mask = p.mask.tolist()
    want = gen.fast_runs(mask)
    parts = p.parts()
    cx.check(list(parts) == list(range(len(want))),
             'after', op, 'mask', gen.maskstr(mask, 400), 'has', len(want),
             'True runs but parts() is', parts)
    if not p.data:
        return
    rng = cx.rng
    k = rng.choice(sorted(p.data))
    arr = p.data[k]
    if len(arr) != len(mask):
        return
    idx = list(range(len(want)))
    if len(idx) > 12:
        idx = idx[:2] + idx[-2:] + rng.sample(idx, 8)
    for i in idx:
        a, b = want[i]
        nof = rng.choice((None, None, 'nan', 'filter', 'ignore'))
        num = rng.choice(PARTTYPES)(i)
        got = p(k, part=num, nof=nof)
        d = gen.same_array(got, arr[a:b])
        cx.check(d is None, 'after', op, 'channel', k, 'part', i,
                 'should be elements', a, 'to', b, 'but', d, 'mask',
                 gen.maskstr(mask, 400))
    for i in (len(want), len(want) + 1 + rng.randint(0, 5)):
        try:
            r = p(k, part=i)
        except IndexError:
            cx.count('part out of range raised')
        else:
            cx.fail('part %d of %d returned %r' % (i, len(want), r))
    if want and len(want) <= 50:
        joined = [e for i in range(len(want))
                  for e in p(k, part=i).tolist()]
        filt = p(k, nof='filter').tolist()
        cx.check(len(joined) == len(filt) and
                 all(gen.same(x, y) for x, y in zip(joined, filt)),
                 'parts joined are not the filtered channel', joined, filt)
    cx.count('parts compared', len(want))
    cx.sig(op, tuple(b - a for a, b in want)[:20],
           want[0][0] if want else -1, len(mask))


def history(cx):
    def mon(machine, ev):
        observe(cx, ev.pack, ev.op)
    m = Machine(cx, [mon], npacks=cx.rng.choice((1, 1, 2)))
    for _ in range(cx.rng.randint(2, 14)):
        m.step()
    for p in m.packs:
        observe(cx, p, 'end')


def enum(cx):
    """All masks of up to 11 elements, by number."""
    i, n = cx.index, 0
    while i >= 2 ** n:
        i -= 2 ** n
        n += 1
    mask = [bool(i >> j & 1) for j in range(n)]
    p = ChannelPack({0: list(range(n)), 3: [str(e) for e in range(n)]})
    p.mask = np.array(mask, dtype=bool)
    cx.note('mask', gen.maskstr(mask))
    cx.check(gen.runs(mask) == gen.fast_runs(mask), 'oracles differ')
    observe(cx, p, 'enum')


def longmask(cx):
    rng = cx.rng
    n = rng.choice((1000, 4096, 5000, 10000, 65536 + rng.randint(-2, 2)))
    mask = gen.boolmask(rng, n)
    p = ChannelPack({rng.randint(0, 3): np.arange(n)})
    p.mask = np.array(mask, dtype=bool)
    cx.note('long mask', n, gen.maskstr(mask))
    observe(cx, p, 'long')
    p.duration(rng.randint(0, 20), mindur=rng.random() < .5)
    observe(cx, p, 'long duration')
    p.mask &= np.array(gen.boolmask(rng, n), dtype=bool)
    observe(cx, p, 'long and')


PHASES = [Phase('enum', enum, 2 ** 11 - 1, 2 ** 14 - 1),
          Phase('history', history, 64000, 250000),
          Phase('long', longmask, 240, 600),
          Phase('many', bigpack.mask, 160, 400)]
