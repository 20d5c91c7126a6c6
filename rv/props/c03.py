"""Mask reset: everything is selected."""
import numpy as np

from channelpack import ChannelPack
from rv import bigpack, gen
from rv.core import Phase
from rv.packmachine import Machine

PROP = 'C03'
LEVEL = 'exploration'
FILES = ['pack.py']
RULE = ('Histories of pack operations; after each construction, data '
        'assignment (dict, the container type, data of another pack), '
        'mask_reset and append the monitor demands a boolean mask of the '
        'length of the lowest numbered channel (channels of different '
        'lengths included), all True (all False if the '
        'minimum duration setting exceeds the length). Non-trivial: '
        'distinct (operation, dtype, length, minimum duration, kind of '
        'previous mask).')
ASSUME = ['a minimum duration set on the pack applies to the reset mask']


def judge(cx, ev):
    p = ev.pack
    post = ev.post
    mind = post.mindur
    lowest = sorted(p.data)[0] if p.data else None
    n = len(p.data[lowest]) if p.data else 0
    cx.check(isinstance(post.maskarray, np.ndarray) and
             post.maskdtype == bool and post.maskarray.ndim == 1,
             'mask after', ev.op, 'is not a boolean array:',
             post.maskarray)
    cx.check(len(post.mask) == n, 'mask after', ev.op, 'has',
             len(post.mask), 'elements, the data', n)
    want = mind is None or n >= mind
    cx.check(all(e is want for e in post.mask), 'mask after', ev.op,
             'is', gen.maskstr(post.mask), 'mindur', mind, 'data',
             p.data)
    pre = ev.pre
    cx.sig(ev.op, str(p.data[lowest].dtype) if p.data else '', n,
           mind, pre and (len(pre.mask), all(pre.mask), any(pre.mask)))


RESETS = ('construct', 'data_assign', 'mask_reset', 'append')


def monitor(machine, ev):
    if ev.op in RESETS and ev.error is None:
        judge(machine.cx, ev)


def history(cx):
    m = Machine(cx, [monitor], npacks=cx.rng.choice((1, 2, 3)),
                own=RESETS,
                weights=dict(mask_reset=5, data_assign=5, append=4,
                             mindur=1))
    for _ in range(cx.rng.randint(2, 12)):
        m.step()


def kinds(cx):
    rng = cx.rng
    kind = gen.KINDS[cx.index % len(gen.KINDS)]
    m = Machine(cx, [monitor], kinds=(kind,), own=RESETS,
                weights=dict(mask_reset=5, data_assign=5, append=4,
                             mindur=0), big=60)
    for _ in range(rng.randint(1, 5)):
        m.step()


def special(cx):
    """Data full of values that are not equal to themselves or falsy."""
    rng = cx.rng
    n = rng.randint(1, 30)
    v = rng.choice((np.nan, None, 0, '', False, complex(np.nan, 1)))
    arr = [v if rng.random() < .7 else rng.choice((1.0, np.nan))
           for _ in range(n)] if not isinstance(v, str) else [v] * n
    k = rng.randint(-3, 5)
    cx.note('data', {k: arr})
    p = ChannelPack({k: arr, k + 1: range(n)})

    class Ev(object):
        op, pack, pre, error = 'construct', p, None, None
    from rv.packmachine import Snap
    for op in ('construct', 'mask_reset', 'data_assign', 'append'):
        if op == 'mask_reset':
            p.mask = np.zeros(n, dtype=bool)
            p.mask_reset()
        elif op == 'data_assign':
            p.mask = np.zeros(n, dtype=bool)
            p.data = rng.choice((dict, type(p.data)))(p.data)
        elif op == 'append':
            p.append_pack(ChannelPack({k: arr, k + 1: range(n)}))
        Ev.op, Ev.post = op, Snap(p, False)
        judge(cx, Ev)


def uneven(cx):
    """Channels of different lengths: the lowest key decides."""
    rng = cx.rng
    ks = rng.sample(range(-12, 25), rng.randint(2, 5))
    d = {k: np.arange(rng.randint(0, 12)) for k in ks}
    cx.note('data', {k: len(v) for k, v in d.items()})
    from rv.packmachine import Snap

    class Ev(object):
        pre, error = None, None
    p = ChannelPack(d) if rng.random() < .5 else ChannelPack()
    for op in ('construct', 'mask_reset', 'data_assign', 'append', 'more'):
        if op == 'mask_reset':
            p.mask = np.zeros(3, dtype=bool)
            p.mask_reset()
        elif op == 'data_assign':
            items = list(d.items())
            rng.shuffle(items)
            p.data = dict(items)
        elif op == 'append':
            p.append_pack(ChannelPack({k: np.arange(rng.randint(0, 5))
                                       for k in rng.sample(ks, len(ks))}))
        elif op == 'more':
            # a channel with a lower key, set on its own
            p.data[min(ks) - rng.randint(-3, 3)] = np.arange(20)
            p.mask_reset()
        Ev.op, Ev.pack, Ev.post = op, p, Snap(p, False)
        judge(cx, Ev)


PHASES = [Phase('kinds', kinds, 20000, 60000),
          Phase('uneven', uneven, 8000, 30000),
          Phase('special', special, 16000, 40000),
          Phase('history', history, 40000, 200000),
          Phase('many', bigpack.reset, 160, 400)]
