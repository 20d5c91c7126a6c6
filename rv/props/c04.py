"""duration() removes exactly the parts that do not qualify."""
from fractions import Fraction

import numpy as np

from channelpack import ChannelPack
from rv import bigpack, gen
from rv.core import Phase
from rv.packmachine import Machine

PROP = 'C04'
LEVEL = 'exploration'
FILES = ['pack.py']
RULE = ('duration() calls in random histories and on generated masks with '
        'runs around the required length; the monitor computes the required '
        'number of elements exactly (decimal fractions) and compares the '
        'whole mask and the returned array. Non-trivial: distinct '
        '(duration, samplerate, minimum or maximum, run lengths before).')
ASSUME = ['durations and samplerates with at most 7 decimals; the required number '
          'is the exact product of the decimal numbers as written']


def required(d, s):
    return Fraction(str(d)) * Fraction(str(s))


def judge(cx, pre, post, res, d, s, mindur, own_mindur=None):
    req = required(d, s)
    if mindur:
        want = gen.keep_runs(pre, lambda n: n >= req)
    else:
        want = gen.keep_runs(pre, lambda n: n <= req)
    cx.check(post == want, 'duration', d, 'samplerate', s,
             'min' if mindur else 'max', 'on', gen.maskstr(pre, 300),
             'gave', gen.maskstr(post, 300), 'expected',
             gen.maskstr(want, 300))
    cx.check(isinstance(res, np.ndarray) and res.dtype == bool and
             res.tolist() == want, 'duration returned', res, 'expected',
             gen.maskstr(want))
    cx.sig(d, s, mindur, tuple(b - a for a, b in gen.fast_runs(pre))[:12],
           len(pre))


def monitor(machine, ev):
    if ev.op == 'duration':
        d, s, mindur = ev.args
        judge(machine.cx, ev.pre.mask, ev.post.mask, ev.result, d, s,
              mindur)


def history(cx):
    m = Machine(cx, [monitor], npacks=cx.rng.choice((1, 2)),
                own=('duration',), weights=dict(duration=9))
    for _ in range(cx.rng.randint(2, 12)):
        m.step()


def around(cx):
    """Runs of lengths around the required one."""
    rng = cx.rng
    style = rng.randint(0, 3)
    if style == 0:
        d, s = rng.randint(0, 40), 1
    elif style == 1:
        d = rng.randint(1, 300) / 100.
        s = rng.choice((1, 10, 100, 50, 20, 1000 if d < .3 else 10))
    elif style == 2:
        d, s = rng.randint(1, 50) / 10., rng.choice((1, 2, 5, 10, .5, .1,
                                                     2.5, 7.5))
    else:
        d, s = rng.randint(1, 12), rng.choice((1, 2, 3, 5, 10, 12.5, .25,
                                               .1))
    if rng.random() < .15:
        d = type(d)(gen.const_int(rng, 0, 60))
    elif rng.random() < .1:
        # close to an integer, but not it
        q = rng.randint(2, 7)
        d = round(rng.randint(1, 30) + rng.choice((-1, 1)) * 10.0 ** -q, q)
        s = rng.choice((1, 1, 2, 10))
    req = float(required(d, s))
    mask = [False] * rng.randint(0, 2)
    for _ in range(rng.randint(1, 6)):
        n = int(req) + rng.choice((-2, -1, 0, 0, 1, 1, 2)) \
            if rng.random() < .8 else rng.randint(1, 9)
        mask += [True] * max(1, n) + [False] * rng.randint(1, 3)
    if rng.random() < .5:
        while mask and not mask[-1]:
            mask.pop()
    n = len(mask)
    p = ChannelPack({0: np.arange(n)})
    p.mask = np.array(mask, dtype=bool)
    pre = p.mask.tolist()
    mindur = rng.random() < .6
    cx.note('mask', gen.maskstr(mask, 250), 'duration', d, s, mindur)
    cls = rng.choice((None, None, np.float64))
    dd = cls(d) if cls else d
    if rng.random() < .5:
        flag = rng.choice((bool, bool, np.bool_, int))(mindur)
        res = p.duration(dd, s, flag)
    elif mindur and s == 1:
        res = p.duration(dd)
    else:
        res = p.duration(dd, samplerate=s, mindur=mindur)
    judge(cx, pre, p.mask.tolist(), res, d, s, mindur)
    # a second requirement on the result
    pre = p.mask.tolist()
    d2 = rng.randint(0, 10)
    mindur = not mindur
    res = p.duration(d2, mindur=mindur)
    judge(cx, pre, p.mask.tolist(), res, d2, 1, mindur)


def enum(cx):
    """Every duration of two decimals up to 4 at samplerate 100 (and 10)."""
    i = cx.index
    d = (i % 400 + 1) / 100.
    s = (100, 10, 1, 1000)[i // 400]
    req = required(d, s)
    lo = int(req) - 1
    lens = [x for x in range(lo, lo + 4) if x > 0]
    mask = []
    for x in lens:
        mask += [True] * x + [False]
    for mindur in (True, False):
        p = ChannelPack({0: np.arange(len(mask))})
        p.mask = np.array(mask, dtype=bool)
        res = p.duration(d, samplerate=s, mindur=mindur)
        cx.note('duration', d, s, mindur, 'run lengths', lens)
        judge(cx, mask, p.mask.tolist(), res, d, s, mindur)


PHASES = [Phase('enum', enum, 1600, 1600),
          Phase('around', around, 48000, 250000),
          Phase('history', history, 32000, 150000),
          Phase('many', bigpack.duration, 240, 600)]
