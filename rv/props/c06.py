"""Start/stop masking follows the triggers."""
import numpy as np

from channelpack import ChannelPack
from rv import bigpack, gen
from rv.core import Phase
from rv.packmachine import Machine
from rv.props.c05 import trig

PROP = 'C06'
LEVEL = 'exploration'
FILES = ['pack.py', 'datautils.py']
RULE = ('All pairs of trigger sequences up to a length, and random ones of '
        'many element types and lengths in histories; the monitor evaluates '
        'the recurrence result[i] = not stop[i] and (start[i] or '
        'result[i-1]) and the anding into the mask. Non-trivial: distinct '
        '(triggers, apply, prior mask).')
ASSUME = ['both trigger sequences have the length of the mask']


def judge(cx, pre, post, res, a, b, apply, mindur=None):
    want = trig(a, b)
    cx.check(isinstance(res, np.ndarray) and res.dtype == bool and
             res.ndim == 1, 'result is not a bool array:', res)
    cx.check(res.tolist() == want, 'start', gen.maskstr(a, 200), 'stop',
             gen.maskstr(b, 200), 'gave', gen.maskstr(res, 200),
             'expected', gen.maskstr(want, 200))
    wm = [x and y for x, y in zip(pre, want)] if apply else pre
    if mindur is not None and apply:
        wm = gen.keep_runs(wm, lambda n: n >= mindur)
    cx.check(post == wm, 'mask', gen.maskstr(pre, 200), 'and result',
             gen.maskstr(want, 200), 'apply', apply, 'gave',
             gen.maskstr(post, 200))
    cx.sig(gen.maskstr(a, 64), gen.maskstr(b, 64), apply,
           gen.maskstr(pre, 64), len(a))


def monitor(machine, ev):
    if ev.op == 'startstop':
        a, b, apply = ev.args
        judge(machine.cx, ev.pre.mask, ev.post.mask, ev.result, a, b, apply,
              ev.pre.mindur)


def history(cx):
    m = Machine(cx, [monitor], own=('startstop',),
                weights=dict(startstop=12, mindur=1))
    for _ in range(cx.rng.randint(2, 10)):
        m.step()


def enum(cx):
    """All trigger pairs of up to 5 (thorough 6) elements."""
    i, n = cx.index, 0
    while i >= 4 ** n:
        i -= 4 ** n
        n += 1
    a = [bool(i >> 2 * j & 1) for j in range(n)]
    b = [bool(i >> 2 * j & 2) for j in range(n)]
    cx.note(gen.maskstr(a), gen.maskstr(b))
    for apply in (True, False):
        p = ChannelPack({0: range(n)} if n else {})
        pre = gen.boolmask(cx.rng, n)
        p.mask = np.array(pre, dtype=bool)
        res = p.startstop(np.array(a, dtype=bool), np.array(b, dtype=bool),
                          apply=apply)
        judge(cx, pre, p.mask.tolist(), res, a, b, apply)


def longer(cx):
    rng = cx.rng
    n = rng.choice((1000, 3000, 10000))
    p = ChannelPack({0: np.arange(n)})
    pre = gen.boolmask(rng, n)
    p.mask = np.array(pre, dtype=bool)
    pa, pb = rng.choice((.001, .01, .1)), rng.choice((.001, .01, .1))
    a = [rng.random() < pa for _ in range(n)]
    b = [rng.random() < pb for _ in range(n)]
    cx.note('long', n, pa, pb)
    res = p.startstop(np.array(a), np.array(b))
    judge(cx, pre, p.mask.tolist(), res, a, b, True)


PHASES = [Phase('enum', enum, sum(4 ** n for n in range(7)),
                sum(4 ** n for n in range(8))),
          Phase('history', history, 60000, 150000),
          Phase('long', longer, 360, 720),
          Phase('many', bigpack.startstop, 160, 400)]
