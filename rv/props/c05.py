"""mindur persists over every update of the mask."""
import numpy as np

from rv import bigpack, gen
from rv.core import Phase
from rv.packmachine import Machine

PROP = 'C05'
LEVEL = 'exploration'
FILES = ['pack.py']
RULE = ('Histories mixing mindur settings with every kind of mask update. '
        'For each update the monitor computes the mask the update gives by '
        'itself and removes the runs shorter than mindur; setting mindur '
        'must do the same with the current mask, None must do nothing. '
        'Non-trivial: distinct (operation, mindur, run lengths before the '
        'requirement) where mindur is set or was just cleared.')
ASSUME = ['mindur is an int or None']


def trig(a, b):
    out, st = [], False
    for x, y in zip(a, b):
        st = (not y) and (x or st)
        out.append(st)
    return out


def monitor(machine, ev):
    cx = machine.cx
    pre, post = ev.pre, ev.post
    if ev.op == 'mindur':
        v = ev.args[0]
        base = pre.mask
        cx.check(post.mindur == v, 'mindur', post.mindur, 'after setting',
                 v)
    elif ev.op == 'mask_assign':
        v, base = pre.mindur, ev.args[0]
    elif ev.op == 'startstop':
        v = pre.mindur
        if ev.args[2]:
            base = [x and y for x, y in zip(pre.mask, trig(*ev.args[:2]))]
        else:
            base = pre.mask
    elif ev.op in ('mask_reset', 'append', 'data_assign'):
        if ev.error is not None:
            return
        v, base = pre.mindur, [True] * post.n
    elif ev.op in ('nof', 'read', 'set_channel'):
        v, base = None, pre.mask
    else:
        return
    if ev.op != 'mindur':
        cx.check(post.mindur == pre.mindur, ev.op, 'changed mindur')
    want = base if v is None else gen.keep_runs(base, lambda n: n >= v)
    cx.check(post.mask == want, ev.op, 'with mindur', v, 'on',
             gen.maskstr(base, 300), 'gave', gen.maskstr(post.mask, 300),
             'expected', gen.maskstr(want, 300))
    if v is not None or ev.op == 'mindur':
        cx.sig(ev.op, v, tuple(b - a for a, b in
                               gen.fast_runs(base))[:12])
    if v is not None:
        cx.count('updates under mindur')


OWN = ('mindur', 'mask_assign', 'startstop', 'mask_reset', 'append',
       'data_assign')


def history(cx):
    m = Machine(cx, [monitor], npacks=cx.rng.choice((1, 1, 2)), own=OWN,
                weights=dict(mindur=6, mask_assign=8, duration=2, append=2,
                             data_assign=2, mask_reset=3))
    for _ in range(cx.rng.randint(3, 16)):
        m.step()


def short(cx):
    """Short packs, long histories."""
    m = Machine(cx, [monitor], npacks=2, own=OWN, n=cx.rng.randint(1, 9),
                big=40, kinds=('float', 'bool'),
                weights=dict(mindur=5, mask_assign=8, append=3,
                             data_assign=2, mask_reset=3, startstop=8))
    for _ in range(cx.rng.randint(5, 30)):
        m.step()


PHASES = [Phase('history', history, 36000, 200000),
          Phase('short', short, 18000, 100000),
          Phase('many', bigpack.setting, 120, 300)]
