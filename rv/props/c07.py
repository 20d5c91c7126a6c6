"""Nothing but the pack's own mask changes by masking and reading."""
import numpy as np

from channelpack import ChannelPack
from rv import gen
from rv.core import Phase
from rv.packmachine import Machine, Snap, diff_deep

PROP = 'C07'
LEVEL = 'exploration'
FILES = ['pack.py', 'datautils.py']
RULE = ('Histories over two or three packs that share arrays, masks, data '
        'and names dicts (masks taken from channels, from kept arrays and '
        'from other packs). Every array and dict the caller holds is '
        'recorded, and after each operation everything but what the '
        'operation is to change is compared. Non-trivial: distinct '
        '(operation, where the mask came from, dtypes involved) with '
        'sharing present.')
ASSUME = ['arrays are not written to by the caller']

# operations which may change the data of the pack they are called on
DATAOPS = ('construct', 'data_assign', 'append', 'set_channel')


class Watch(object):
    def __init__(self):
        self.snaps = {}
        self.dicts = []

    def __call__(self, machine, ev):
        cx = machine.cx
        # other packs: nothing at all may change
        for p in machine.packs:
            if p is ev.pack:
                continue
            old = self.snaps.get(id(p))
            if old is not None:
                d = diff_deep(old, Snap(p, True))
                cx.check(d is None, ev.op, 'on one pack altered another:',
                         d)
        if ev.op == 'append':
            other, opre = ev.args
            if other is not ev.pack:
                d = diff_deep(opre, Snap(other, True))
                cx.check(d is None, 'append altered the appended pack:', d)
        # this pack: data, names, file names
        if ev.pre is not None and ev.op not in DATAOPS:
            d = diff_deep(ev.pre, ev.post, mask=False)
            if d is not None and not (ev.op in ('nof', 'mindur') and
                                      d.startswith(ev.op)):
                cx.fail('%s altered the pack: %s' % (ev.op, d))
        if ev.op in ('nof', 'read', 'set_channel'):
            cx.check(ev.pre.mask == ev.post.mask, ev.op, 'altered the mask',
                     gen.maskstr(ev.pre.mask), gen.maskstr(ev.post.mask))
        if ev.op == 'startstop' and not ev.args[2]:
            cx.check(ev.pre.mask == ev.post.mask, 'startstop with '
                     'apply=False altered the mask')
        for a, fr in machine.pool:
            d = gen.frozen_diff(a, fr)
            cx.check(d is None, ev.op, 'altered an array of the caller:', d)
        for d, keys, vals in self.dicts:
            cx.check(list(d) == keys and all(d[k] is v for k, v in
                                             zip(keys, vals)),
                     ev.op, 'altered a dict of the caller', d, keys)
        if ev.op == 'data_assign':
            d = ev.args[0]
            if not any(d is p.data for p in machine.packs):
                self.dicts.append((d, list(d), [d[k] for k in d]))
        for p in machine.packs + [ev.pack]:
            self.snaps[id(p)] = Snap(p, True)
        src = ev.args[1] if ev.op == 'mask_assign' else ''
        cx.sig(ev.op, src, sorted(str(a.dtype) for a in
                                  ev.pack.data.values()),
               len(machine.packs))
        cx.count('arrays watched', len(machine.pool))


def history(cx):
    m = Machine(cx, [], npacks=cx.rng.choice((2, 2, 3)), deep=True, big=40,
                kinds=('bool', 'float', 'int', 'bool', 'str', 'object',
                       'bool') + gen.KINDS,
                weights=dict(append=2, data_assign=2, duration=6, mindur=3,
                             startstop=5, mask_assign=8))
    w = Watch()
    m.monitors.append(w)
    for p in m.packs:
        w.snaps[id(p)] = Snap(p, True)
    for _ in range(cx.rng.randint(4, 16)):
        m.step()


def shared(cx):
    """Packs built on the very same arrays and dicts."""
    rng = cx.rng
    n = rng.randint(1, 25)
    flag = np.array(gen.boolmask(rng, n), dtype=bool)
    val = gen.dress(rng, gen.column(rng, n))
    d = {0: val, 1: flag, 2: np.arange(n)}
    names = {0: 'val', 1: 'flag', 2: 'i'}
    cls = type(ChannelPack().data)
    src = cls(d) if rng.random() < .5 else d
    a = ChannelPack(src, names)
    b = ChannelPack(a.data, a.names)
    c = ChannelPack()
    c.data = a.data
    c.names = a.names
    frz = {id(x): (x, gen.freeze(x)) for x in d.values()}
    keep = [flag.copy(), np.array(gen.boolmask(rng, n), dtype=bool)]
    for x in keep:
        frz[id(x)] = (x, gen.freeze(x))
    packs = [a, b, c]
    if rng.random() < .4:
        # to be filled by an append
        packs.append(ChannelPack())
        if rng.random() < .3:
            packs[-1].data = {k: d[k].copy() for k in d}
    dn = dict(names)

    def verify(op, active, may_data=False):
        for x, fr in frz.values():
            diff = gen.frozen_diff(x, fr)
            cx.check(diff is None, op, 'altered an array:', diff)
        cx.check(names == dn and list(d) == [0, 1, 2] and d[0] is val and
                 d[1] is flag, op, 'altered a dict of the caller')
        cx.check(list(src) == [0, 1, 2], op, 'altered the dict passed in')
        for p in packs:
            if p is not active:
                diff = diff_deep(snaps[id(p)], Snap(p, True))
                cx.check(diff is None, op, 'altered another pack:', diff)
    for step in range(rng.randint(3, 12)):
        p = rng.choice(packs)
        snaps = {id(q): Snap(q, True) for q in packs}
        op = rng.randint(0, 9)
        if op == 0 and 1 in p.data and len(p.data[1]) == len(p.mask) and \
           p.data[1].dtype == bool:
            p.mask = p('flag') if 'flag' in p.names.values() else p(1)
        elif op == 1 and len(p.mask) == n:
            p.mask = rng.choice(keep)
        elif op == 2:
            q = rng.choice(packs)
            if len(q.mask) == len(p.mask):
                p.mask = q.mask
        elif op == 3:
            p.duration(rng.randint(1, 6), mindur=rng.random() < .7)
        elif op == 4:
            p.mindur = rng.choice((None, 2, 4))
        elif op == 5:
            m = len(p.mask)
            p.startstop([rng.random() < .3 for _ in range(m)],
                        [rng.random() < .3 for _ in range(m)])
        elif op == 6 and len(p.mask) < 300:
            q = rng.choice(packs)
            try:
                p.append_pack(q)
            except (ValueError, TypeError):
                pass
        elif op == 7:
            p.data[rng.randint(0, 4)] = np.zeros(len(p.mask))
            p.names[3] = 'new'
            p.mask_reset()
        elif op == 9:
            if p.names and rng.random() < .5:
                p.names.pop(rng.choice(list(p.names)))
            elif rng.random() < .2:
                p.names.clear()
            else:
                p.names[rng.randint(0, 3)] = 'other'
        elif 0 not in p.data or 1 not in p.data:
            pass
        else:
            list(p.records(fallback=True, nof='nan'))
            repr(p)
            p(0, nof='nan')
            p(1, nof='filter')
        cx.note('op', op, 'pack', packs.index(p))
        verify('operation %d' % op, p)
        cx.sig(op, packs.index(p), n, step)


PHASES = [Phase('history', history, 30000, 100000),
          Phase('shared', shared, 40000, 120000)]
