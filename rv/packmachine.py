"""Random histories of operations on packs, with monitors attached.

The machine drives real ChannelPack objects. Before and after each
operation the monitors get a snapshot of the observable state, and each
monitor judges its own property from those (a deviation that belongs to
another property does not disturb it, the next operation starts from the
state as it is).
"""
import operator

import numpy as np

from channelpack import ChannelPack
from rv import gen


class Foreign(Exception):
    pass


class Event(object):
    __slots__ = ('op', 'pack', 'args', 'pre', 'post', 'result', 'error')


class Snap(object):
    """Observable state of a pack, mask side only unless deep."""

    def __init__(self, pack, deep):
        m = pack.mask
        self.maskarray = m
        self.mask = m.tolist() if isinstance(m, np.ndarray) else m
        self.maskdtype = getattr(m, 'dtype', None)
        self.mindur = pack.mindur
        self.nof = pack.nof
        self.low = min(pack.data) if pack.data else None
        self.n = len(pack.data[self.low]) if pack.data else 0
        if deep:
            self.data = {k: gen.freeze(pack.data[k]) for k in pack.data}
            self.names = dict(pack.names)
            self.fn = pack.fn
            self.filenames = list(pack.filenames)
            self.prefix = pack.FALLBACK_PREFIX


def diff_deep(a, b, mask=True):
    """What differs between two deep snapshots (a before, b after)."""
    if set(a.data) != set(b.data):
        return 'channels %s became %s' % (sorted(a.data), sorted(b.data))
    for k in a.data:
        if a.data[k][:2] != b.data[k][:2]:
            return 'channel %r: dtype, shape %s became %s' % (
                k, a.data[k][:2], b.data[k][:2])
        for i, (x, y) in enumerate(zip(a.data[k][2], b.data[k][2])):
            if not gen.same(x, y) or type(x) is not type(y):
                return 'channel %r element %d: %r became %r' % (k, i, x, y)
    for at in ('names', 'fn', 'filenames', 'prefix', 'mindur', 'nof'):
        if getattr(a, at) != getattr(b, at):
            return '%s %r became %r' % (at, getattr(a, at), getattr(b, at))
    if mask and (a.mask != b.mask or a.maskdtype != b.maskdtype):
        return 'mask %s became %s' % (gen.maskstr(a.mask),
                                      gen.maskstr(b.mask))
    return None


WEIGHTS = dict(mask_assign=6, mask_iop=4, duration=4, mindur=2,
               startstop=4, mask_reset=2, data_assign=1, append=1,
               nof=1, read=3, set_channel=1, invert=1)


class Machine(object):
    def __init__(self, cx, monitors, npacks=1, big=400, kinds=None,
                 weights=None, deep=False, n=None, own=()):
        self.cx, self.rng = cx, cx.rng
        self.monitors = monitors
        self.kinds = kinds
        self.own = own
        self.deep = deep
        self.big = big
        self.n = gen.length(self.rng, big) if n is None else n
        self.pool = []          # arrays the caller keeps: (array, frozen)
        self.packs = []
        w = dict(WEIGHTS)
        w.update(weights or {})
        self.ops = [k for k in w if w[k]]
        self.wts = [w[k] for k in self.ops]
        for _ in range(npacks):
            self.packs.append(self.newpack())

    # -- building blocks

    def newdata(self, n=None, keys=None):
        rng = self.rng
        n = self.n if n is None else n
        if keys is None:
            keys = gen.keys(rng, rng.choice((1, 1, 2, 2, 3, 4)))
        d = {}
        for k in keys:
            kind = rng.choice(self.kinds) if self.kinds else None
            a = gen.dress(rng, gen.column(rng, n, kind))
            if rng.random() < .2 and a.dtype.kind in 'fib':
                d[k] = a.tolist()
            elif rng.random() < .1 and a.dtype.kind != 'O':
                # a strided view of a larger array
                big = np.repeat(a, 2)
                d[k] = big[::2]
                self.keep(big)
            else:
                d[k] = a
                self.keep(a)
        return d

    def newpack(self, n=None, keys=None):
        rng = self.rng
        if rng.random() < .04 and keys is None:
            p = ChannelPack()
            self.cx.note('ChannelPack()')
        else:
            d = self.newdata(n, keys)
            nm = None
            if rng.random() < .5:
                nm = {k: rng.choice(gen.IDENTS) for k in d}
            p = ChannelPack(d, nm)
            self.cx.note('ChannelPack(', {k: repr(v)[:60] for k, v
                                          in d.items()}, nm, ')')
        self.emit('construct', p, (), None, None)
        return p

    def keep(self, a):
        if self.deep:
            self.pool.append((a, gen.freeze(a)))

    def emit(self, op, pack, args, pre, result, error=None):
        ev = Event()
        ev.op, ev.pack, ev.args, ev.pre = op, pack, args, pre
        ev.result, ev.error = result, error
        ev.post = Snap(pack, self.deep)
        self.cx.count('events')
        for m in self.monitors:
            m(self, ev)
        return ev

    # -- operations

    def step(self):
        op = self.rng.choices(self.ops, self.wts)[0]
        p = self.rng.choice(self.packs)
        try:
            getattr(self, 'op_' + op)(p)
        except Foreign:
            self.cx.count('operation of another property raised')

    def act(self, op, func, *args, **kw):
        """Call into the code under test for operation op.

        An exception is a violation only if the operation is one the
        running property is about.

        """
        try:
            return func(*args, **kw)
        except Exception as e:
            if op in self.own:
                raise
            self.cx.note('raised', repr(e))
            raise Foreign()

    def some_mask(self, p):
        """An array for the mask of p, and where it comes from."""
        rng = self.rng
        n = len(p.mask)
        r = rng.random()
        if r < .12 and p.data:
            k = rng.choice(sorted(p.data))
            a = p.data[k]
            if a.dtype == bool and len(a) == n:
                return a, 'channel %r' % k
            if a.dtype.kind in 'fiu' and len(a) == n:
                return p(k, nof='ignore') > rng.choice((-1, 0, 2)), \
                    'comparison'
        if r < .2:
            o = rng.choice(self.packs)
            if len(o.mask) == n and isinstance(o.mask, np.ndarray):
                return o.mask, 'mask of a pack'
        if r < .3 and self.pool:
            a = rng.choice(self.pool)[0]
            if a.dtype == bool and len(a) == n:
                return a, 'kept array'
        m = np.array(gen.boolmask(rng, n), dtype=bool)
        if r > .95:
            m = np.repeat(m, 2)[::2]
        elif r > .9:
            m.setflags(write=False)
        self.keep(m)
        return m, 'fresh'

    def op_mask_assign(self, p):
        pre = Snap(p, self.deep)
        m, src = self.some_mask(p)
        ml = m.tolist()
        self.cx.note('mask =', src, gen.maskstr(ml))
        self.act('mask_assign', setattr, p, 'mask', m)
        self.emit('mask_assign', p, (ml, src), pre, None)

    def op_mask_iop(self, p):
        pre = Snap(p, self.deep)
        m, src = self.some_mask(p)
        ml = m.tolist()
        op = self.rng.choice('&|^')
        self.cx.note('mask %s=' % op, src, gen.maskstr(ml))
        if op == '&':
            self.act('mask_assign', setattr, p, 'mask',
                     operator.iand(p.mask, m))
            want = [a and b for a, b in zip(pre.mask, ml)]
        elif op == '|':
            self.act('mask_assign', setattr, p, 'mask',
                     operator.ior(p.mask, m))
            want = [a or b for a, b in zip(pre.mask, ml)]
        else:
            self.act('mask_assign', setattr, p, 'mask',
                     operator.ixor(p.mask, m))
            want = [a != b for a, b in zip(pre.mask, ml)]
        self.emit('mask_assign', p, (want, src), pre, None)

    def op_invert(self, p):
        pre = Snap(p, self.deep)
        self.cx.note('mask = ~mask')
        self.act('mask_assign', setattr, p, 'mask', ~p.mask)
        self.emit('mask_assign', p, ([not e for e in pre.mask], ''), pre,
                  None)

    def op_mask_reset(self, p):
        pre = Snap(p, self.deep)
        self.cx.note('mask_reset()')
        self.act('mask_reset', p.mask_reset)
        self.emit('mask_reset', p, (), pre, None)

    def some_duration(self):
        rng = self.rng
        if rng.random() < .6:
            d, s = rng.choice((rng.randint(0, 8), rng.randint(1, 20))), 1
            if rng.random() < .2:
                s = rng.randint(1, 10)
        else:
            d = round(rng.uniform(0, 3), rng.choice((1, 2)))
            s = rng.choice((1, 2, 5, 10, 100, .5, .1, 2.5))
        return d, s

    def op_duration(self, p):
        pre = Snap(p, self.deep)
        d, s = self.some_duration()
        mindur = self.rng.random() < .65
        self.cx.note('duration(', d, s, mindur, ')')
        if s == 1 and mindur and self.rng.random() < .5:
            res = self.act('duration', p.duration, d)
        elif mindur and self.rng.random() < .5:
            res = self.act('duration', p.duration, d, samplerate=s)
        else:
            res = self.act('duration', p.duration, d, samplerate=s, mindur=mindur)
        self.emit('duration', p, (d, s, mindur), pre, res)

    def op_mindur(self, p):
        pre = Snap(p, self.deep)
        v = self.rng.choice((None, 0, 1, 2, 3, 4, 5, 8, 12,
                             self.rng.randint(0, 40)))
        self.cx.note('mindur =', v)
        self.act('mindur', setattr, p, 'mindur', v)
        self.emit('mindur', p, (v,), pre, None)

    def triggers(self, n):
        rng = self.rng
        dens = rng.choice((.05, .2, .5))
        style = rng.randint(0, 6)
        vals = []
        for _ in range(2):
            b = [rng.random() < dens for _ in range(n)]
            if rng.random() < .15:
                b = gen.boolmask(rng, n)
            if style <= 2:
                vals.append(np.array(b, dtype=bool))
            elif style == 3:
                vals.append(list(b))
            elif style == 4:
                vals.append([rng.choice((1, -1, 2.5, 7, gen.NAN)) if e else
                             rng.choice((0, 0.0, -0.0)) for e in b])
            elif style == 5:
                # arrays of numbers
                dt = rng.choice(('i8', 'u1', 'f8', 'f4', 'c16', object))
                on = (1, 3, 255) if dt == 'u1' else (1, -1, 256, 1000) \
                    if dt == 'i8' else (1, .25, -1e-30, gen.NAN)
                vals.append(np.array([rng.choice(on) if e else 0 for e in b],
                                     dtype=dt))
            else:
                vals.append(tuple(rng.choice(('x', (0,), 5, True)) if e else
                                  rng.choice(('', None, (), 0, False))
                                  for e in b))
        return vals

    def op_startstop(self, p):
        pre = Snap(p, self.deep)
        n = len(p.mask)
        a, b = self.triggers(n)
        apply = self.rng.random() < .7
        la = [bool(e) for e in a]
        lb = [bool(e) for e in b]
        for e in (a, b):
            if isinstance(e, np.ndarray):
                self.keep(e)
        self.cx.note('startstop(', gen.maskstr(la), gen.maskstr(lb), apply,
                     type(a).__name__, ')')
        if apply and self.rng.random() < .5:
            res = self.act('startstop', p.startstop, a, b)
        else:
            res = self.act('startstop', p.startstop, a, b, apply=apply)
        self.emit('startstop', p, (la, lb, apply), pre, res)

    def op_data_assign(self, p):
        pre = Snap(p, self.deep)
        rng = self.rng
        r = rng.random()
        others = [q for q in self.packs if q is not p]
        if r < .25 and others:
            src = rng.choice(others)
            self.cx.note('data = other.data')
            d = src.data
            self.act('data_assign', setattr, p, 'data', d)
        else:
            n = self.n if rng.random() < .6 else gen.length(rng, self.big)
            d = self.newdata(n)
            if r > .95:
                d = {}
            elif r > .7:
                d = type(p.data)(d)
            self.cx.note('data =', type(d).__name__,
                         {k: repr(v)[:50] for k, v in d.items()})
            self.act('data_assign', setattr, p, 'data', d)
        self.emit('data_assign', p, (d,), pre, None)

    def op_append(self, p):
        rng = self.rng
        r = rng.random()
        if r < .1:
            other = p
        elif r < .4 and len(self.packs) > 1:
            other = rng.choice(self.packs)
        else:
            ks = list(p.data) or None
            if ks:
                rng.shuffle(ks)
            other = self.newpack(gen.length(rng, 30), ks)
            if rng.random() < .3:
                other.fn = 'f%d' % rng.randint(0, 9)
        if len(p.mask) + len(other.mask) > 4 * self.big:
            return
        pre = Snap(p, self.deep)
        opre = Snap(other, True)
        err = None
        self.cx.note('append_pack(', 'self' if other is p else other.data,
                     ')')
        try:
            p.append_pack(other)
        except (ValueError, TypeError) as e:
            err = e
            self.cx.note('raised', repr(e))
        self.emit('append', p, (other, opre), pre, None, err)

    def op_nof(self, p):
        pre = Snap(p, self.deep)
        v = self.rng.choice((None, 'nan', 'filter'))
        self.cx.note('nof =', v)
        self.act('nof', setattr, p, 'nof', v)
        self.emit('nof', p, (v,), pre, None)

    def op_set_channel(self, p):
        """Replace or add a channel of the same length."""
        if not p.data:
            return
        pre = Snap(p, self.deep)
        n = len(p.data[min(p.data)])
        k = self.rng.choice(sorted(p.data) + [max(p.data) + 1])
        a = gen.column(self.rng, n, self.rng.choice(self.kinds)
                       if self.kinds else None)
        self.keep(a)
        self.cx.note('data[%r] =' % k, a)
        self.act('set_channel', p.data.__setitem__, k, a)
        self.emit('set_channel', p, (k, a), pre, None)

    def op_read(self, p):
        pre = Snap(p, self.deep)
        rng = self.rng
        what = rng.randint(0, 5)
        args = (what,)
        res = err = None
        if p.data:
            k = rng.choice(sorted(p.data))
            nof = rng.choice((None, 'nan', 'filter', 'ignore'))
            if what == 0:
                res = self.act('read', p, k, nof=nof)
            elif what == 1:
                res = self.act('read', lambda: [p(k, part=i, nof=nof)
                                                for i in p.parts()[:3]])
            elif what == 2 and min(p.data) >= 0:
                res = self.act('read', lambda: list(
                    p.records(fallback=True, nof=nof)))
            elif what == 3:
                res = self.act('read', p.parts)
            elif what == 4:
                res = self.act('read', repr, p)
            else:
                res = self.act('read', p.name, k, fallback=True)
        self.cx.note('read', what)
        self.emit('read', p, args, pre, res, err)
