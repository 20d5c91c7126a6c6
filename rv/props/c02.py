"""Channel calls return the documented view."""
import math

import numpy as np

from channelpack import ChannelPack
from rv import bigpack, gen
from rv.core import Phase
from rv.packmachine import Machine, Snap

PROP = 'C02'
LEVEL = 'exploration'
FILES = ['pack.py', 'datautils.py']
RULE = ('Packs of every data kind with random masks; every combination of '
        'part, filter argument and filter attribute is called and compared '
        'element by element (and dtype) with the definition. Non-trivial: a '
        'distinct (kind, argument, attribute, part given, run structure of '
        'the mask).')
ASSUME = ['channels called have the length of the mask']


def expect(arr, mask, runs, part, nof, attr):
    """(list of elements, dtype or kind wanted)"""
    if part is not None:
        a, b = runs[part]
        return arr[a:b].tolist(), arr.dtype
    eff = nof if nof is not None else attr
    els = arr.tolist()
    if eff == 'filter':
        return [e for e, m in zip(els, mask) if m], arr.dtype
    if eff == 'nan':
        if arr.dtype.kind in 'iuf':
            if arr.dtype == np.longdouble:
                return [e if m else np.longdouble(math.nan) for e, m in
                        zip(els, mask)], 'f'
            return [float(e) if m else math.nan for e, m in
                    zip(els, mask)], 'f'
        if arr.dtype.kind == 'c':
            return [e if m else complex(math.nan) for e, m in
                    zip(els, mask)], 'c'
        els = arr.astype(object).tolist()
        return [e if m else None for e, m in zip(els, mask)], 'O'
    return els, arr.dtype


def agree(got, want, dt):
    if not isinstance(got, np.ndarray):
        return 'not an array but %s' % type(got).__name__
    if got.ndim != 1:
        return 'ndim %d' % got.ndim
    if isinstance(dt, str):
        if got.dtype.kind != dt:
            return 'dtype %s, expected kind %s' % (got.dtype, dt)
    elif got.dtype != dt:
        return 'dtype %s, expected %s' % (got.dtype, dt)
    g = got.tolist()
    if len(g) != len(want):
        return '%d elements, expected %d' % (len(g), len(want))
    for i, (x, y) in enumerate(zip(g, want)):
        if dt == 'c' and x != x and y != y:
            continue
        if y is None or x is None:
            if x is not y:
                return 'element %d is %r, expected %r' % (i, x, y)
        elif not gen.same(x, y) or (type(x) is not type(y)):
            return 'element %d is %r, expected %r' % (i, x, y)
    return None


def observe(cx, p, k, full=False):
    rng = cx.rng
    arr = p.data[k]
    mask = p.mask.tolist()
    if len(mask) != len(arr):
        return
    runs = gen.fast_runs(mask)
    attr0 = p.nof
    attrs = (None, 'nan', 'filter') if full else (attr0,)
    for attr in attrs:
        if full:
            p.nof = attr
        for nof in (None, 'nan', 'filter', 'ignore'):
            parts = [None]
            if runs:
                parts += [0, len(runs) - 1, rng.randrange(len(runs))]
            for part in parts:
                want, dt = expect(arr, mask, runs, part,
                                  nof, attr)
                if part is None and nof is None and rng.random() < .5:
                    got = p(k)
                elif part is None and rng.random() < .5:
                    got = p(k, nof=nof)
                else:
                    got = p(k, part, nof)
                d = agree(got, want, dt)
                cx.check(d is None, 'channel', k, arr.dtype, 'part', part,
                         'nof', nof, 'attribute', attr, ':', d, '; data',
                         arr, 'mask', gen.maskstr(mask))
                if part is None and (nof or attr) in ('nan', 'filter') and \
                        nof != 'ignore':
                    cx.check(not np.may_share_memory(got, arr) or
                             not np.shares_memory(got, arr), 'channel', k,
                             'nof', nof, 'attribute', attr, 'gave a view '
                             'of the data instead of a new array')
                cx.sig(arr.dtype.str, nof, attr, part is None,
                       len(runs), len(mask), mask[:1], mask[-1:])
    if full:
        p.nof = attr0
        for part in (len(runs), len(runs) + rng.randint(1, 9),
                     -len(runs) - rng.randint(1, 9)):
            try:
                got = p(k, part)
            except IndexError:
                continue
            cx.fail('part %d of %d gave %r' % (part, len(runs), got))


def views(cx):
    rng = cx.rng
    n = gen.length(rng)
    p = ChannelPack({k: gen.column(rng, n) for k in gen.keys(rng, 3)})
    p.mask = np.array(gen.boolmask(rng, n), dtype=bool)
    cx.note(p.data, gen.maskstr(p.mask))
    for k in p.data:
        observe(cx, p, k, True)


def kinds(cx):
    """Every kind in turn."""
    rng = cx.rng
    kind = gen.KINDS[cx.index % len(gen.KINDS)]
    n = gen.length(rng, 60)
    a = gen.column(rng, n, kind)
    p = ChannelPack({0: a})
    p.mask = np.array(gen.boolmask(rng, n), dtype=bool)
    cx.note(kind, a, gen.maskstr(p.mask))
    observe(cx, p, 0, True)


def history(cx):
    def mon(machine, ev):
        p = ev.pack
        if p.data and isinstance(p.mask, np.ndarray):
            observe(cx, p, cx.rng.choice(sorted(p.data)))
    m = Machine(cx, [mon], npacks=1, big=60, own=('read', 'nof'))
    for _ in range(cx.rng.randint(2, 10)):
        m.step()


PHASES = [Phase('kinds', kinds, 16000, 60000),
          Phase('views', views, 16000, 60000),
          Phase('history', history, 24000, 100000),
          Phase('many', bigpack.views, 64, 200)]
