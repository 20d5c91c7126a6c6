"""Copies of a pack are equal and independent; its printed form recreates
it."""
import copy
import datetime
import pickle

import numpy as np

from channelpack import ChannelPack
from rv import gen
from rv.core import Phase
from rv.packmachine import Machine, Snap, diff_deep

PROP = 'C36'
LEVEL = 'exploration'
FILES = ['pack.py']
RULE = ('A pack is brought to a random state by a history of operations, '
        'copied by deepcopy or pickle, compared with the copy, and then '
        'both go through the same further operations in turn: after each '
        'the one not operated on is as it was, and when both have done it '
        'their states, parts and results are equal. In the other phase the '
        'printed form of packs with values that numpy prints in full is '
        'evaluated and compared with the pack. Non-trivial: distinct '
        '(operation, way of copying, dtypes, state) and printed forms.')
ASSUME = ['values of object channels can be copied and pickled',
          'numpy prints arrays of at most 1000 elements in full, and floats '
          'with at most 8 significant digits exactly']


def ways(rng):
    r = rng.randint(0, 4)
    if r < 2:
        return 'deepcopy', copy.deepcopy
    if r == 2:
        # through a list, the pack twice
        return 'deepcopy in a list', lambda p: copy.deepcopy([p, p])[1]
    proto = rng.randint(2, pickle.HIGHEST_PROTOCOL)
    return 'pickle %d' % proto, lambda p: pickle.loads(
        pickle.dumps(p, proto))


def results(cx, a, b, op):
    ok = True
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        ok = gen.same_array(a, b) is None
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        ok = len(a) == len(b) and \
            getattr(a, '_fields', 0) == getattr(b, '_fields', 0)
        for x, y in zip(a, b):
            results(cx, x, y, op)
    else:
        ok = type(a) is type(b) and (gen.same(a, b) or repr(a) == repr(b))
    cx.check(ok, op, 'gave', b, 'on the copy', a, 'on the original')


def twins(cx):
    rng = cx.rng
    last = []
    m = Machine(cx, [lambda mc, ev: last.append(ev)], big=40,
                kinds=('bool', 'float', 'int', 'bool', 'str', 'object') +
                tuple(k for k in gen.KINDS if k[0] != '>'))  # numpy
    # itself does not keep the byte order in a pickle
    p, = m.packs
    p.fn = rng.choice(('', 'f.txt'))
    if rng.random() < .3:
        p.FALLBACK_PREFIX = 'pre'
    if rng.random() < .1:
        p.remark = 'mine'
    for _ in range(rng.randint(0, 6)):
        m.step()
    name, way = ways(rng)
    cx.note('copy by', name)
    pre = Snap(p, True)
    q = way(p)
    cx.check(type(q) is ChannelPack and q is not p and
             type(q.data) is type(p.data) and
             type(q.names) is type(p.names), name, 'types', type(q),
             type(q.data), type(q.names))
    for o, what in ((p, 'the original after the copy'), (q, 'the copy')):
        d = diff_deep(pre, Snap(o, True))
        cx.check(d is None, name, what, 'differs:', d)
    cx.check(getattr(q, 'remark', None) == getattr(p, 'remark', None), name,
             'own attribute')
    cx.check(q.parts() == p.parts(), name, 'parts', q.parts(), p.parts())
    for _ in range(rng.randint(1, 6)):
        state = rng.getstate()
        first = rng.random() < .5
        order = (p, q) if first else (q, p)
        state = rng.getstate()
        evs = []
        for i, o in enumerate(order):
            rng.setstate(state)
            other = order[1 - i]
            before = Snap(other, True)
            m.packs = [o]
            del last[:]
            m.step()
            evs.append(last[-1] if last else None)
            d = diff_deep(before, Snap(other, True))
            cx.check(d is None, name, 'an operation on the',
                     'original' if o is p else 'copy',
                     'altered the other:', d)
        a, b = evs if first else evs[::-1]
        cx.check((a is None) == (b is None), name, 'one of them raised')
        op = a.op if a is not None else 'nothing'
        d = diff_deep(Snap(p, True), Snap(q, True))
        cx.check(d is None, name, 'after', op, 'on both, original and '
                 'copy differ:', d)
        cx.check(q.parts() == p.parts(), name, 'parts after', op, q.parts(),
                 p.parts())
        if a is not None:
            cx.check(a.op == b.op and type(a.error) is type(b.error), name,
                     op, 'raised', b.error, 'on the copy', a.error)
            if a.op in ('read', 'duration', 'startstop'):
                results(cx, a.result, b.result, a.op)
        cx.sig(op, name, sorted(str(x.dtype) for x in p.data.values()),
               p.mindur, p.nof)
        cx.count('operations on both')


def printed(cx):
    rng = cx.rng
    n = rng.choice((0, 1, 2, 5, 12, 100, rng.randint(0, 300)))
    ks = gen.keys(rng, rng.choice((0, 1, 1, 2, 3, 5, 12)))
    rng.shuffle(ks)
    d = {}
    for k in ks:
        kind = rng.choice(('int', 'float', 'str', 'bool', 'nan', 'date'))
        if kind == 'int':
            v = [rng.randint(-9999, 9999) for _ in range(n)]
        elif kind == 'float':
            e = rng.choice((0, 0, 0, -12, -7, 9, 20, 150, -200))
            v = [float('%de%d' % (rng.randint(-9999, 9999), e - 2))
                 for _ in range(n)]
        elif kind == 'str':
            v = [rng.choice(('a', "it's", '"q"', 'b\nc', 'é', '', '\\', 'ab'))
                 for _ in range(n)]
        elif kind == 'bool':
            v = [rng.random() < .5 for _ in range(n)]
        elif kind == 'nan':
            v = [rng.choice((1.5, float('nan'), float('inf'), -float('inf')))
                 for _ in range(n)]
        else:
            v = [datetime.datetime(2020, 1, 1) + datetime.timedelta(
                rng.randint(0, 999), rng.randint(0, 86399))
                for _ in range(n)]
        a = np.array(v) if n else np.array(v, dtype=float)
        d[k] = a
    names = {k: rng.choice(('a', "it's", '"q" b', 'two words', 'é', '{0}',
                            '{}', '\\n')) for k in ks if rng.random() < .7}
    if rng.random() < .1:
        names[max(ks or [0]) + 5] = 'no channel'
    p = ChannelPack(d, names)
    cx.note(d, names)
    s = repr(p)
    cx.note(s[:300])
    q = eval(s, dict(ChannelPack=ChannelPack, array=np.array, nan=np.nan,
                     inf=np.inf, datetime=datetime, float64=np.float64))
    cx.check(dict(q.names) == names, 'names of the printed form',
             dict(q.names), 'expected', names)
    cx.check(sorted(q.data) == sorted(ks), 'channels of the printed form',
             sorted(q.data), 'expected', sorted(ks))
    for k in ks:
        diff = gen.same_array(q.data[k], d[k])
        cx.check(diff is None, 'channel', k, 'of the printed form', diff)
    cx.check(str(p) == s, 'str and repr differ')
    cx.sig(s)


PHASES = [Phase('twins', twins, 9000, 200000),
          Phase('printed', printed, 9000, 100000)]
