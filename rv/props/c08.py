"""Appending concatenates, all or nothing."""
import numpy as np

from channelpack import ChannelPack
from rv import bigpack, gen
from rv.core import Phase
from rv.packmachine import Snap, diff_deep

PROP = 'C08'
LEVEL = 'exploration'
FILES = ['pack.py']
RULE = ('Chains of appends of packs with and without data, names and file '
        'names, aligned and not, of all dtypes, also to itself and with '
        'arrays that can not be joined. Monitor: full state of both packs '
        'before and after against concatenation by definition. Non-trivial: '
        'distinct (dtypes of both sides, lengths, alignment, names present, '
        'outcome).')
ASSUME = ['dtype of a joined channel is what numpy gives for joining the '
          'two arrays']


def makepack(cx, ks, n, base=None, names='maybe'):
    rng = cx.rng
    data = {}
    for k in ks:
        if base is not None and k in base and rng.random() < .8:
            kind = base[k]
        else:
            kind = rng.choice(gen.KINDS)
        data[k] = gen.column(rng, n, kind)
        if base is not None:
            base.setdefault(k, kind)
    nm = None
    if names == 'maybe':
        names = rng.random() < .6
    if names:
        nm = {k: rng.choice(gen.IDENTS) + str(i)
              for i, k in enumerate(ks)}
        if rng.random() < .1:
            # names can be empty too
            nm = {k: '' for k in nm}
        if rng.random() < .1 and nm:
            nm.pop(rng.choice(sorted(nm)))
        if rng.random() < .1:
            nm[rng.randint(0, 20)] = 'extra'
    items = list(data.items())
    rng.shuffle(items)
    p = ChannelPack(dict(items), nm)
    if rng.random() < .5:
        p.fn = rng.choice(('a.txt', 'dir/b.dbf', '', 'x'))
    return p


def joined(x, y):
    """The join of two frozen arrays, or None if numpy refuses."""
    def arr(fr, a):
        return a
    try:
        return np.concatenate((x, y))
    except Exception:
        return None


def append(cx, a, b):
    pre, opre = Snap(a, True), Snap(b, True)
    adata = {k: v.copy() for k, v in a.data.items()}
    bdata = {k: v.copy() for k, v in b.data.items()}
    bad = None
    if adata and bdata and set(adata) != set(bdata):
        bad = 'keys'
    elif pre.names and opre.names and set(pre.names) != set(opre.names):
        bad = 'names'
    want = {}
    if bad is None:
        if not adata:
            want = bdata
        elif not bdata:
            want = adata
        else:
            for k in adata:
                want[k] = joined(adata[k], bdata[k])
                if want[k] is None:
                    bad = 'join'
    cx.note('append', {k: (str(v.dtype), len(v)) for k, v in adata.items()},
            pre.names, '+', {k: (str(v.dtype), len(v)) for k, v in
                             bdata.items()}, opre.names, 'same' if a is b
            else '', 'bad:', bad)
    try:
        res = a.append_pack(b)
    except Exception as e:
        cx.check(bad is not None, 'append raised', repr(e))
        if bad in ('keys', 'names'):
            cx.check(isinstance(e, ValueError), 'append with differing',
                     bad, 'raised', repr(e))
        d = diff_deep(pre, Snap(a, True))
        cx.check(d is None, 'failed append (%s) altered the pack:' % bad, d)
        d = diff_deep(opre, Snap(b, True))
        cx.check(d is None, 'failed append altered the other pack:', d)
        cx.count('failed appends ' + bad)
        cx.sig(bad, len(adata), len(bdata), bool(pre.names))
        return False
    cx.check(bad is None, 'append with differing', bad, 'did not raise')
    cx.check(res is None or res is a, 'append returned', res)
    cx.check(set(a.data) == set(want), 'channels', sorted(a.data),
             'expected', sorted(want))
    for k in want:
        d = gen.same_array(a.data[k], want[k])
        cx.check(d is None, 'channel', k, 'after append:', d)
        d = gen.same_array(a(k, nof='ignore'), want[k])
        cx.check(d is None, 'channel call', k, 'after append:', d)
    wn = pre.names if pre.names else opre.names
    cx.check(dict(a.names) == wn, 'names', dict(a.names), 'expected', wn)
    cx.check(list(a.filenames) == pre.filenames + opre.filenames,
             'filenames', a.filenames, 'expected',
             pre.filenames + opre.filenames)
    cx.check(a.fn == pre.fn, 'fn', a.fn, 'expected', pre.fn)
    n = len(want[min(want)]) if want else 0
    w = pre.mindur is None or n >= pre.mindur
    cx.check(a.mask.dtype == bool and a.mask.tolist() == [w] * n,
             'mask after append', gen.maskstr(a.mask), 'length', n)
    cx.check((a.nof, a.mindur, a.FALLBACK_PREFIX) ==
             (pre.nof, pre.mindur, pre.prefix), 'settings changed')
    if a is not b:
        d = diff_deep(opre, Snap(b, True))
        cx.check(d is None, 'append altered the appended pack:', d)
    cx.sig('ok', sorted((k, str(v.dtype)) for k, v in adata.items()),
           sorted((k, str(v.dtype)) for k, v in bdata.items()),
           bool(pre.names), bool(opre.names), a is b)
    return True


def chain(cx):
    rng = cx.rng
    ks = gen.keys(rng, rng.choice((0, 1, 2, 3)))
    base = {}
    packs = [makepack(cx, ks, gen.length(rng, 40), base)
             for _ in range(rng.randint(2, 4))]
    if rng.random() < .3:
        packs[0] = ChannelPack()
    if rng.random() < .2:
        packs.append(ChannelPack())
    if rng.random() < .4:
        k2 = list(ks)
        r = rng.random()
        if r < .4 and k2:
            k2.pop()
        else:
            k2.append(max(k2 or [0]) + rng.randint(1, 3))
        packs.append(makepack(cx, k2, gen.length(rng, 20), base))
    for p in packs:
        if rng.random() < .3:
            p.mask = np.array(gen.boolmask(rng, len(p.mask)), dtype=bool)
        if rng.random() < .15:
            p.mindur = rng.randint(0, 12)
        if rng.random() < .15:
            p.nof = rng.choice(('nan', 'filter'))
    for _ in range(rng.randint(1, 6)):
        a, b = rng.choice(packs), rng.choice(packs)
        if rng.random() < .5:
            a = packs[0]
        if sum(map(len, a.data.values())) > 3000:
            continue
        append(cx, a, b)
    if a is not b:
        # nothing is shared that a change of one of them would show
        if rng.random() < .5:
            a, b = b, a
        snap = Snap(b, True)
        cx.note('alter', sorted(a.data))
        a.names[rng.randint(0, 5)] = 'altered'
        a.data[rng.randint(0, 5)] = np.zeros(len(a.mask))
        a.fn = 'altered.txt'
        a.names.pop(rng.choice(list(a.names)))
        a.data.pop(rng.choice(list(a.data)))
        a.filenames.append('more')
        a.mask = ~a.mask
        d = diff_deep(snap, Snap(b, True))
        cx.check(d is None, 'a change of one pack changed the other:', d)


def many(cx):
    """Many small packs appended in turn, as when reading many files."""
    rng = cx.rng
    ks = gen.keys(rng, rng.randint(1, 3))
    kinds = {k: rng.choice(gen.KINDS) for k in ks}
    total = {k: [] for k in ks}
    a = ChannelPack()
    a.fn = 'first'
    files = ['first']
    m = rng.randint(3, 30)
    cx.note('append', m, 'packs', kinds)
    for i in range(m):
        n = rng.randint(0, 5)
        b = ChannelPack({k: gen.column(rng, n, kinds[k]) for k in ks},
                        {k: 'n%d' % j for j, k in enumerate(ks)})
        b.fn = 'f%d' % i
        for k in ks:
            total[k] += b.data[k].tolist()
        files.append(b.fn)
        a.append_pack(b)
    for k in ks:
        got = a(k).tolist()
        cx.check(len(got) == len(total[k]) and all(
            gen.same(x, y) for x, y in zip(got, total[k])), 'channel', k,
            got, total[k])
    cx.check(a.filenames == files, 'filenames', a.filenames, files)
    cx.sig('many', m, sorted(kinds.items()))


PHASES = [Phase('chain', chain, 96000, 250000),
          Phase('many', many, 9000, 20000),
          Phase('many', bigpack.append, 120, 400)]
