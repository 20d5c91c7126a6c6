"""Attribute validation and file names."""
import numpy as np

from channelpack import ChannelPack
from rv import gen
from rv.core import Phase
from rv.packmachine import Snap, diff_deep

PROP = 'C12'
LEVEL = 'exploration'
FILES = ['pack.py']
RULE = ('Sequences of valid and invalid assignments, deletions, fn settings '
        'and appends on several packs; after a refused one the whole '
        'observable state must be as before, after an accepted one only that '
        'attribute differs; file names are compared with a list model. '
        'Non-trivial: distinct (attribute, value, outcome, number of file '
        'names).')
ASSUME = []

BAD = dict(
    nof=('Nan', 'NAN', 'ignore', '', 0, False, 'filt', 1.5, b'nan', ' nan'),
    FALLBACK_PREFIX=(None, 1, b'ch', ['ch'], 1.5, True, ('c',)),
    mask=(None, [True], 'T', True, (True, False), 5, {1: True}, range(3)),
    mindur=(1.5, '2', 2.0, [3], b'1', (1,), np.float64(2), {}, object()),
    fn=(None, 1, b'file', ['f'], 2.5, ('f',), {}, True))
ERR = dict(nof=ValueError, FALLBACK_PREFIX=TypeError, mask=TypeError,
           mindur=TypeError, fn=TypeError)
UNDELETABLE = ('FALLBACK_PREFIX', 'data', 'fn', 'filenames', 'names', 'nof',
               'mindur')
FNS = ('a.txt', '', 'dir/b.csv', 'å.dbf', 'x' * 50, 'C:\\f.xls')


def parts_ok(cx, p, op):
    cx.check(len(p.parts()) == len(gen.fast_runs(p.mask.tolist())),
             'parts after', op, p.parts(), gen.maskstr(p.mask))


def sequence(cx):
    rng = cx.rng
    ks = gen.keys(rng, rng.randint(1, 3))

    def make():
        n = gen.length(rng, 20)
        p = ChannelPack({k: gen.column(rng, n, 'float') for k in ks},
                        {k: 'n%d' % i for i, k in enumerate(ks)})
        return p
    packs = [make() for _ in range(rng.randint(1, 3))]
    files = {id(p): [''] for p in packs}
    for p in packs:
        cx.check(p.fn == '' and p.filenames == [''], 'initial file name',
                 p.fn, p.filenames)
        cx.check(p.nof is None and p.mindur is None and
                 p.FALLBACK_PREFIX == 'ch', 'initial attributes')
        if rng.random() < .5:
            p.mask = np.array(gen.boolmask(rng, len(p.mask)), dtype=bool)
        if rng.random() < .3:
            p.nof = rng.choice(('nan', 'filter'))
        if rng.random() < .3:
            p.mindur = rng.randint(0, 5)
    for _ in range(rng.randint(3, 12)):
        p = rng.choice(packs)
        pre = Snap(p, True)
        op = rng.randint(0, 9)
        if op <= 3:
            attr = rng.choice(sorted(BAD))
            v = rng.choice(BAD[attr])
            if attr == 'nof' and v == 0 and v is False:
                pass
            cx.note(attr, '=', v)
            if attr == 'mindur' and isinstance(v, int):
                continue
            try:
                setattr(p, attr, v)
            except ERR[attr]:
                pass
            except Exception as e:
                cx.fail('%s = %r raised %r' % (attr, v, e))
            else:
                cx.fail('%s = %r was accepted' % (attr, v))
            d = diff_deep(pre, Snap(p, True))
            cx.check(d is None, 'refused', attr, '=', v, 'altered:', d)
            parts_ok(cx, p, attr)
            cx.sig(attr, repr(v)[:30], 'refused', len(p.filenames))
        elif op == 4:
            attr = rng.choice(UNDELETABLE)
            cx.note('del', attr)
            try:
                delattr(p, attr)
            except AttributeError:
                pass
            else:
                cx.fail('del %s was accepted' % attr)
            d = diff_deep(pre, Snap(p, True))
            cx.check(d is None, 'refused del', attr, 'altered:', d)
            cx.sig('del', attr, len(p.filenames))
        elif op <= 6:
            fn = rng.choice(FNS)
            cx.note('fn =', fn)
            p.fn = fn
            files[id(p)][0] = fn
            post = Snap(p, True)
            cx.check(post.fn == fn, 'fn', post.fn)
            post.fn, post.filenames = pre.fn, pre.filenames
            d = diff_deep(pre, post)
            cx.check(d is None, 'fn assignment altered:', d)
        elif op == 7:
            q = rng.choice(packs)
            if sum(map(len, p.data.values())) > 2000 or \
               len(p.filenames) > 60:
                continue
            cx.note('append', packs.index(q), 'to', packs.index(p))
            p.append_pack(q)
            files[id(p)] += list(files[id(q)])
        elif op == 8:
            attr, v = rng.choice((('nof', 'nan'), ('nof', 'filter'),
                                  ('nof', None), ('FALLBACK_PREFIX', 'x'),
                                  ('FALLBACK_PREFIX', 'ch')))
            cx.note(attr, '=', v)
            setattr(p, attr, v)
            cx.check(getattr(p, attr) == v, attr, 'is', getattr(p, attr))
            post = Snap(p, True)
            if attr == 'nof':
                post.nof = pre.nof
            else:
                post.prefix = pre.prefix
            d = diff_deep(pre, post)
            cx.check(d is None, attr, 'assignment altered:', d)
        else:
            cx.note('other attributes')
            p.remark = 'mine'
            cx.check(p.remark == 'mine', 'own attribute')
            del p.remark
        for q in packs:
            cx.check(list(q.filenames) == files[id(q)], 'filenames',
                     q.filenames, 'expected', files[id(q)])
            cx.check(q.fn == q.filenames[0], 'fn', q.fn, 'filenames',
                     q.filenames)
        cx.sig(op, [len(f) for f in files.values()])


def badvalues(cx):
    """Every invalid value in turn."""
    combos = [(a, v) for a in sorted(BAD) for v in BAD[a]]
    attr, v = combos[cx.index % len(combos)]
    rng = cx.rng
    n = gen.length(rng, 20)
    p = ChannelPack({0: gen.column(rng, n, 'float')}, {0: 'a'})
    p.mask = np.array(gen.boolmask(rng, n), dtype=bool)
    p.fn = 'f'
    if rng.random() < .5:
        p.mindur = 2
    pre = Snap(p, True)
    cx.note(attr, '=', v)
    try:
        setattr(p, attr, v)
    except ERR[attr]:
        pass
    except Exception as e:
        cx.fail('%s = %r raised %r' % (attr, v, e))
    else:
        cx.fail('%s = %r was accepted' % (attr, v))
    d = diff_deep(pre, Snap(p, True))
    cx.check(d is None, 'refused', attr, '=', v, 'altered:', d)
    parts_ok(cx, p, attr)
    cx.sig(attr, repr(v)[:30])


PHASES = [Phase('badvalues', badvalues, 2000, 10000),
          Phase('sequence', sequence, 72000, 200000)]
