"""Channel references resolve to the right channel or raise KeyError."""
import re

import numpy as np

from channelpack import ChannelPack
from rv import gen
from rv.core import Phase

PROP = 'C09'
LEVEL = 'exploration'
FILES = ['pack.py']
RULE = ('Packs with sparse keys, names resembling fallback strings, '
        'changed prefixes; references of every form, right and wrong, are '
        'resolved by the documented order and compared with the channel '
        'returned (each channel holds data telling its number) or the '
        'KeyError. Non-trivial: distinct (keys, names, prefix, reference).')
ASSUME = ['the fallback prefix is a valid identifier',
          'for a name given to several channels any of them may be meant']


def resolve(keys, names, prefix, ref):
    """Set of channel numbers meant, empty for KeyError."""
    if isinstance(ref, int):
        return {ref} & set(keys)
    hits = [k for k, nm in names.items() if nm == ref]
    if len(hits) == 1:
        return set(hits) & set(keys)
    if hits:
        return set(hits) & set(keys) or set()
    if ref.startswith(prefix):
        tail = ref[len(prefix):]
        if tail and all(c in '0123456789' for c in tail):
            return {int(tail)} & set(keys)
    return set()


NAMES = ('speed', 'Engine speed', 'rpm', 'ch0', 'ch1', 'ch2', 'ch10', 'ch',
         'x', 'x1', 'x2', '', ' a', 'a b c', 'æ å', 'ch1x', 'CH1', '1', '0',
         'ch 1', 'fallback', 'n5', 'Time (s)', 'a.b', 'a+b', '(x', 'chch1',
         'ch-1', 'None', 'speed\tkm/h', 'Force\n(N)', '\ttab first',
         'no\u00a0break', 'Load  cell 1')
PREFIXES = ('ch', 'ch', 'ch', 'x', 'n', 'col_', 'åäö', 'c', 'chan1_', 'a1',
            'CH')


def setup(cx):
    rng = cx.rng
    ks = gen.keys(rng, rng.randint(1, 5))
    names = {}
    if rng.random() < .8:
        pool = list(NAMES)
        rng.shuffle(pool)
        for k in ks:
            if rng.random() < .85:
                names[k] = pool.pop()
        if rng.random() < .25:
            names[max(ks) + rng.randint(1, 4)] = pool.pop()
        if rng.random() < .1:
            k = rng.choice(ks)
            names[k] = rng.choice(list(names.values()) or ['q'])
        if rng.random() < .3:
            for k in list(names):
                if rng.random() < .4:
                    names[k] = 'ch%d' % rng.choice(ks + [0, 1, 2])
        if rng.random() < .15:
            k = rng.choice(ks)
            names[k] = rng.choice(gen.constants()[1])
    items = list(names.items())
    rng.shuffle(items)
    names = dict(items)
    n = rng.randint(1, 4)
    p = ChannelPack({k: np.arange(n) + 1000 * i for i, k in
                     enumerate(ks)}, names)
    prefix = 'ch'
    if rng.random() < .4:
        prefix = rng.choice(PREFIXES)
        p.FALLBACK_PREFIX = prefix
    return p, ks, names, prefix


def refs(cx, ks, names, prefix):
    rng = cx.rng
    res = list(ks) + [max(ks) + 1, min(ks) - 1, rng.randint(-5, 40)]
    res += list(names.values())
    for k in ks + [rng.randint(0, 30)]:
        if k >= 0:
            s = str(k)
            res += [prefix + s, prefix + s + rng.choice(
                ('x', ' ', '\n', '.0', '_', 'a1', '-', ',2', '\t', 'ch')),
                rng.choice((' ', 'x', '_', '-')) + prefix + s,
                prefix.upper() + s, prefix + ' ' + s, s, 'ch' + s,
                prefix + '0' * rng.randint(1, 3) + s,
                prefix + s + prefix, prefix + '+' + s, prefix + prefix + s]
    res += ['', prefix, 'nosuchname', prefix + 'x', rng.choice(NAMES)]
    for nm in names.values():
        res += [nm + 'z', nm[:-1], nm.swapcase(), nm + ' ', nm.strip()]
    return res


def one(cx, p, ks, names, prefix, ref):
    rng = cx.rng
    want = resolve(ks, names, prefix, ref)
    dup = isinstance(ref, str) and \
        sum(nm == ref for nm in names.values()) > 1
    try:
        form = rng.randint(0, 2)
        if form == 0:
            got = p(ref)
        elif form == 1:
            got = p(ref, nof='ignore')
        else:
            got = p(ref, part=0)
    except KeyError:
        cx.check(not want or dup, 'reference', ref, 'raised KeyError, '
                 'expected channel', want, 'names', names, 'prefix', prefix)
        cx.count('KeyErrors')
        cx.sig('none', sorted(ks), sorted(names.items()), prefix, ref)
    else:
        cx.check(any(gen.same_array(got, p.data[k]) is None for k in want),
                 'reference', ref, 'gave', got, 'expected channel', want,
                 'names', names, 'prefix', prefix, 'data', p.data)
        cx.count('resolved')
        cx.sig(sorted(ks), sorted(names.items()), prefix, ref)
    return want if not dup else None


def lookup(cx):
    p, ks, names, prefix = setup(cx)
    cx.note('keys', ks, 'names', names, 'prefix', prefix)
    rs = refs(cx, ks, names, prefix)
    for ref in cx.rng.sample(rs, min(len(rs), 25)):
        want = one(cx, p, ks, names, prefix, ref)
        if want is None:
            continue
        if not want:
            try:
                r = p.name(ref)
            except KeyError:
                pass
            else:
                cx.fail('name(%r) returned %r' % (ref, r))
            try:
                r = p.name(ref, fallback=True)
            except KeyError:
                pass
            else:
                cx.fail('name(%r, fallback=True) returned %r' % (ref, r))
            continue
        k = next(iter(want))
        fb = p.name(ref, fallback=True)
        cx.check(fb == prefix + str(k), 'name', ref, 'fallback', fb)
        fb = p.name(ref, firstwordonly=cx.rng.choice((True, 'zz', False)),
                    fallback=True)
        cx.check(fb == prefix + str(k), 'name', ref, 'fallback', fb)
        if k not in names:
            continue
        nm = names[k]
        cx.check(p.name(ref) == nm, 'name', ref, p.name(ref), nm)
        cx.check(p.name(ref, firstwordonly=False) == nm, 'name', ref)
        words = nm.split()
        if words:
            got = p.name(ref, firstwordonly=True)
            cx.check(got == words[0], 'first word of', nm, got)
        rx = cx.rng.choice((r'\w+', r'\d+', r'[A-Za-z]+$', r'.', r'\s\w',
                            r'(?<= )\w+', r'a', r'ch(\d)', r'[^ ]+ [^ ]+'))
        ms = re.findall(rx, nm)
        try:
            got = p.name(ref, firstwordonly=rx)
        except ValueError:
            cx.check(not ms, 'name', ref, rx, 'raised, expected', ms[:1])
        else:
            cx.check(ms and got == ms[0], 'name', ref, rx, got, ms)


def foreign(cx):
    """References that are neither integers nor strings."""
    rng = cx.rng
    p, ks, names, prefix = setup(cx)
    k = rng.choice(ks)
    cx.note('keys', ks, 'names', names)
    for ref in (k + .5, k + .25, k - .75, float('nan'), None, (k,), (),
                str(k).encode(), (prefix + str(k)).encode(), complex(k, 1),
                float('inf'), slice(k, k + 1), Ellipsis, [k], {k},
                np.float64(k + .5), object()):
        for f in (p, p.name):
            try:
                got = f(ref)
            except (KeyError, TypeError):
                cx.count('refused')
            else:
                cx.fail('reference %r gave %r; keys %r' % (ref, got, ks))
        cx.sig('foreign', type(ref).__name__, sorted(ks))


def roundtrip(cx):
    """name(..., fallback=True) can be used as a reference."""
    rng = cx.rng
    p, ks, names, prefix = setup(cx)
    cx.note('keys', ks, 'names', names)
    for pf in (prefix, rng.choice(PREFIXES)):
        p.FALLBACK_PREFIX = pf
        for k in ks:
            if k < 0:
                continue
            s = p.name(k, fallback=True)
            cx.check(s == pf + str(k), 'fallback name', s)
            if s not in names.values():
                d = gen.same_array(p(s), p.data[k])
                cx.check(d is None, 'pack(%r)' % s, d)
        for ref in rng.sample(refs(cx, ks, names, prefix), 8):
            one(cx, p, ks, names, pf, ref)
    # names can be changed at any time
    k = rng.choice(ks)
    p.names[k] = 'renamed'
    d = gen.same_array(p('renamed'), p.data[k])
    cx.check(d is None, 'renamed channel', d)
    cx.check(p.name(k) == 'renamed', 'name after renaming')
    del p.names[k]
    try:
        p('renamed')
    except KeyError:
        pass
    else:
        cx.fail('a removed name is still found')


PHASES = [Phase('lookup', lookup, 72000, 200000),
          Phase('foreign', foreign, 6000, 20000),
          Phase('roundtrip', roundtrip, 36000, 100000)]
