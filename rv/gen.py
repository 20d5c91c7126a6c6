"""Generators and helpers shared by the pack checks."""
import ast
import datetime
import functools
import math
import os

import numpy as np

from rv.core import PKG

NAN = float('nan')


@functools.lru_cache(None)
def constants(sub=''):
    """Integer and string literals of the code under test.

    A dictionary for the generators (like a fuzzer's): values the code
    treats specially are tried more often than chance would have it.

    """
    ints, strs, floats = set(), set(), set()
    top = os.path.join(PKG, sub)
    for fn in sorted(os.listdir(top)):
        if not fn.endswith('.py'):
            continue
        try:
            with open(os.path.join(top, fn), 'rb') as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            continue
        docs = set()
        for node in ast.walk(tree):
            if isinstance(node, ast.Expr) and isinstance(node.value,
                                                         ast.Constant):
                docs.add(id(node.value))
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and id(node) not in docs:
                v = node.value
                if type(v) is int:
                    ints.add(v)
                elif type(v) is float:
                    floats.add(v)
                elif type(v) is str and 0 < len(v) <= 30:
                    strs.add(v)
                elif type(v) is bytes and 0 < len(v) <= 30:
                    try:
                        strs.add(v.decode('ascii'))
                    except UnicodeDecodeError:
                        pass
    return sorted(ints), sorted(strs), sorted(floats)


def const_int(rng, lo, hi, sub=''):
    """An integer literal of the code, or a neighbour, within bounds."""
    ints = [i for i in constants(sub)[0] if lo <= i <= hi]
    if not ints:
        return rng.randint(lo, hi)
    v = rng.choice(ints) + rng.choice((-1, 0, 0, 1))
    return min(hi, max(lo, v))


def length(rng, big=400):
    """A length; mostly small, sometimes a special or a big one."""
    r = rng.random()
    if r < .04:
        return 0
    if r < .10:
        return 1
    if r < .60:
        return rng.randint(2, 14)
    if r < .72:
        return const_int(rng, 0, big)
    if r < .92:
        return rng.randint(10, max(60, big) if big < 60 else 60)
    if r < .98:
        return rng.randint(min(60, big), big)
    return rng.choice((127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023,
                       1024, 1025)) if big >= 400 else big


KINDS = ('float', 'int', 'bool', 'str', 'object', 'datetime64', 'complex',
         'uint8', 'bytes', 'float32', 'int8', 'date', 'mixed', 'bigint',
         'timedelta64', 'uint64', 'float16', '>f8', '>i4', 'complex64',
         'longdouble')

FLOATS = (0.0, -0.0, 1.0, -1.0, .1, 1e300, -1e300, 5e-324, math.inf,
          -math.inf, math.nan, 2.0 ** 53, 1e16, 3.5)
STRS = ('', ' ', 'a', 'nan', 'None', 'True', '0', 'ch0', 'æøå', '日本', 'a b',
        'x' * 40, '\t', 'ch1')


def number(rng):
    r = rng.random()
    if r < .25:
        return rng.choice(FLOATS)
    if r < .6:
        return float(rng.randint(-5, 5))
    return rng.uniform(-1e3, 1e3)


def text(rng):
    r = rng.random()
    if r < .4:
        return rng.choice(STRS)
    if r < .5:
        s = constants()[1]
        return rng.choice(s)
    return ''.join(rng.choice('abcXYZ019_- é') for _ in
                   range(rng.randint(0, 6)))


def date(rng):
    return datetime.date(rng.randint(1900, 2100), rng.randint(1, 12),
                         rng.randint(1, 28))


def column(rng, n, kind=None):
    """A one-dimensional array of n elements of some kind."""
    kind = kind or rng.choice(KINDS)
    if kind == 'float':
        return np.array([number(rng) for _ in range(n)], dtype=float)
    if kind == 'float32':
        return np.array([rng.choice((math.nan, 1.5, -2.25, 0.1, 3e30, 7.0))
                         for _ in range(n)], dtype=np.float32)
    if kind == 'float16':
        return np.array([rng.choice((math.nan, 1.5, -2.25, 0.0, 7.0))
                         for _ in range(n)], dtype=np.float16)
    if kind == '>f8':
        return np.array([number(rng) for _ in range(n)], dtype='>f8')
    if kind == '>i4':
        return np.array([rng.randint(-10 ** 6, 10 ** 6) for _ in range(n)],
                        dtype='>i4')
    if kind == 'complex64':
        return np.array([complex(rng.randint(-9, 9), .5) for _ in range(n)],
                        dtype=np.complex64)
    if kind == 'longdouble':
        return np.array([rng.randint(-9, 9) for _ in range(n)],
                        dtype=np.longdouble) / 3
    if kind == 'int':
        return np.array([rng.randint(-9, 9) if rng.random() < .7
                         else const_int(rng, -10**6, 10**6)
                         for _ in range(n)], dtype=np.int64)
    if kind == 'bigint':
        return np.array([rng.choice((2**53, -2**60, 2**62 + 1, 3))
                         for _ in range(n)], dtype=np.int64)
    if kind == 'uint64':
        return np.array([rng.choice((2**63, 2**64 - 1, 0, 3))
                         for _ in range(n)], dtype=np.uint64)
    if kind == 'int8':
        return np.array([rng.randint(-128, 127) for _ in range(n)],
                        dtype=np.int8)
    if kind == 'uint8':
        return np.array([rng.randint(0, 255) for _ in range(n)],
                        dtype=np.uint8)
    if kind == 'bool':
        return np.array([rng.random() < .5 for _ in range(n)], dtype=bool)
    if kind == 'str':
        return np.array([text(rng) for _ in range(n)], dtype=str)
    if kind == 'bytes':
        return np.array([text(rng).encode('ascii', 'replace')
                         for _ in range(n)], dtype=bytes)
    if kind == 'complex':
        return np.array([complex(number(rng), number(rng))
                         for _ in range(n)], dtype=complex)
    if kind == 'datetime64':
        return np.array([date(rng) if rng.random() < .9 else 'NaT'
                         for _ in range(n)], dtype='datetime64[D]')
    if kind == 'timedelta64':
        return np.array([rng.randint(0, 10**6) for _ in range(n)],
                        dtype='timedelta64[s]')
    if kind == 'date':
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = date(rng) if rng.random() < .8 else None
        return a
    a = np.empty(n, dtype=object)
    for i in range(n):
        a[i] = rng.choice((None, 1, 2.5, math.nan, 'x', '', True, (1, 2),
                           date(rng), b'q'))
    return a


def dress(rng, a):
    """The same array, as a view of another one, or read-only."""
    r = rng.random()
    if r < .7:
        return a
    if r < .8:
        b = np.empty(2 * len(a) + 1, dtype=a.dtype)
        b[1:-1] = a.repeat(2)[1:] if len(a) else b[1:-1]
        b = b[1:len(b):2]
    elif r < .9:
        b = a[::-1].copy()[::-1]
    else:
        b = a.copy()
        b.flags.writeable = False
    return b


def boolmask(rng, n):
    """A list of bools of length n, with run structure of some kind."""
    style = rng.randint(0, 9)
    if style == 0:
        return [True] * n
    if style == 1:
        return [False] * n
    if style == 2:
        return [rng.random() < .5 for _ in range(n)]
    if style == 3:
        p = rng.choice((.05, .95))
        return [rng.random() < p for _ in range(n)]
    if style == 4 and n:
        m = [rng.random() < .5] * n
        i = rng.choice((0, n - 1, rng.randrange(n)))
        m[i] = not m[i]
        return m
    if style == 5:
        k = rng.randint(1, 5)
        o = rng.randint(0, 9)
        return [(i + o) // k % 2 == 0 for i in range(n)]
    # runs
    m = []
    v = rng.random() < .5
    mx = rng.choice((2, 3, 6, 20))
    while len(m) < n:
        m += [v] * rng.randint(1, mx)
        v = not v
    return m[:n]


def keys(rng, k):
    """k distinct channel numbers."""
    style = rng.random()
    if style < .6:
        return list(range(k))
    if style < .8:
        res = set()
        while len(res) < k:
            res.add(rng.randint(0, 30))
        res = list(res)
    else:
        res = set()
        while len(res) < k:
            res.add(rng.choice((rng.randint(-20, 300), rng.randint(0, 12),
                                const_int(rng, -10**9, 10**9))))
        res = list(res)
    rng.shuffle(res)
    return res


IDENTS = ('a', 'b', 'x1', 'time', 'speed', 'Temp', 'V', 'åäö', 'ch', 'chx',
          'ch0x', 'data', 'mask', 'rpm_2', 'ch1', 'ch0', 'ch2', 'ch10',
          'count', 'index', 'None_', 'self', 'part', 'nof', 'names')


def runs(mask):
    """Maximal True runs as (start, stop), by definition."""
    n = len(mask)
    return [(i, next((j for j in range(i, n) if not mask[j]), n))
            for i in range(n) if mask[i] and (i == 0 or not mask[i - 1])]


def fast_runs(mask):
    res, start = [], None
    for i, e in enumerate(list(mask) + [False]):
        if e and start is None:
            start = i
        elif not e and start is not None:
            res.append((start, i))
            start = None
    return res


def keep_runs(mask, pred):
    """mask with the runs whose length does not satisfy pred made False."""
    m = list(mask)
    for a, b in fast_runs(mask):
        if not pred(b - a):
            m[a:b] = [False] * (b - a)
    return m


def isnan(v):
    try:
        return bool(v != v)
    except Exception:
        return False


def same(a, b):
    """Same value, nan being the same as nan."""
    if a is b:
        return True
    if type(a) is float and type(b) is float:
        if a == b:
            return bool(a) or math.copysign(1, a) == math.copysign(1, b)
        return a != a and b != b
    if isinstance(a, (complex, np.complexfloating)) and \
       isinstance(b, (complex, np.complexfloating)):
        return same(float(a.real), float(b.real)) and \
            same(float(a.imag), float(b.imag))
    try:
        if bool(a == b):
            return True
    except Exception:
        return False
    return isnan(a) and isnan(b)


def same_array(a, b, dtype=True):
    """Same length, dtype and elements. Return None or what differs."""
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
        return 'not an array: %s' % type(a if isinstance(b, np.ndarray)
                                         else b).__name__
    if a.shape != b.shape:
        return 'shape %s != %s' % (a.shape, b.shape)
    if dtype and a.dtype != b.dtype:
        return 'dtype %s != %s' % (a.dtype, b.dtype)
    if a.dtype != object and b.dtype == a.dtype and \
       a.tobytes() == b.tobytes():
        return None
    for i, (x, y) in enumerate(zip(a.tolist(), b.tolist())):
        if not same(x, y):
            return 'element %d: %r != %r' % (i, x, y)
    return None


def freeze(a):
    """An independent copy of an array to compare with later."""
    return (a.dtype, a.shape, list(a.tolist()))


def frozen_diff(a, fr):
    if not isinstance(a, np.ndarray):
        return 'not an array any more'
    if a.dtype != fr[0]:
        return 'dtype %s became %s' % (fr[0], a.dtype)
    if a.shape != fr[1]:
        return 'shape %s became %s' % (fr[1], a.shape)
    for i, (x, y) in enumerate(zip(a.tolist(), fr[2])):
        if not same(y, x) or type(x) is not type(y):
            return 'element %d: %r became %r' % (i, y, x)
    return None


def maskstr(m, n=120):
    s = ''.join('T' if e else 'F' for e in m)
    return s if len(s) <= n else s[:n] + '..(%d)' % len(s)
