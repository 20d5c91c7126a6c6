"""Unreadable text data raises instead of giving wrong data."""
import contextlib
import io
import re

import channelpack as cp
from rv import gen, textgen as tg
from rv.core import Phase

PROP = 'C17'
LEVEL = 'fault_enumeration'
FILES = ['readtext.py']
RULE = ('A readable table gets one fault - a field that is no number in a '
        'numeric column, bytes that can not be decoded, or a converter '
        'raising at a given field - at every record in turn for small '
        'tables, at random in larger ones; reading must raise that error, '
        'also with debug, when the line number printed is that of the '
        'last good line of the file. The same table without the fault '
        'must be read. Non-trivial: distinct (table, fault kind, record, '
        'column, options).')
ASSUME = ['line numbers are checked for data without blank lines only']

BAD = ('abc', '1.2.3', '--5', '1,2,3', '5x', 'x5', '1 2', '1e', 'e5', '-',
       '.', ',', '0x10', '1..2', '+-1', 'N/A', '#REF', '  ', '1;;', 'None',
       "'5'", '12:30', '5 %', 'nane', '1e5.5')


class Boom(Exception):
    pass


def badfield(rng, t, point):
    while True:
        b = rng.choice(BAD)
        if point and rng.random() < .2:
            b = rng.choice(('1,5', '0,0', '-3,'))
        if t.delim is None and (not b.strip() or ' ' in b):
            continue
        if t.delim and t.delim in b:
            continue
        if t.delim and not b.strip() and (t.delim in tg.WHITE or
                                          t.ncols == 1):
            continue
        return b


def run(func, src, kw, debug):
    out = io.StringIO()
    exc = pack = None
    try:
        with contextlib.redirect_stdout(out):
            pack = func(src, debug=debug, **kw) if debug else func(src, **kw)
    except Exception as e:
        exc = e
    return pack, exc, out.getvalue()


def fault(cx):
    rng = cx.rng
    t = tg.Table(cx, ncols=rng.choice((1, 2, 3, 4, 6)),
                 nrows=rng.choice((1, 2, 3, 4, 5, 9, 40)), wants_blank=False,
                 encoding='utf-8', pads=False)
    skip = rng.choice((0, 0, 1, 2, 3, 7))
    head = tg.header(rng, skip, 'ascii')
    kw = dict(delimiter=t.delim, skiprows=skip)
    if skip and rng.random() < .5:
        head[-1] = tg.names_line(rng, t, tg.field_names(rng, t))
        kw['hasnames'] = True
    bytesrc = rng.random() < .3
    if rng.random() < .3:
        kw['stripstrings'] = True
    point = not any(k == 'n' and ',' in f for k, f in
                    zip(t.kinds, t.fields[0]))
    ncols = [c for c in range(t.ncols) if t.kinds[c] == 'n']
    rows = list(range(t.nrows))
    if t.nrows > 6:
        rows = rng.sample(rows, 5) + [t.nrows - 1]
    if bytesrc:
        if t.delim is not None:
            kw['delimiter'] = t.delim.encode('utf-8')
        if rng.random() < .5:
            kw['encoding'] = 'utf-8'

    def source(lines):
        data = '\n'.join(head + lines) + '\n' * rng.randint(0, 1)
        if bytesrc:
            return io.BytesIO(data.encode('utf-8'))
        return io.StringIO(data)

    for r in rows:
        kind = rng.choice(('field', 'field', 'conv'))
        lines = list(t.lines)
        kw2 = dict(kw)
        state = [0]
        if kind == 'field':
            if not ncols or r == 0:
                kind = 'conv'
            else:
                c = rng.choice(ncols)
                b = badfield(rng, t, point)
                fields = t.split(lines[r])
                fields[c] = b
                line = (t.delim or ' ').join(fields)
                # edges are stripped
                got = t.split(line)
                if len(got) != len(fields) or got[c] != b:
                    kind = 'conv'
                elif not got[c].strip() and c in (0, t.ncols - 1):
                    kind = 'conv'
                else:
                    lines[r] = line
                    want = ValueError
                    if rng.random() < .4:
                        cols = set(rng.sample(range(t.ncols), rng.randint(
                            1, t.ncols))) | {c}
                        kw2['usecols'] = rng.sample(sorted(cols), len(cols))
        if kind == 'conv':
            lines = list(t.lines)
            c = rng.randrange(t.ncols)
            b = None
            exc_t = rng.choice((Boom, ValueError, KeyError, IndexError,
                                StopIteration, AttributeError, TypeError,
                                OSError, ZeroDivisionError))
            boom = exc_t('boom %d' % r)

            def conv(s):
                i = state[0]
                state[0] += 1
                if i == r:
                    raise boom
                return i
            kw2['converters'] = {c: conv}
            want = exc_t
            if exc_t is StopIteration:
                # python turns that into RuntimeError in a generator
                want = (StopIteration, RuntimeError)
        cx.note('fault', kind, 'record', r, 'column', c, repr(b), kw2)
        results = []
        for debug in (False, True):
            state[0] = 0
            p, e, out = run(cp.textpack, source(lines), kw2, debug)
            cx.check(e is not None, 'no error with debug', debug, kind, 'at '
                     'record', r, 'column', c, repr(b), 'gave',
                     p and dict(p.data))
            cx.check(isinstance(e, want), 'expected', want, 'got', repr(e))
            if kind == 'conv' and want is not (StopIteration, RuntimeError):
                cx.check(e is boom or isinstance(want, tuple),
                         'another error than that of the converter', repr(e))
            results.append(e)
            if debug:
                m = re.findall(r'line number\D*(-?\d+)', out)
                cx.check(len(m) == 1, 'no line number in debug output', out)
                cx.check(int(m[0]) == skip + r, 'debug line number', m[0],
                         'the fault is on line', skip + r + 1)
                cx.count('line numbers checked')
        cx.check(type(results[0]) is type(results[1]), 'debug changes the '
                 'error', repr(results))
        cx.count('faults ' + kind)
        cx.sig(kind, r, c, b, t.nrows, t.ncols, skip, t.delim, bytesrc,
               kw.get('hasnames'))
    # and the table itself is fine
    p, e, out = run(cp.textpack, source(t.lines), kw, rng.random() < .5)
    cx.check(e is None, 'readable table raised', repr(e))
    cx.check(len(p.data) == t.ncols, 'channels')


def blanks(cx):
    """Blank lines around a fault change nothing in the error."""
    rng = cx.rng
    t = tg.Table(cx, ncols=rng.choice((1, 2, 3)), numeric=True,
                 nrows=rng.choice((2, 3, 6, 40)), wants_blank=True,
                 pads=False, empties=False)
    r = rng.randrange(1, t.nrows)
    c = rng.randrange(t.ncols)
    b = rng.choice(('abc', 'x', '1.2.3', '--', 'N/A'))
    if t.delim and t.delim in b:
        b = 'ab'
    fields = t.split(t.lines[t.first[r]])
    fields[c] = b
    lines = list(t.lines)
    lines[t.first[r]] = (t.delim or ' ').join(fields)
    for debug in (False, True):
        p, e, out = run(cp.textpack, io.StringIO('\n'.join(lines)),
                        dict(delimiter=t.delim), debug)
        cx.check(isinstance(e, ValueError), 'bad field', b, 'record', r,
                 'expected ValueError, got', repr(e))
    cx.sig('blanks', r, c, b, t.delim, len(lines))


def undecodable(cx):
    rng = cx.rng
    t = tg.Table(cx, ncols=rng.choice((1, 2, 3)), wants_blank=False,
                 nrows=rng.choice((1, 2, 5, 60)), encoding='ascii')
    r = rng.randrange(t.nrows)
    lines = [ln.encode('ascii') for ln in t.lines]
    ln = lines[r]
    c = rng.randrange(t.ncols)
    bad = rng.choice((b'\xff', b'\xc3', b'\xe9', b'\x80'))
    at = rng.randint(0, len(ln))
    lines[r] = ln[:at] + bad + ln[at:]
    data = b'\n'.join(lines) + b'\n'
    try:
        data.decode('utf-8')
        return
    except UnicodeDecodeError:
        pass
    path = tg.write(cx, data)
    for debug in (False, True):
        p, e, out = run(cp.textpack, path, dict(delimiter=t.delim,
                                                encoding='utf-8'), debug)
        cx.check(isinstance(e, UnicodeDecodeError), 'undecodable bytes at '
                 'record', r, 'gave', repr(e), p and dict(p.data))
    cx.sig('undecodable', r, at, bad, t.delim)


PHASES = [Phase('fault', fault, 36000, 80000),
          Phase('blanks', blanks, 9000, 20000),
          Phase('undecodable', undecodable, 4800, 9600)]
