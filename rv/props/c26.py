"""Excel dates convert to the right calendar date and time."""
import datetime
from fractions import Fraction

from channelpack.xlrd import xldate
from rv.core import Phase

PROP = 'C26'
LEVEL = 'exploration'
FILES = ['xlrd/xldate.py']
RULE = ('Every day number of both date systems is converted to tuple and '
        'datetime and back and compared with the proleptic calendar of '
        'the datetime module; times of day are tried at every second of '
        'some days, at random fractions and next to rounding boundaries, '
        'against exact rational arithmetic; out of range values and tuples '
        'must raise the documented errors. Non-trivial: distinct (system, '
        'block of days) or serial numbers.')
ASSUME = ['a time within 1e-6 ms (s) of a rounding tie may go either way']

# day 0 of the calendar for real dates
BASE = (datetime.date(1899, 12, 30).toordinal(),
        datetime.date(1904, 1, 1).toordinal())
FIRST = (61, 1)
LAST = tuple(datetime.date(9999, 12, 31).toordinal() - b for b in BASE)
BLOCK = 4000


def nblocks():
    return [(mode, lo) for mode in (0, 1)
            for lo in range(FIRST[mode], LAST[mode] + 1, BLOCK)]


BLOCKS = nblocks()


def days(cx):
    """All days, both systems: exhaustive."""
    mode, lo = BLOCKS[cx.index]
    hi = min(lo + BLOCK, LAST[mode] + 1)
    as_tuple, as_dt = xldate.xldate_as_tuple, xldate.xldate_as_datetime
    from_date = xldate.xldate_from_date_tuple
    base = BASE[mode]
    rng = cx.rng
    for n in range(lo, hi):
        d = datetime.date.fromordinal(base + n)
        ymd = (d.year, d.month, d.day)
        t = as_tuple(float(n), mode)
        if t != ymd + (0, 0, 0):
            cx.fail('xldate_as_tuple(%d, %d) gave %r expected %r' % (
                n, mode, t, ymd))
        back = from_date(ymd, mode)
        if back != n:
            cx.fail('xldate_from_date_tuple(%r, %d) gave %r expected %r' % (
                ymd, mode, back, n))
        got = as_dt(float(n), mode)
        if got != datetime.datetime(*ymd):
            cx.fail('xldate_as_datetime(%d, %d) gave %r expected %r' % (
                n, mode, got, d))
    cx.count('assertions', 3 * (hi - lo))
    cx.count('days compared', hi - lo)
    # the same at a time of day
    for _ in range(40):
        n = rng.randrange(lo, hi)
        one(cx, n + rng.random(), mode)
    cx.sig('days', mode, lo)


def near_tie(x):
    """Both roundings if x (Fraction) is very near a tie, else one."""
    f = x.numerator // x.denominator
    r = x - f
    if abs(r - Fraction(1, 2)) < Fraction(1, 10 ** 6):
        return {f, f + 1}
    return {f + 1 if r > Fraction(1, 2) else f}


def exp_dates(x, mode):
    """Sets of datetimes to the ms and to the second, exactly."""
    X = Fraction(x)
    n = int(x)
    frac = X - n
    base = datetime.datetime.fromordinal(BASE[mode])
    ms = {datetime.timedelta(days=n, milliseconds=k)
          for k in near_tie(frac * 86400000)}
    ss = {datetime.timedelta(days=n, seconds=k)
          for k in near_tie(frac * 86400)}
    return base, ms, ss


def one(cx, x, mode):
    base, ms, ss = exp_dates(x, mode)
    try:
        wd = {base + d for d in ms}
        wt = {(base + d).timetuple()[:6] for d in ss}
    except OverflowError:
        try:
            t = xldate.xldate_as_tuple(x, mode)
        except xldate.XLDateTooLarge:
            cx.count('too large')
        else:
            cx.check(len(ss) > 1, 'xldate_as_tuple', repr(x), mode, t)
        return
    got = xldate.xldate_as_datetime(x, mode)
    cx.check(got in wd, 'xldate_as_datetime', repr(x), mode, 'gave', got,
             'expected', wd)
    t = xldate.xldate_as_tuple(x, mode)
    cx.check(t in wt, 'xldate_as_tuple', repr(x), mode, 'gave', t,
             'expected', wt)
    back = xldate.xldate_from_datetime_tuple(t, mode)
    cx.check(abs(back - x) <= .5 / 86400 + 1e-9, 'back from', t, 'gave',
             repr(back), 'from', repr(x))
    t2 = xldate.xldate_as_tuple(back, mode)
    cx.check(t2 == t, 'round trip of', t, 'gave', t2, 'by', repr(back))
    cx.count('times compared')


def pick_day(rng, mode):
    return rng.choice((
        FIRST[mode], FIRST[mode] + 1, LAST[mode], LAST[mode] - 1,
        rng.randint(FIRST[mode], LAST[mode]), rng.randint(30000, 60000),
        datetime.date(rng.choice((1904, 1999, 2000, 2001, 2100, 2400, 9999)),
                      rng.choice((2, 3, 12)), rng.choice((1, 28)))
        .toordinal() - BASE[mode] + rng.randint(1, 3)))


def times(cx):
    rng = cx.rng
    mode = rng.randint(0, 1)
    n = min(pick_day(rng, mode), LAST[mode])
    cx.note('day', n, 'mode', mode)
    for _ in range(60):
        r = rng.random()
        if r < .25:
            f = rng.random()
        elif r < .5:
            f = rng.randrange(86400) / 86400.0
        elif r < .75:
            # next to the rounding boundaries
            k = rng.choice((rng.randrange(86400) + .5,
                            rng.randrange(86400) + .9995,
                            rng.randrange(86400) - .0005,
                            86399.5, 86399.9995, 86399.4999, .5, .0005,
                            59.5, 3599.5, 43199.5))
            f = (k + rng.choice((0, 1e-5, -1e-5, 1e-3, -1e-3, 2e-4,
                                 -2e-4))) / 86400
        else:
            f = rng.choice((0.0, .5, .25, .75, 1 - 2 ** -20, 2 ** -20, .1,
                            1 / 3., .999, .9999, .99999, .999999, .9999999,
                            .99999999, .001))
        f = min(max(f, 0.0), 1 - 2 ** -30)
        x = n + f
        if int(x) != n:
            continue
        one(cx, x, mode)
        cx.sig(mode, n, f)


def seconds(cx):
    """Every second of a day."""
    rng = cx.rng
    mode = rng.randint(0, 1)
    n = min(pick_day(rng, mode), LAST[mode])
    d = datetime.datetime.fromordinal(BASE[mode] + n)
    lo = rng.choice(range(0, 86400, 7200))
    for s in range(lo, lo + 7200):
        h, m, sec = s // 3600, s // 60 % 60, s % 60
        want = (d.year, d.month, d.day, h, m, sec)
        x = xldate.xldate_from_datetime_tuple(want, mode)
        if abs(x - (n + s / 86400.)) > 1e-9:
            cx.fail('xldate_from_datetime_tuple(%r) gave %r' % (want, x))
        t = xldate.xldate_as_tuple(x, mode)
        if t != want:
            cx.fail('xldate_as_tuple(%r, %d) gave %r expected %r' % (
                x, mode, t, want))
        got = xldate.xldate_as_datetime(n + s / 86400., mode)
        if got != d + datetime.timedelta(seconds=s):
            cx.fail('xldate_as_datetime(%r, %d) gave %r' % (
                n + s / 86400., mode, got))
        f = xldate.xldate_from_time_tuple((h, m, sec))
        t = xldate.xldate_as_tuple(f, mode)
        if t != (0, 0, 0, h, m, sec):
            cx.fail('time %r by %r gave %r' % ((h, m, sec), f, t))
    cx.count('assertions', 4 * 7200)
    cx.count('seconds compared', 7200)
    cx.sig('seconds', mode, n, lo)


def raises(cx, exc, func, *args):
    try:
        r = func(*args)
    except exc:
        cx.count('errors raised as documented')
        cx.count('assertions')
    except xldate.XLDateError as e:
        cx.fail('%s%r raised %r, expected %s' % (func.__name__, args, e,
                                                 exc.__name__))
    else:
        cx.fail('%s%r gave %r, expected %s' % (func.__name__, args, r,
                                               exc.__name__))


def errors(cx):
    rng = cx.rng
    T = xldate.xldate_as_tuple
    mode = rng.randint(0, 1)
    raises(cx, xldate.XLDateNegative, T,
           -rng.choice((1e-9, .5, 1, 60, rng.uniform(0, 1e7))), mode)
    big = LAST[mode] + 1
    raises(cx, xldate.XLDateTooLarge, T,
           big + rng.choice((0, .5, 1, 1e6, rng.random())), mode)
    raises(cx, xldate.XLDateAmbiguous, T,
           rng.choice((1, 59, 60, 60.5, rng.uniform(1, 60.99))), 0)
    bad = rng.choice((2, -1, 3, None, 'x', 1900, 1904))
    raises(cx, xldate.XLDateBadDatemode, T, 40000., bad)
    raises(cx, xldate.XLDateBadDatemode, xldate.xldate_from_date_tuple,
           (2000, 1, 1), bad)
    D = xldate.xldate_from_date_tuple
    y, m, d = rng.choice((1899, 10000, 0, -5, 2000, 1900, 2100, 2023,
                          rng.randint(1900, 9999))), \
        rng.choice((0, 13, -1, 2, 2, 4, 12, 1, 6)), \
        rng.choice((0, 32, 31, 30, 29, 28, -1, 1, 15))
    if rng.random() < .15:
        # close to the first day that has a number
        k = rng.choice((rng.randint(-3, 3), rng.randint(-70, 70)))
        e = datetime.date.fromordinal(BASE[mode] + (60, 0)[mode] + k)
        y, m, d = e.year, e.month, e.day
    try:
        dt = datetime.date(y, m, d)
    except ValueError:
        dt = None
    n = dt and dt.toordinal() - BASE[mode]
    if (y, m, d) != (0, 0, 0):
        if dt is None or not 1900 <= y <= 9999:
            raises(cx, xldate.XLDateBadTuple, D, (y, m, d), mode)
        elif mode == 0 and n < 61:
            raises(cx, xldate.XLDateAmbiguous, D, (y, m, d), mode)
        elif mode == 1 and n < 1:
            raises(cx, xldate.XLDateBadTuple, D, (y, m, d), mode)
        else:
            cx.check(D((y, m, d), mode) == n, 'tuple', (y, m, d), mode)
    h, mi, s = rng.choice((0, 23, 24, -1, 12, 25)), \
        rng.choice((0, 59, 60, -1, 30)), rng.choice((0, 59, 60, -1, 61, 30))
    F = xldate.xldate_from_time_tuple
    if 0 <= h < 24 and 0 <= mi < 60 and 0 <= s < 60:
        x = F((h, mi, s))
        cx.check(abs(x - (h * 3600 + mi * 60 + s) / 86400.) < 1e-12,
                 'time', (h, mi, s), x)
    else:
        raises(cx, xldate.XLDateBadTuple, F, (h, mi, s))
    # times alone
    x = rng.random()
    if x < 1 - 1e-5:
        t = T(x, mode)
        k = near_tie(Fraction(x) * 86400)
        cx.check(t[:3] == (0, 0, 0) and t[3] * 3600 + t[4] * 60 + t[5] in k,
                 'time', repr(x), t)
    cx.check(T(0.0, mode) == (0,) * 6, 'zero')
    cx.sig('errors', y, m, d, h, mi, s, mode)


PHASES = [Phase('days', days, len(BLOCKS), len(BLOCKS)),
          Phase('times', times, 9000, 100000),
          Phase('seconds', seconds, 480, 3000),
          Phase('errors', errors, 12000, 60000)]
