"""Selecting text columns is a projection of the full read."""
import io

import numpy as np

import channelpack as cp
from rv import gen, textgen as tg
from rv.core import Phase
from rv.props import c13

PROP = 'C14'
LEVEL = 'exploration'
FILES = ['readtext.py']
RULE = ('Generated tables are read in full and again with a selection of '
        'columns in every form (int, list, tuple, set, range, in any order '
        'with repetitions, names dict), with names in the file, '
        'converters, stripping, from text, byte and file sources, by '
        'textpack and lazy_textpack; channels and names of the second '
        'read must be the projection of the table. Non-trivial: distinct '
        '(columns, selection, form, options).')
ASSUME = ['selected column numbers are not negative and exist in the file']


def selection(rng, ncols):
    """(the usecols argument, the set of columns)"""
    r = rng.random()
    if r < .2:
        c = rng.randrange(ncols)
        return c, {c}
    k = rng.randint(1, ncols)
    cols = rng.sample(range(ncols), k)
    if r < .35:
        cols.sort()
    elif r < .55:
        cols.sort(reverse=True)
    elif r < .75:
        cols += [rng.choice(cols) for _ in range(rng.randint(1, 4))]
        rng.shuffle(cols)
    form = rng.choice(('list', 'tuple', 'set', 'range', 'list', 'tuple',
                       'dict', 'frozenset'))
    if form == 'range':
        a = min(cols)
        return range(a, max(cols) + 1), set(range(a, max(cols) + 1))
    u = dict(list=list, tuple=tuple, set=set, frozenset=frozenset,
             dict=dict.fromkeys)[form](cols)
    return u, set(cols)


def select(cx):
    rng = cx.rng
    kind = rng.choice(('path', 'textio', 'textio', 'bytes', 'bytesenc'))
    t = tg.Table(cx, ncols=rng.choice((1, 2, 3, 3, 4, 5, 6, 9)),
                 nrows=rng.choice((1, 2, 3, 5, 8, 30)), encoding='utf-8')
    names = tg.field_names(rng, t)
    skip = rng.choice((0, 1, 1, 2, 4))
    head = tg.header(rng, skip, 'utf-8')
    kw = dict(delimiter=t.delim, skiprows=skip)
    hasnames = skip and rng.random() < .6
    if hasnames:
        head[-1] = tg.names_line(rng, t, names)
        kw['hasnames'] = True
    strip = rng.random() < .3
    if strip:
        kw['stripstrings'] = True
    if rng.random() < .15:
        kw['debug'] = True
    want = t.columns(strip)
    bytesrc = kind in ('bytes', 'bytesenc')
    if bytesrc and kind == 'bytes':
        for c in range(t.ncols):
            if t.kinds[c] == 's':
                col = [f[c].encode('utf-8') for f in t.fields]
                want[c] = [x.strip() if strip else x for x in col]
    if rng.random() < .3:
        c = rng.randrange(t.ncols)
        f = rng.choice((c13.conv_len, c13.conv_tag))
        kw['converters'] = {c: f}
        col = [x[c] for x in t.fields]
        want[c] = [f(x.encode('utf-8') if bytesrc else x) for x in col]
    data = tg.content(rng, head + t.lines)
    if bytesrc:
        if t.delim is not None:
            kw['delimiter'] = t.delim.encode('utf-8')
        if kind == 'bytesenc':
            kw['encoding'] = 'utf-8'

    def src():
        if kind == 'path':
            kw['encoding'] = 'utf-8'
            return tg.write(cx, data.encode('utf-8'))
        if bytesrc:
            return io.BytesIO(data.encode('utf-8'))
        return io.StringIO(data)
    fnames = names if kind != 'bytes' else [n.encode('utf-8') for n in names]
    full = cp.textpack(src(), **kw)
    for round in range(3):
        u, cols = selection(rng, t.ncols)
        kw2 = dict(kw)
        given = None
        if rng.random() < .3:
            given = {c: rng.choice(('n%d' % c, 'same', names[c], ''))
                     for c in cols}
            items = list(given.items())
            rng.shuffle(items)
            given = dict(items)
            kw2['names'] = dict(given)
            if rng.random() < .4:
                # said to be ignored with names
                kw2['usecols'] = selection(rng, t.ncols)[0]
        else:
            kw2['usecols'] = u
        cx.note('source', kind, 'keywords', kw2)
        was = {k: (v, list(v.items()) if isinstance(v, dict) else list(v))
               for k, v in kw2.items() if isinstance(v, (dict, list, set))}
        p = cp.textpack(src(), **kw2)
        for k, (v, items) in was.items():
            cx.check((list(v.items()) if isinstance(v, dict) else list(v)) ==
                     items, 'the argument', k, 'was altered to', v)
        cx.check(set(p.data) == cols, 'channels', sorted(p.data),
                 'selected', sorted(cols))
        for c in cols:
            d = tg.column_diff(p.data[c], want[c])
            cx.check(d is None, 'column', c, d, 'got', p.data[c][:9],
                     'expected', want[c][:9])
            d = gen.same_array(p.data[c], full.data[c])
            cx.check(d is None, 'column', c, 'in the full read', d)
        if given is not None:
            exp = given
        elif hasnames:
            exp = {c: fnames[c] for c in cols}
            cx.check(all(full.names[c] == fnames[c] for c in cols) and
                     len(full.names) == t.ncols, 'names of full read',
                     full.names, fnames)
        else:
            exp = {}
        cx.check(dict(p.names) == exp, 'names', dict(p.names), 'expected',
                 exp)
        cx.count('projections')
        cx.sig(kind, t.ncols, t.nrows, repr(u), given, hasnames, strip)


def lazy(cx):
    """lazy_textpack with usecols."""
    rng = cx.rng
    t = tg.LazyTable(cx)
    ncols, names = t.ncols, t.names
    data = '\n'.join(t.head + t.lines) + '\n'
    kind = rng.choice(('text', 'bytes', 'path'))
    kw = {}
    if kind == 'text':
        def src(): return io.StringIO(data)
    elif kind == 'bytes':
        def src(): return io.BytesIO(data.encode('utf-8'))
        kw = dict(encoding='utf-8')
    else:
        path = tg.write(cx, data.encode('utf-8'))
        kw = dict(encoding='utf-8')
        def src(): return path
    u, cols = selection(rng, ncols)
    cx.note('lazy_textpack', kind, 'usecols', u)
    p = cp.lazy_textpack(src(), usecols=u, **kw)
    want = t.columns()
    cx.check(set(p.data) == cols, 'channels', sorted(p.data), 'selected',
             sorted(cols))
    for c in cols:
        d = tg.column_diff(p.data[c], want[c])
        cx.check(d is None, 'column', c, d, 'got', p.data[c][:9],
                 'expected', want[c][:9])
    exp = {c: names[c] for c in cols if c in names}
    cx.check(dict(p.names) == exp, 'names', dict(p.names), 'expected', exp)
    given = {c: 'g%d' % c for c in rng.sample(range(ncols), rng.randint(1, ncols))}
    arg = dict(given)
    if rng.random() < .5:
        # said to be ignored with names
        kw['usecols'] = selection(rng, ncols)[0]
    cx.note('lazy_textpack', kind, 'names', arg, kw)
    p = cp.lazy_textpack(src(), names=arg, **kw)
    cx.check(arg == given, 'the names given were altered to', arg)
    cx.check(dict(p.names) == given and set(p.data) == set(given),
             'given names', given, 'got', dict(p.names), sorted(p.data))
    for c in given:
        d = tg.column_diff(p.data[c], want[c])
        cx.check(d is None, 'column', c, d)
    cx.sig('lazy', kind, ncols, repr(u), bool(names), t.delim)


def many(cx):
    """Columns of a text of very many lines or columns."""
    rng = cx.rng
    nr, nc = rng.choice(((70000, 3), (66000, 2), (20, 1500), (3, 9000)))
    delim = rng.choice((',', ';', '\t', None))
    sep = delim or ' '
    body = '\n'.join(sep.join('%d.5' % (r * nc + c) for c in range(nc))
                     for r in range(nr))
    names = ['n%d' % c for c in range(nc)]
    text = sep.join(names) + '\n' + body + '\n'
    kw = dict(delimiter=delim, skiprows=1, hasnames=True,
              debug=rng.random() < .3)
    cols = sorted(rng.sample(range(nc), rng.randint(1, min(nc, 5))))
    u = list(cols)
    rng.shuffle(u)
    if rng.random() < .5:
        src = io.StringIO(text)
    else:
        src = io.BytesIO(text.encode())
        kw['encoding'] = 'ascii'
        kw['delimiter'] = delim and delim.encode()
    cx.note('many', nr, nc, repr(delim), u)
    if rng.random() < .3:
        full, cols = cp.textpack(src, **kw), list(range(nc))
    else:
        full = cp.textpack(src, usecols=u, **kw)
    cx.check(sorted(full.data) == cols, 'channels', sorted(full.data)[:9],
             'expected', cols[:9])
    cx.check(full.names == {c: names[c] for c in cols}, 'names',
             sorted(full.names.items())[:9])
    for c in cols:
        want = np.arange(nr) * float(nc) + c + .5
        cx.check(np.array_equal(full.data[c], want), 'column', c, 'has',
                 len(full.data[c]), 'of', nr)
    cx.sig('many', nr, nc, delim, len(cols))


PHASES = [Phase('select', select, 40000, 120000),
          Phase('lazy', lazy, 16000, 50000),
          Phase('many', many, 24, 120)]
