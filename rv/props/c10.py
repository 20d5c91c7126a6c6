"""Containers: integer keys, flat arrays, otherwise dicts."""
import collections
import datetime
import decimal
import fractions
import types

import numpy as np

from channelpack import ChannelPack
from rv import gen
from rv.core import Phase

PROP = 'C10'
LEVEL = 'exploration'
FILES = ['pack.py']
RULE = ('Random sequences of dict operations, with valid and invalid keys '
        'and values and every form of argument, on the data and names of a '
        'pack, against an ordinary dict; after each operation keys, values, '
        'order and return value are compared, after a refused one the '
        'container must be as before. Non-trivial: distinct (container, '
        'operation, form of argument, outcome, size).')
ASSUME = ['an argument breaking more than one rule may raise any of the '
          'errors']

BADKEYS = ('a', 'abc', '', 1.5, 2.0, None, (1,), b'x', 'ch1', 'longer key',
           np.float64(3), frozenset())


class Mapping(object):
    """A minimal mapping, not a dict."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def good_value(cx, isdata):
    rng = cx.rng
    if not isdata:
        return rng.choice(gen.IDENTS)
    n = rng.randint(0, 4)
    a = gen.dress(rng, gen.column(rng, n, rng.choice(
        ('float', 'int', 'str', 'bool', 'date') + gen.KINDS)))
    form = rng.randint(0, 4) if a.dtype.kind != 'O' else 4
    if form == 0:
        return a.tolist()
    if form == 1:
        return tuple(a.tolist())
    if form == 2:
        return range(n)
    return a


def bad_value(cx):
    """A value that makes no array of one dimension."""
    rng = cx.rng
    r = rng.randint(0, 5)
    if r == 0:
        return rng.choice((5, None, 'text', [[1, 2], [3, 4]],
                           np.zeros((2, 2)), np.array(3.0), [[1]],
                           np.zeros((1, 0)), True, {1: 2}, object(),
                           ((1, 2), (3, 4)), [[1, 2], [3]],
                           np.zeros((2, 1, 1))))
    if r == 1:
        return rng.choice((
            2.5, 0, -1, 1j, b'bytes', '', b'', (x for x in (1, 2)), set(),
            {1, 2}, {}, datetime.date(2020, 1, 2), Ellipsis, int, len,
            datetime.datetime(2020, 1, 2, 3), datetime.timedelta(1),
            datetime.time(1), decimal.Decimal('1.5'), fractions.Fraction(1, 3),
            frozenset((1,)), map(int, '12'), {1: 2}.values(), [[]], [(), ()],
            np.datetime64('2020-01-02'), np.timedelta64(3, 's'),
            np.float32(1), np.bool_(True), np.str_('abc')))
    a = gen.column(rng, rng.choice((1, 1, 2, 4)),
                   rng.choice(gen.KINDS))
    if r == 2:
        return a[:1].reshape(())
    if r == 3:
        return a[0] if np.ndim(a[0]) == 0 else a.reshape(1, -1)
    shape = rng.choice(((1, -1), (-1, 1), (1, 1, -1), (1, -1, 1)))
    a = a.reshape(shape)
    if r == 4 and a.dtype.kind != 'O':
        return a.tolist()
    return a


def asarray(v):
    return v if isinstance(v, np.ndarray) else np.array(v)


def content(c):
    return [(k, v) for k, v in c.items()]


def unchanged(cx, c, before, op):
    now = content(c)
    cx.check(len(now) == len(before) and all(
        k1 == k2 and type(k1) is type(k2) and v1 is v2
        for (k1, v1), (k2, v2) in zip(now, before)),
        'refused', op, 'changed the container to', now, 'from', before)


def invariant(cx, c, model, isdata, op):
    cx.check(isinstance(c, dict), 'not a dict after', op)
    cx.check(list(c) == list(model), 'keys', list(c), 'after', op,
             'expected', list(model))
    for k in c:
        cx.check(isinstance(k, int), 'key', k, 'after', op)
        if isdata:
            cx.check(isinstance(c[k], np.ndarray) and c[k].ndim == 1,
                     'value of', k, 'after', op, 'is', c[k])
            d = gen.same_array(c[k], asarray(model[k]))
            cx.check(d is None, 'value of', k, 'after', op, d)
        else:
            cx.check(c[k] == model[k], 'value of', k, 'after', op, c[k],
                     model[k])


def form_arg(rng, items):
    """items in some form accepted by dict.update, and its name"""
    r = rng.randint(0, 10)
    if r <= 1:
        return dict(items), 'dict'
    if r == 2:
        return types.MappingProxyType(dict(items)), 'mappingproxy'
    if r == 3:
        return Mapping(dict(items)), 'mapping'
    if r == 4:
        return list(items), 'pairs'
    if r == 5:
        return [list(i) for i in items], 'list pairs'
    if r == 6:
        return iter(items), 'iterator'
    if r == 7:
        return (i for i in items), 'generator'
    if r == 8:
        return zip([k for k, v in items], [v for k, v in items]), 'zip'
    if r == 9:
        return collections.UserDict(dict(items)), 'userdict'
    return collections.OrderedDict(items), 'ordereddict'


DUPFORMS = ('pairs', 'list pairs', 'iterator', 'generator', 'zip')


def form_pairs(rng, items):
    while True:
        arg, form = form_arg(rng, items)
        if form in DUPFORMS:
            return arg, form


def sequence(cx):
    rng = cx.rng
    isdata = rng.random() < .6
    items = [(k, good_value(cx, isdata)) for k in
             gen.keys(rng, rng.randint(0, 4))]
    arg, form = form_arg(rng, items)
    cx.note('data' if isdata else 'names', 'from', form, items)
    how = rng.randint(0, 3)
    p = ChannelPack()
    if how == 0 and form in ('dict', 'ordereddict', 'pairs'):
        p = ChannelPack(arg) if isdata else ChannelPack(names=arg)
        c = p.data if isdata else p.names
    elif how == 1:
        if isdata:
            p.data = arg
            c = p.data
        else:
            p.names = arg
            c = p.names
    else:
        c = type(p.data if isdata else p.names)(arg)
    model = dict(items)
    invariant(cx, c, model, isdata, 'construction from ' + form)
    for _ in range(rng.randint(2, 14)):
        step(cx, c, model, isdata)


def step(cx, c, model, isdata):
    rng = cx.rng
    before = content(c)
    op = rng.randint(0, 13)
    bad = rng.random() < .35
    ks = list(model)
    key = rng.choice(ks) if ks and rng.random() < .5 else \
        rng.randint(-3, 30)
    val = good_value(cx, isdata)
    badkind = ''
    if bad:
        if isdata and rng.random() < .5:
            val, badkind = bad_value(cx), 'value'
        else:
            key, badkind = rng.choice(BADKEYS), 'key'

    def refused(name, func):
        try:
            r = func()
        except (TypeError, ValueError) as e:
            want = TypeError if badkind == 'key' else ValueError
            cx.check(isinstance(e, want), name, 'with bad', badkind,
                     'raised', repr(e))
        else:
            cx.fail('%s with bad %s %r %r was accepted: %r' % (
                name, badkind, key, val, c))
        unchanged(cx, c, before, name)
        cx.sig(isdata, name, 'refused', badkind, repr(key)[:20], len(before))

    if op <= 2:
        cx.note('[%r] = %r' % (key, val))
        if bad:
            return refused('setitem', lambda: c.__setitem__(key, val))
        c[key] = val
        model[key] = val
        name = 'setitem'
    elif op <= 6:
        items = [(k, good_value(cx, isdata)) for k in
                 gen.keys(rng, rng.randint(0, 3))]
        name = 'update'
        if bad:
            items = [i for i in items if i[0] != key]
            items.insert(rng.randint(0, len(items)), (key, val))
        arg, form = form_arg(rng, items)
        if items and form in DUPFORMS and rng.random() < .3:
            # the same key again, the last one counts
            items.insert(rng.randint(0, len(items)), (
                rng.choice(items)[0], good_value(cx, isdata)))
            if bad:
                items = [i for i in items if i[0] == key or isinstance(
                    i[0], int)]
            arg, form = form_pairs(rng, items)
        inplace = rng.random() < .35
        name = ('|= ' if inplace else 'update ') + form
        cx.note(name, items)

        def doit():
            nonlocal c
            if inplace:
                c2 = c
                c2 |= arg
                cx.check(c2 is c, '|= gave another object')
            else:
                r = c.update(arg)
                cx.check(r is None, 'update returned', r)
        if bad:
            return refused(name, doit)
        doit()
        model.update(items)
    elif op == 7:
        cx.note('setdefault', key, val)
        name = 'setdefault'
        if key in model and not bad:
            w = c[key]
            if rng.random() < .3:
                r = c.setdefault(key)
            else:
                r = c.setdefault(key, val)
            cx.check(r is w, 'setdefault of present key returned', r)
        elif bad:
            if badkind == 'value' and key in model:
                return
            return refused(name, lambda: c.setdefault(key, val))
        else:
            r = c.setdefault(key, val)
            model.setdefault(key, val)
            cx.check(r is c[key], 'setdefault returned', r)
    elif op == 8:
        name = 'pop'
        k = rng.choice(ks) if ks and rng.random() < .7 else 999
        cx.note('pop', k)
        if k in model:
            w = c[k]
            r = c.pop(k)
            model.pop(k)
            cx.check(r is w, 'pop returned', r)
        else:
            try:
                c.pop(k)
            except KeyError:
                cx.check(c.pop(k, 'dflt') == 'dflt', 'pop default')
            else:
                cx.fail('pop of missing key')
    elif op == 9:
        name = 'del'
        if ks:
            k = rng.choice(ks)
            cx.note('del', k)
            del c[k]
            del model[k]
        else:
            try:
                del c[5]
            except KeyError:
                pass
            else:
                cx.fail('del of missing key')
    elif op == 10:
        name = 'kwargs'
        cx.note('update(a=...)')
        badkind = 'key'
        return refused('keyword', lambda: c.update(
            a=good_value(cx, isdata)))
    elif op == 11:
        name = 'malformed'
        arg = (rng.choice(([(1, 2, 3)], [(1,)], [5], 7, [(1, [2]), (3,)],
                           [None], 'abc', [(1, [2], [3])], {1}, 'ab', 2.5,
                           [()], [(1, [2]), 3], None)),)
        if rng.random() < .4:
            arg = tuple(form_arg(rng, [(k, good_value(cx, isdata))
                                       for k in gen.keys(rng, rng.randint(
                                           0, 2))])[0]
                        for _ in range(rng.randint(2, 3)))
        cx.note('update', arg)
        new = rng.random() < .3
        try:
            if new:
                type(c)(*arg)
            else:
                c.update(*arg)
        except (TypeError, ValueError, IndexError):
            unchanged(cx, c, before, 'malformed update')
        else:
            cx.fail('update(%r) was accepted' % (arg,))
        cx.sig(isdata, name, repr(arg))
        return
    elif op == 13:
        name = rng.choice(('popitem', 'clear', 'fromkeys', 'fromkeys'))
        cx.note(name)
        if name == 'popitem':
            if model:
                k, v = list(c.items())[-1]
                r = c.popitem()
                model.popitem()
                cx.check(type(r) is tuple and r[0] == k and r[1] is v,
                         'popitem returned', r, 'expected', k, v)
            else:
                try:
                    c.popitem()
                except KeyError:
                    pass
                else:
                    cx.fail('popitem of an empty container')
        elif name == 'clear':
            if rng.random() < .3:
                c.clear()
                model.clear()
        else:
            keys = gen.keys(rng, rng.randint(0, 3))
            if badkind == 'key':
                keys.insert(rng.randint(0, len(keys)), key)
            if badkind == 'value':
                keys.append(7)
            if bad:
                return refused(name, lambda: type(c).fromkeys(keys, val))
            invariant(cx, type(c).fromkeys(keys, val),
                      dict.fromkeys(keys, val), isdata, name)
    else:
        name = 'read'
        cx.check(len(c) == len(model), 'len')
        cx.check((key in c) == (key in model), 'in')
        cx.check(c.get(key, before) is before or key in model, 'get')
    invariant(cx, c, model, isdata, name)
    cx.sig(isdata, name, 'ok', len(model))


def packlevel(cx):
    """The containers of a pack keep their checks whatever happens."""
    rng = cx.rng
    a = ChannelPack({0: [1, 2], 1: [3, 4]}, {0: 'a', 1: 'b'})
    p = ChannelPack()
    how = rng.randint(0, 5)
    if how == 0:
        p.append_pack(a)
    elif how == 1:
        p.data, p.names = {3: [1.0]}, {3: 'x'}
    elif how == 2:
        p.data, p.names = a.data, a.names
    elif how == 3:
        p = ChannelPack([(2, [1, 2])], [(2, 'q')])
    elif how == 4:
        p = a
        a.append_pack(ChannelPack({0: [9], 1: [8]}))
    cx.note('pack made by', how)
    for key in rng.sample(BADKEYS, 4):
        for c, v in ((p.data, [1, 2]), (p.names, 'nm')):
            before = content(c)
            try:
                c[key] = v
            except TypeError:
                unchanged(cx, c, before, 'setitem')
            else:
                cx.fail('key %r accepted' % (key,))
    for attr in ('data', 'names'):
        before = content(getattr(p, attr))
        badv = {'x': [1, 2], 1: [1, 2]} if attr == 'data' else \
            {'x': 'a', 1: 'b'}
        try:
            setattr(p, attr, badv)
        except TypeError:
            unchanged(cx, getattr(p, attr), before, attr + ' assignment')
        else:
            cx.fail('%s with a str key accepted' % attr)
    before = content(p.data)
    v = bad_value(cx)
    try:
        p.data = {0: [1, 2], 1: v}
    except ValueError:
        unchanged(cx, p.data, before, 'data assignment')
    else:
        cx.fail('data with value %r accepted' % (v,))
    k = rng.randint(0, 9)
    p.data[k] = [1, 2, 3]
    cx.check(isinstance(p.data[k], np.ndarray) and
             p.data[k].tolist() == [1, 2, 3], 'list not converted')
    cx.check(p(k, nof='ignore').tolist() == [1, 2, 3], 'call', k)
    cx.sig('pack', how, k, repr(v)[:20])


PHASES = [Phase('sequence', sequence, 96000, 250000),
          Phase('packlevel', packlevel, 18000, 36000)]
