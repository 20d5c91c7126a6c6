"""Defined names of xls workbooks are as stored."""
from channelpack import xlrd
from rv import namegen
from rv import wbmodel as M
from rv import xlsgen
from rv.core import Phase
from rv.props import c23

PROP = 'C34'
LEVEL = 'exploration'
FILES = ['xlrd/book.py', 'xlrd/formula.py', 'xlrd/biffh.py']
RULE = ('Workbooks get random defined names (global, local to sheets, '
        'hidden, built-in, macro names) whose formulas are random token '
        'streams of constants, references of all kinds, lists, ranges, '
        'operators, functions, errors and other names (also in circles and '
        'long chains), made together with the value they denote, in BIFF 8, '
        '7 and 5. The workbook must open with every cell as stored, the '
        'names, scopes and flags must be as stored, constants and '
        'references must be found, cell() and area2d() give the cells '
        'addressed, and no other value be told than the right one. '
        'Non-trivial: distinct (version, formulas).')
ASSUME = ['files are valid: the writer does not produce what the format '
          'forbids', 'a formula that is not a constant or a reference, or a '
          'chain of more than eight names, may have no value']
KIND = {'num': 2, 'str': 1, 'bool': 3, 'err': 4, 'ref': -1, 'rel': -2}


def names(cx):
    rng = cx.rng
    bv = rng.choice((80, 80, 80, 70, 50))
    wb = c23.model(rng, bv, far=0)
    ns = namegen.Names(rng, wb, bv)
    data, w = xlsgen.write(wb, rng, bv, xlsgen.options(
        rng, globals=ns.emit))
    cx.note('biff', bv, 'codepage', w.codepage)
    for i, nm in enumerate(ns.items):
        cx.note('name', i, nm.text, 'scope', nm.scope, 'formula',
                nm.fml.hex(), 'value', nm.value)
    for where, fi, book in c23.books(cx, data):
        saved = [s.merges for s in wb.sheets]
        with book:
            if not fi:
                for s in wb.sheets:
                    s.merges = []
            try:
                M.check_book(cx, wb, book, 'biff%d %s' % (bv, where),
                             blanks=fi)
                check_names(cx, wb, book, ns, where)
            finally:
                for s, m in zip(wb.sheets, saved):
                    s.merges = m
    cx.sig(bv, [nm.fml for nm in ns.items])
    cx.count('names compared', 2 * ns.n)


def check_names(cx, wb, book, ns, where):
    got = [(o.name, o.scope, o.hidden, o.macro, o.builtin, o.func, o.vbasic,
            o.funcgroup, o.name_index) for o in book.name_obj_list]
    exp = [(m.text, m.scope, m.hidden, int(m.macro), int(m.builtin), m.func,
            m.vbasic, m.group, i) for i, m in enumerate(ns.items)]
    cx.check(got == exp, where, 'names', got, 'expected', exp)
    bykey, byname = {}, {}
    for m, o in zip(ns.items, book.name_obj_list):
        bykey[m.text.lower(), m.scope] = o
        byname.setdefault(m.text.lower(), []).append(o)
    same = {k: [id(x) for x in sorted(v, key=lambda o: (
        o.scope, o.name_index))] for k, v in byname.items()}
    cx.check(same == {k: [id(x) for x in v]
                      for k, v in book.name_map.items()}, where,
             'name_map is', book.name_map)
    cx.check({k: id(v) for k, v in bykey.items()} == {
        k: id(v) for k, v in book.name_and_scope_map.items()}, where,
        'name_and_scope_map is', book.name_and_scope_map)
    for i, o in enumerate(book.name_obj_list):
        check_value(cx, wb, book, o, ns.resolve(i), where, i)


def check_value(cx, wb, book, o, spec, where, i):
    kind, value, must = spec
    res = o.result
    if kind in KIND and must and value is not None:
        cx.check(res is not None, where, 'name', i, 'has no result, expected',
                 spec)
        cx.check(res.kind == KIND[kind], where, 'name', i, 'is of kind',
                 res.kind, res.value, 'expected', spec)
        cx.check(res.value is not None, where, 'name', i,
                 'has no value, expected', spec)
    if kind not in ('any', 'noref') and res is not None and res.value is not None:
        cx.check(kind in KIND and value is not None and
                 res.kind == KIND[kind], where, 'name', i, 'of kind',
                 res.kind, 'has the value', res.value, 'expected', spec)
        if kind == 'ref':
            got = [tuple(r.coords) for r in res.value]
            cx.check(got == value, where, 'name', i, 'refers to', got,
                     'expected', value)
            r = [(r.shtxlo, r.shtxhi, r.rowxlo, r.rowxhi, r.colxlo, r.colxhi)
                 for r in res.value]
            cx.check(r == got and not any(any(x.relflags) for x in res.value),
                     where, 'name', i, 'refers to', r)
        elif kind == 'rel':
            got = [(tuple(r.coords), tuple(r.relflags)) for r in res.value]
            cx.check(got == value, where, 'name', i, 'refers to', got,
                     'expected', value)
        else:
            cx.check(M.same(res.value, value) or (
                kind in ('bool', 'err') and res.value == value), where,
                'name', i, 'has the value', repr(res.value), 'expected',
                repr(value))
        cx.count('values compared')
    if kind == 'any' or not must and kind == 'ref':
        return
    if kind == 'ref' and len(value) == 1 and value[0][1] == value[0][0] + 1:
        s, _, r1, r2, c1, c2 = value[0]
        ws = book.sheet_by_index(s)
        got = o.area2d(clipped=False)
        cx.check(got[0] is ws and tuple(got[1:]) == (r1, r2, c1, c2), where,
                 'name', i, 'area2d', got)
        got = o.area2d()
        a = min(r1, ws.nrows), min(r2, ws.nrows)
        b = min(c1, ws.ncols), min(c2, ws.ncols)
        cx.check(got[0] is ws and tuple(got[1:]) == a + b, where, 'name', i,
                 'area2d clipped', got[1:], 'expected', a + b)
        if r2 == r1 + 1 and c2 == c1 + 1:
            if r1 < ws.nrows and c1 < ws.ncols:
                got, c = o.cell(), ws.cell(r1, c1)
                cx.check((got.ctype, repr(got.value)) == (
                    c.ctype, repr(c.value)), where, 'name', i, 'cell', got,
                    'expected', c)
                cx.count('cells of names compared')
            else:
                raises(cx, o.cell, IndexError, where, i)
        else:
            raises(cx, o.cell, xlrd.XLRDError, where, i)
    else:
        raises(cx, o.area2d, xlrd.XLRDError, where, i)
        raises(cx, o.cell, xlrd.XLRDError, where, i)


def raises(cx, func, exc, where, i):
    try:
        got = func()
    except exc:
        return
    cx.fail('%s name %d: %s gave %r and no %s' % (
        where, i, func.__name__, got, exc.__name__))


PHASES = [Phase('names', names, 20000, 100000)]
