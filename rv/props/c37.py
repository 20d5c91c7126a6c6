"""Workbooks tell of themselves what is stored; encodings can be given."""
import io
import os

from channelpack import xlrd
from rv import wbmodel as M
from rv import xlsgen, xlsxgen
from rv.core import Phase
from rv.props import c22, c23

PROP = 'C37'
LEVEL = 'exploration'
FILES = ['xlrd/book.py', 'xlrd/xlsx.py', 'xlrd/__init__.py']
RULE = ('Workbooks of all formats are written with random user names, '
        'countries, code pages, document properties and number formats, '
        'with WRITEACCESS before and after CODEPAGE, and BOF records as '
        'Excel and as other programs write them. What the Book tells of '
        'them is compared with what was written, and every cell. Files with '
        'no code page or a wrong one are opened with encoding_override and '
        'every text compared. Non-trivial: distinct (format, code page, '
        'user name, countries, formats).')
ASSUME = ['user names are as long as the record has room for, space at the '
          'end of them is padding']

VERSION = {80: (80,), 70: (70,), 50: (50,), 45: (40, 45), 40: (40,),
           30: (30,), 20: (20, 21)}


def user(rng):
    return rng.choice((
        lambda: None, lambda: '', lambda: M.text(rng, 30, False),
        lambda: rng.choice(('Anna Bj\xf6rk', '  x', 'A' * 30, '\u4e2d\u6587',
                            'R\xe4v', '\u03b1' * 26, 'me  '))))()


def country(rng):
    if rng.random() < .3:
        return None
    return (rng.choice((1, 46, 61, 358, 981, rng.randint(1, 1000))),
            rng.choice((1, 46, 61, 358, 981, rng.randint(1, 1000))))


def records(raw):
    """(code, data) of the records up to the end of the globals."""
    pos = 0
    while True:
        code = int.from_bytes(raw[pos:pos + 2], 'little')
        n = int.from_bytes(raw[pos + 2:pos + 4], 'little')
        yield code, raw[pos + 4:pos + 4 + n]
        pos += 4 + n
        if code == 0x0A:
            return


def stored_formats(w):
    out = []
    for code, data in records(w.raw):
        if code != 0x041E:
            continue
        key = int.from_bytes(data[:2], 'little')
        if w.bv >= 80:
            n = int.from_bytes(data[2:4], 'little')
            s = data[5:].decode('utf-16-le' if n and data[4] & 1 else
                                'latin-1')
        else:
            s = data[3:3 + data[2]].decode(w.enc)
        out.append((key, s))
    return out


def cells(cx, wb, book, where, fi):
    saved = [s.merges for s in wb.sheets]
    if not fi:
        for s in wb.sheets:
            s.merges = []
    try:
        M.check_book(cx, wb, book, where, blanks=fi)
    finally:
        for s, m in zip(wb.sheets, saved):
            s.merges = m
    for i, ws in enumerate(book.sheets()):
        cx.check(ws.number == i and ws.book is book, where, 'sheet', i,
                 'has number', ws.number)


def codec(name):
    return ''.encode(name) or __import__('codecs').lookup(name).name


def xls(cx):
    rng = cx.rng
    bv = rng.choice((80, 80, 80, 70, 70, 50, 45, 40, 30, 20))
    wb = c23.model(rng, bv, far=0)
    opt = xlsgen.options(rng, user=user(rng), country=country(rng))
    if bv < 45 and rng.random() < .3:
        opt['oddbof'] = rng.choice((0x0200, 7, 0x10000)) if bv == 20 else 1
    data, w = xlsgen.write(wb, rng, bv, opt)
    cx.note('biff', bv, 'codepage', w.codepage, w.opt)
    for where, fi, book in c23.books(cx, data):
        with book:
            where = 'biff%d %s' % (bv, where)
            cells(cx, wb, book, where, fi)
            check_xls(cx, book, w, bv, where)
    cx.sig(bv, w.codepage, w.user, w.country, wb.xfs, opt.get('oddbof'))
    cx.count('books of biff%d' % bv)


def check_xls(cx, book, w, bv, where):
    cx.check(book.biff_version in VERSION[bv], where, 'biff_version is',
             book.biff_version)
    exp = w.user
    cx.check((book.user_name or '') == exp, where, 'user_name is',
             book.user_name, 'expected', exp)
    cx.check(tuple(book.countries) == (w.country or (0, 0)), where,
             'countries are', book.countries, 'expected', w.country)
    if bv >= 80:
        cx.check(book.codepage == 1200, where, 'codepage is', book.codepage)
        cx.check(codec(book.encoding or 'utf_16_le') == codec('utf_16_le'),
                 where, 'encoding is', book.encoding)
    else:
        cx.check(book.codepage == w.codepage, where, 'codepage is',
                 book.codepage, 'expected', w.codepage)
        # with no code page and no text none is needed
        cx.check(codec(book.encoding or 'latin-1') == codec(w.enc), where,
                 'encoding is', book.encoding, 'expected', w.enc)
    if bv >= 50:
        got = [(f.format_key, f.format_str) for f in book.format_list]
        exp = stored_formats(w)
        cx.check(got == exp, where, 'format_list is', got, 'expected', exp)
        cx.count('formats compared', len(exp))
    if w.user:
        cx.count('user names compared')


def override(cx):
    """A code page missing or wrong, and the right encoding given."""
    rng = cx.rng
    bv = rng.choice((70, 70, 50, 50, 45, 40, 30, 20, 80))
    wb = c23.model(rng, bv, far=0)
    cp = rng.choice(xlsgen.CODEPAGES)
    if rng.random() < .2:
        cp = (None, rng.choice(('koi8-r', 'iso8859-15', 'iso8859-7', 'utf-8',
                                'gb18030')))
    said = rng.choice((None, 1252, 1251, 932, 10000, 21010, 367, 65001,
                       cp[0]))
    opt = xlsgen.options(rng, user=user(rng), codepage=cp, said=said)
    data, w = xlsgen.write(wb, rng, bv, opt)
    enc = rng.choice((cp[1], cp[1].upper(), cp[1].replace('_', '-')))
    cx.note('biff', bv, 'written as', cp, 'said', said, 'given', enc, w.opt)
    path = os.path.join(cx.tmp, 'b.xls')
    with open(path, 'wb') as f:
        f.write(data)
    for where, kw in (('path', dict(filename=path)),
                      ('bytes', dict(file_contents=data))):
        fi = rng.random() < .3
        with xlrd.open_workbook(
                logfile=io.StringIO(), formatting_info=fi,
                encoding_override=enc, **kw) as book:
            where = 'biff%d %s' % (bv, where)
            cells(cx, wb, book, where, fi)
            cx.check((book.user_name or '') == w.user, where, 'user_name is',
                     book.user_name, 'expected', w.user)
            if bv < 80 and book.encoding:
                cx.check(codec(book.encoding) == codec(enc), where,
                         'encoding is', book.encoding, 'given', enc)
    cx.sig(bv, cp, said, w.user)
    cx.count('books with the encoding given')


def xlsx(cx):
    rng = cx.rng
    wb = c22.model(rng)
    props = None
    if rng.random() < .9:
        keys = ['dc:creator', 'cp:lastModifiedBy', 'dcterms:created',
                'dcterms:modified', 'dc:title', 'cp:revision']
        rng.shuffle(keys)
        props = {}
        for k in keys[:rng.randint(0, 6)]:
            props[k] = rng.choice((
                lambda: '', lambda: M.text(rng, 30, False),
                lambda: '2020-01-01T10:00:00Z', lambda: 'Anna Bj\xf6rk'))()
    opt = xlsxgen.options(rng)
    opt['props'] = props if props is not None else {}
    data, w = xlsxgen.write(wb, rng, opt)
    cx.note('options', sorted(opt.items()))
    exp = {}
    for k, a in (('dc:creator', 'creator'),
                 ('cp:lastModifiedBy', 'last_modified_by'),
                 ('dcterms:created', 'created'),
                 ('dcterms:modified', 'modified')):
        if k in (props or {}):
            exp[a] = props[k]
    who = exp.get('last_modified_by') or exp.get('creator') or ''
    for where, book in c22.open_both(cx, data):
        with book:
            cx.check((book.user_name or '') == who, where, 'user_name is',
                     book.user_name, 'expected', who)
            got = {k: book.props.get(k, '') for k in exp}
            cx.check(got == exp, where, 'props are', book.props, 'expected',
                     exp)
            cx.check(book.datemode == wb.datemode, where, 'datemode is',
                     book.datemode)
            for i, ws in enumerate(book.sheets()):
                cx.check(ws.number == i and ws.book is book and
                         ws.name == wb.sheets[i].name, where, 'sheet', i,
                         'has number', ws.number, 'and name', ws.name)
    cx.sig('xlsx', sorted(exp.items()), wb.datemode, len(wb.sheets))
    cx.count('books of xlsx')


PHASES = [Phase('xls', xls, 3000, 60000),
          Phase('override', override, 2600, 50000),
          Phase('xlsx', xlsx, 1500, 30000)]
