PRE = """
import io, struct, sys
from struct import pack
from channelpack import xlrd

def rec(rc, data=b''):
    return pack('<HH', rc, len(data)) + data

def book(glob, sheets, version=0x600, **kw):
    # sheets: list of (name, type, records)
    enc = lambda s: s.encode('latin-1')
    bof = lambda dt: rec(0x809, pack('<HHHHLL', version, dt, 0, 0, 0, 0)
                         if version == 0x600 else pack('<HHHH', version, dt, 0, 0))
    cp = rec(0x42, pack('<H', kw.pop('codepage', 1200)))
    def bs(pos):
        out = b''
        for (name, kind, _), p in zip(sheets, pos):
            b = pack('<B', len(name))
            b += (b'\\0' if version == 0x600 else b'') + enc(name)
            out += rec(0x85, pack('<LBB', p, 0, kind) + b)
        return out
    # the names come last, after the sheets they refer to
    head = bof(5) + cp
    tail = glob + rec(0x0A)
    n = len(head) + len(bs([0] * len(sheets))) + len(tail)
    pos, body = [], b''
    for name, kind, recs in sheets:
        pos.append(n + len(body))
        body += bof(0x10 if kind == 0 else 0x40) + recs + rec(0x0A)
    data = head + bs(pos) + tail + body
    return xlrd.open_workbook(file_contents=data, logfile=io.StringIO(), **kw)

def number(r, c, x):
    return rec(0x203, pack('<HHHd', r, c, 0, x))

def name(text, fml, local=0, flags=0):
    return rec(0x18, pack('<HBBHHH4B', flags, 0, len(text), len(fml), 0, local, 0, 0, 0, 0)
               + b'\\0' + text.encode('latin-1') + fml)

def links(n, *xti):
    return (rec(0x1AE, pack('<H', n) + b'\\1\\4') +
            rec(0x17, pack('<H', len(xti)) + b''.join(pack('<HHH', 0, a, b) for a, b in xti)))
"""
SEEDS = [
dict(id='a33-row-sharing', property='C33',
     needs='two rows of the same height with other settings that differ, formatting info asked for',
     breaks='rows of equal height get the outline level, hidden flag and format of the first of them',
     edits=[('xlrd/sheet.py', """                key = (bits1, bits2)
                r = rowinfo""", """                key = bits1 << 8 | bits2 & 0xff
                r = rowinfo""")],
     demo=PRE + """
def row(i, h, xf):
    return rec(0x208, pack('<HHHHHHL', i, 0, 1, h, 0, 0, 0x80 | xf << 16))
xf = rec(0x31, pack('<HHHHHBBBB', 200, 0, 0x7fff, 400, 0, 0, 0, 0, 0) + b'\\1\\0A')
xf += b''.join(rec(0xE0, b'\\0' * 20) for _ in range(8))
b = book(xf, [('S', 0, row(0, 300, 3) + row(1, 300, 5) + number(1, 0, 1.))],
         formatting_info=True)
m = b.sheet_by_index(0).rowinfo_map
assert (m[0].xf_index, m[1].xf_index) == (3, 5), (m[0].xf_index, m[1].xf_index)
"""),
dict(id='a33-note-pieces', property='C33',
     needs='a BIFF 5 or 7 file in a double byte code page with a note of more than 2048 bytes, a character of it being split',
     breaks='long notes in a double byte code page fail to load',
     edits=[('xlrd/sheet.py', """            o.text = unicode(b''.join(pieces), enc)
""", """            o.text = UNICODE_LITERAL('').join(unicode(p, enc) for p in pieces)
""")],
     demo=PRE + """
text = 'a' + 1500 * '\\u4e2d'
raw = text.encode('gbk')
note = rec(0x1C, pack('<HHH', 2, 1, len(raw)) + raw[:2048])
note += rec(0x1C, pack('<HHH', 0xFFFF, 0, len(raw) - 2048) + raw[2048:])
b = book(b'', [('S', 0, number(0, 0, 1.) + note)], 0x500, codepage=936)
got = b.sheet_by_index(0).cell_note_map[2, 1].text
assert got == text, len(got)
"""),
dict(id='a33-link-path-bytes', property='C33',
     needs='a link to a local file with a unicode path and a place in it',
     breaks='the place in the file a link leads to is garbage, or the workbook fails to load',
     edits=[('xlrd/sheet.py', """                    offset += xl
                    h.url_or_path = extended_path""", """                    offset += 2 * len(extended_path.rstrip(UNICODE_LITERAL(' ')))
                    h.url_or_path = extended_path""")],
     demo=PRE + """
def nul(s):
    return pack('<L', len(s) + 1) + s.encode('utf-16-le') + b'\\0\\0'
for path in ('d\\xe9.xls', 'd\\xe9.xls ', 'd\\U0001f600.xls'):
    p = path.encode('utf-16-le')
    d = pack('<HHHH', 1, 2, 3, 4)
    d += b'\\xD0\\xC9\\xEA\\x79\\xF9\\xBA\\xCE\\x11\\x8C\\x82\\x00\\xAA\\x00\\x4B\\xA9\\x0B'
    d += b'\\2\\0\\0\\0' + pack('<L', 0x0B)
    d += b'\\x03\\x03\\x00\\x00\\x00\\x00\\x00\\x00\\xC0\\x00\\x00\\x00\\x00\\x00\\x00\\x46'
    d += pack('<HL', 0, 6) + b'd.xls\\0' + b'\\xff\\xff\\xad\\xde' + b'\\0' * 20
    d += pack('<LLH', len(p) + 6, len(p), 3) + p + nul('Sheet1!A1')
    b = book(b'', [('S', 0, number(0, 0, 1.) + rec(0x1B8, d))], formatting_info=True)
    h, = b.sheet_by_index(0).hyperlink_list
    assert (h.url_or_path, h.textmark) == (path, 'Sheet1!A1'), (h.url_or_path, h.textmark)
"""),
dict(id='a34-list-shared', property='C34',
     needs='a name that is a list of references beginning with another name',
     breaks='a name referred to gets the references of the list too',
     edits=[('xlrd/formula.py', """                        res.value = aop.value + bop.value
""", """                        res.value = aop.value
                        res.value.extend(bop.value)
"""), ('xlrd/formula.py', """                assert len(tgtobj.stack) == 1
                res = copy.deepcopy(tgtobj.stack[0])
            res.rank""", """                assert len(tgtobj.stack) == 1
                res = copy.copy(tgtobj.stack[0])
            res.rank""")],
     demo=PRE + """
ref = lambda r, c: b'\\x3a' + pack('<HHH', 0, r, c)
g = links(1, (0, 0)) + name('one', ref(0, 0)) + name('both', b'\\x23\\1\\0\\0\\0' + ref(3, 2) + b'\\x10')
b = book(g, [('S', 0, number(0, 0, 7.))])
one, both = b.name_obj_list
assert one.cell().value == 7.0
assert len(one.result.value) == 1, one.result.value
assert len(both.result.value) == 2
"""),
dict(id='a34-sheets-after-macro', property='C34',
     needs='a macro or chart sheet before a worksheet that a name refers to',
     breaks='names referring to the last worksheets of a workbook with macro or chart sheets have no cells',
     edits=[('xlrd/formula.py', """    nsheets = len(bk._all_sheets_map)
    if not(0 <= ref_first_sheetx <= ref_last_sheetx < nsheets):
        if blah:
            print("/// get_externsheet_local_range(""", """    nsheets = bk.nsheets
    if not(0 <= ref_first_sheetx <= ref_last_sheetx < nsheets):
        if blah:
            print("/// get_externsheet_local_range(""")],
     demo=PRE + """
g = links(2, (1, 1)) + name('one', b'\\x3a' + pack('<HHH', 0, 0, 0))
b = book(g, [('Macro', 1, b''), ('S', 0, number(0, 0, 7.))])
assert b.sheet_names() == ['S']
assert b.name_obj_list[0].cell().value == 7.0
"""),
dict(id='a34-relative-far', property='C34',
     needs='a relative reference exactly 128 columns to the left',
     breaks='a relative reference 128 columns to the left is taken as one 128 columns to the right',
     edits=[('xlrd/formula.py', """        if row_rel and rowx >= 32768:
            rowx -= 65536
        if col_rel and colx >= 128:""", """        if row_rel and rowx >= 32768:
            rowx -= 65536
        if col_rel and colx > 128:""")],
     demo=PRE + """
g = links(1, (0, 0)) + name('rel', b'\\x3a' + pack('<HHH', 0, 0, 128 | 0x4000))
b = book(g, [('S', 0, number(0, 0, 7.))])
ref, = b.name_obj_list[0].result.value
assert ref.colxlo == -128, ref
"""),
dict(id='b35-border-automatic', property='C35',
     needs='a BIFF 8 cell format with the automatic line colour (64) on its right border, formatting info asked for',
     breaks='the colour of the right border loses its highest bit, so that automatic lines get colour 0',
     edits=[('xlrd/formatting.py', """            (23, 0x3f800000,  'right_colour_index'),
            (30, 0x40000000,  'diag_down'),""", """            (23, 0x1f800000,  'right_colour_index'),
            (30, 0x40000000,  'diag_down'),""")],
     demo=PRE + """
font = rec(0x31, pack('<HHHHHBBBB', 200, 0, 0x7fff, 400, 0, 0, 0, 0, 0) + b'\\1\\0A')
for colour in (8, 23, 64, 65):
    xf = rec(0xE0, pack('<HHHBBBBIIH', 0, 0, 0, 0, 0, 0, 0, 1 << 4 | colour << 23, 0, 0))
    b = book(font + xf, [('S', 0, number(0, 0, 1.))], formatting_info=True)
    assert b.xf_list[0].border.right_colour_index == colour, colour
"""),
dict(id='b35-font-gap', property='C35',
     needs='five fonts or more, formatting info asked for',
     breaks='the fifth font says that its index is 4, the one that is never used',
     edits=[('xlrd/formatting.py', """    f = Font()
    f.font_index = k
    book.font_list.append(f)
    if bv >= 50:""", """    f = Font()
    f.font_index = k - (k == 5)
    book.font_list.append(f)
    if bv >= 50:""")],
     demo=PRE + """
font = rec(0x31, pack('<HHHHHBBBB', 200, 0, 0x7fff, 400, 0, 0, 0, 0, 0) + b'\\1\\0A')
b = book(6 * font, [('S', 0, number(0, 0, 1.))], formatting_info=True)
assert [f.font_index for f in b.font_list] == [0, 1, 2, 3, 4, 5, 6], [f.font_index for f in b.font_list]
"""),
dict(id='b35-palette-white', property='C35',
     needs='a palette with two entries of the same colour',
     breaks='colours of the palette that were there already keep the default of their index',
     edits=[('xlrd/formatting.py', """        book.palette_record.append(new_rgb)
        book.colour_map[8+i] = new_rgb
""", """        if new_rgb not in book.palette_record:
            book.colour_map[8+i] = new_rgb
        book.palette_record.append(new_rgb)
""")],
     demo=PRE + """
pal = [(i, 2 * i, 3 * i) for i in range(56)]
pal[30] = pal[20]
r = rec(0x92, pack('<H', 56) + b''.join(bytes(c) + b'\\0' for c in pal))
b = book(r, [('S', 0, number(0, 0, 1.))], formatting_info=True)
assert [b.colour_map[8 + i] for i in range(56)] == pal
"""),
]
