PRE = """
import io, struct, sys
from channelpack import xlrd
pack = struct.pack


def rec(code, data=b''):
    return pack('<HH', code, len(data)) + data


def book7(globs, cells, name=b'S'):
    # BIFF 7, one sheet
    bof = lambda k: rec(0x0809, pack('<HHHH', 0x0500, k, 0x0dbb, 1996))
    font = rec(0x0031, pack('<HHHHHBBBB', 200, 0, 0x7fff, 400, 0, 0, 0, 0, 0)
               + b'\\5Arial')
    xf = rec(0xE0, pack('<HHHHHHHH', 0, 0, 1, 32, 0, 0, 0, 0))
    head = bof(5) + globs + font + xf
    n = len(head) + 4 + 7 + len(name) + 4
    head += rec(0x85, pack('<iBB', n, 0, 0) + bytes((len(name),)) + name)
    return head + rec(0x0A) + bof(0x10) + rec(
        0x0200, pack('<HHHHH', 0, 1, 0, 3, 0)) + cells + rec(0x0A)


def label(c, s):
    return rec(0x0204, pack('<HHHH', 0, c, 0, len(s)) + s)


def opened(data, **kw):
    return xlrd.open_workbook(file_contents=data, logfile=io.StringIO(), **kw)
"""
SEEDS = [
dict(id='q37-override-missing', property='C37',
     needs='a BIFF 5 or 7 file whose code page is a known but wrong one, and encoding_override',
     breaks='the given encoding is only used when the file has no code page',
     edits=[('xlrd/book.py', """        if self.encoding_override:
            self.encoding = self.encoding_override
        elif""", """        if self.encoding_override and (
                self.codepage is None
                or self.codepage not in encoding_from_codepage
                and not 300 <= self.codepage <= 1999):
            self.encoding = self.encoding_override
        elif""")],
     demo=PRE + """
s = '\\u041f\\u0440'
data = book7(rec(0x42, pack('<H', 1252)), label(0, s.encode('cp1251')))
b = opened(data, encoding_override='cp1251')
assert b.sheet_by_index(0).cell_value(0, 0) == s
"""),

dict(id='q37-user-late', property='C37',
     needs='a BIFF 5 or 7 file with the user name stored before the code page',
     breaks='the user name is decoded as Latin 1 instead of the code page',
     edits=[('xlrd/book.py', """            strg = unpack_string(self.user_name, 0, self.encoding, lenlen=1)
            strg = strg.rstrip()
            # if""", """            strg = unpack_string(self.user_name, 0, 'latin_1', lenlen=1)
            strg = strg.rstrip()
            # if""")],
     demo=PRE + """
s = '\\u041f\\u0440'
n = bytes((2,)) + s.encode('cp1251') + b' ' * 29
data = book7(rec(0x5C, n) + rec(0x42, pack('<H', 1251)), label(0, b'x'))
assert opened(data).user_name == s
"""),

dict(id='q37-fmtlist-map', property='C37',
     needs='a file with two FORMAT records of the same key',
     breaks='the first of them is missing in format_list',
     edits=[('xlrd/formatting.py', """    self.format_list.append(fmtobj)
""", """    self.format_list = [f for f in self.format_list
                        if f.format_key != fmtkey] + [fmtobj]
""")],
     demo=PRE + """
f = lambda k, s: rec(0x041E, pack('<HB', k, len(s)) + s)
data = book7(f(170, b'0.0') + f(171, b'0') + f(170, b'0.00'), label(0, b'x'))
got = [(f.format_key, f.format_str) for f in opened(data).format_list]
assert got == [(170, '0.0'), (171, '0'), (170, '0.00')], got
"""),

dict(id='q37-prop-empty', property='C37',
     needs='an xlsx file with an empty lastModifiedBy and a creator',
     breaks='the creator is not told as the user name',
     edits=[('xlrd/xlsx.py', """props.get('last_modified_by') or props.get('creator')""",
             """props.get('last_modified_by', props.get('creator'))""")],
     demo="""
import io, zipfile
from channelpack import xlrd
M = 'http://schemas.openxmlformats.org/spreadsheetml/2006/main'
O = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
P = 'http://schemas.openxmlformats.org/package/2006/'
bio = io.BytesIO()
with zipfile.ZipFile(bio, 'w') as z:
    z.writestr('xl/workbook.xml', '<workbook xmlns="%s" xmlns:r="%s"><sheets>'
               '<sheet name="S" sheetId="1" r:id="r1"/></sheets></workbook>'
               % (M, O))
    z.writestr('xl/_rels/workbook.xml.rels', '<Relationships xmlns="%s'
               'relationships"><Relationship Id="r1" Type="%s/worksheet" '
               'Target="worksheets/s.xml"/></Relationships>' % (P, O))
    z.writestr('xl/worksheets/s.xml', '<worksheet xmlns="%s"><sheetData>'
               '<row r="1"><c r="A1"><v>1</v></c></row></sheetData>'
               '</worksheet>' % M)
    z.writestr('docProps/core.xml', '<cp:coreProperties xmlns:cp="%smetadata/'
               'core-properties" xmlns:dc="http://purl.org/dc/elements/1.1/">'
               '<dc:creator>Anna</dc:creator><cp:lastModifiedBy/>'
               '</cp:coreProperties>' % P)
b = xlrd.open_workbook(file_contents=bio.getvalue())
assert b.user_name == 'Anna', b.user_name
assert b.sheet_by_index(0).cell_value(0, 0) == 1.0
"""),
]
