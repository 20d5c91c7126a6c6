PRE = """
import io, os, struct, tempfile, zipfile
import numpy as np
from channelpack import ChannelPack, textpack, sheetpack
"""
SEEDS = [
dict(id='q06-blocks', property='C06',
     needs='more than 65536 elements, a started section over an element 65536 n',
     breaks='the section ends at the block',
     edits=[('pack.py', """        result = np.array(tuple(datautils.startstop_bool(startb, stopb)),
                          dtype=bool)
""", """        blocks = [np.fromiter(datautils.startstop_bool(startb[i:i + 65536],
                                                       stopb[i:i + 65536]),
                              dtype=bool)
                  for i in range(0, len(startb), 65536)]
        result = np.concatenate(blocks or [np.array([], dtype=bool)])
""")],
     demo=PRE + """
n = 70000
p = ChannelPack({0: np.arange(n)})
a, b = np.zeros(n, dtype=bool), np.zeros(n, dtype=bool)
a[60000], b[69000] = True, True
p.startstop(a, b)
assert p.parts() == [0] and len(p(0, part=0)) == 9000, p.parts()
"""),

dict(id='q24-types-sampled', property='C24',
     needs='a column of more than 16384 rows where few cells are of another kind',
     breaks='the kind of the column is decided by some of its cells',
     edits=[('readxl.py', """        typeset = set(types)
""", """        step = 1 + len(types) // 16384
        typeset = set(types[::step]) | set(types[-1:])
""")],
     demo=PRE + """
n = 17001
rows = ''.join('<row r="%d"><c r="A%d"%s><v>%d</v></c></row>' % (
    r, r, '' if r == 16900 else ' t="str"', r)
    for r in range(1, n) if r != 8)
N = 'http://schemas.openxmlformats.org/spreadsheetml/2006/main'
R = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
P = 'http://schemas.openxmlformats.org/package/2006/relationships'
d = tempfile.mkdtemp()
path = os.path.join(d, 'b.xlsx')
try:
    with zipfile.ZipFile(path, 'w', zipfile.ZIP_DEFLATED) as z:
        z.writestr('[Content_Types].xml', '<Types/>')
        z.writestr('xl/workbook.xml', '<workbook xmlns="%s" xmlns:r="%s">'
                   '<sheets><sheet name="S" sheetId="1" r:id="r1"/></sheets>'
                   '</workbook>' % (N, R))
        z.writestr('xl/_rels/workbook.xml.rels', '<Relationships xmlns="%s">'
                   '<Relationship Id="r1" Type="%s/worksheet" '
                   'Target="worksheets/s.xml"/></Relationships>' % (P, R))
        z.writestr('xl/worksheets/s.xml', '<worksheet xmlns="%s"><sheetData>'
                   '%s</sheetData></worksheet>' % (N, rows))
    p = sheetpack(path, header=False)
    a = p(0)
    assert len(a) == n - 1 and a[5] == '6'
    assert a[7] is None and a[16899] == 16900.0, (a[7], a[16899])
finally:
    os.unlink(path)
    os.rmdir(d)
"""),

dict(id='q14-names-guard', property='C14',
     needs='a line of names of more than 4096 characters',
     breaks='the names beyond are lost and the rest of the line is read as data',
     edits=[('readtext.py', """        fieldnames = [field.strip() for field in
                      fo.readline().strip(stripchars).split(delimiter)]
""", """        fieldnames = [field.strip() for field in
                      fo.readline(4096).strip(stripchars).split(delimiter)]
""")],
     demo=PRE + """
names = ['channel_number_%d' % i for i in range(400)]
text = ','.join(names) + '\\n' + ','.join('%d' % i for i in range(400)) + '\\n'
p = textpack(io.StringIO(text), delimiter=',', skiprows=1, hasnames=True)
assert p.name(399) == names[399] and p(399).tolist() == [399.0]
"""),

dict(id='q02-nan-double', property='C02',
     needs='a channel of extended precision floats, nan as the filter',
     breaks='the elements lose precision',
     edits=[('datautils.py', """        return np.where(b, a, np.full(len(a), np.nan))
""", """        kind = complex if a.dtype.kind == 'c' else float
        result = np.full(len(a), np.nan, dtype=kind)
        result[b] = a[b]
        return result
""")],
     demo=PRE + """
a = np.array([1, 2, 4], dtype=np.longdouble) / 3
p = ChannelPack({0: a})
p.mask = np.array([True, False, True])
x = p(0, nof='nan')
assert np.isnan(x[1])
assert x[0] == a[0] and x[2] == a[2], (x, a)
"""),
]
