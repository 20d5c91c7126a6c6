PRE = """
from channelpack import xlrd


class Book(object):
    def sheet_names(self):
        return ['Sheet1', "Tom's data", 'My data']
"""
SEEDS = [
dict(id='q39-wrap-edge', property='C39',
     needs='a relative reference that wraps around to the last row of the sheet',
     breaks='it is named with row 0',
     edits=[('xlrd/formula.py', """    return "%d" % ((browx + rowx) % 65536 + 1)
""", """    return "%d" % ((browx + rowx + 1) % 65536)
""")],
     demo=PRE + """
ref = xlrd.Ref3D((0, 1, -1, 0, 0, 1, 0, 0, 1, 1, 1, 1))
text = xlrd.rangename3drel(Book(), ref, 0, 0)
assert text.endswith('A65536:A65536'), text
"""),

dict(id='q39-apostrophe', property='C39',
     needs='the sheet name has an apostrophe and a space',
     breaks='the apostrophe is not doubled in the quoted name',
     edits=[('xlrd/formula.py', """    if "'" in shname:
        return "'" + shname.replace("'", "''") + "'"
    if " " in shname:
        return "'" + shname + "'"
    return shname
""", """    if " " in shname:
        return "'" + shname + "'"
    if "'" in shname:
        return "'" + shname.replace("'", "''") + "'"
    return shname
""")],
     demo=PRE + """
text = xlrd.rangename3d(Book(), xlrd.Ref3D((1, 2, 0, 2, 0, 2)))
assert text == "'Tom''s data'!$A$1:$B$2", text
"""),

dict(id='q39-rel-mixed', property='C39',
     needs='a relative range whose two ends differ in being relative by row',
     breaks='the last row is given as relative or not as the first one is',
     edits=[('xlrd/formula.py', """        cellnamerel(rhi-1, chi-1, rhirel, chirel, browx, bcolx, r1c1),
""", """        cellnamerel(rhi-1, chi-1, rlorel, chirel, browx, bcolx, r1c1),
""")],
     demo=PRE + """
ref = xlrd.Ref3D((0, 1, 2, 9, 0, 1, 0, 0, 0, 1, 0, 0))
text = xlrd.rangename3drel(Book(), ref, r1c1=1)
assert text == 'Sheet1!R3C1:R[8]C1', text
"""),
]
