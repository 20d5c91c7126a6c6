PRE = """
import datetime, io, os, struct, sys, tempfile, zipfile
import numpy as np
from channelpack import ChannelPack, textpack, lazy_textpack, dbfpack, sheetpack
from channelpack import xlrd
"""
XLSX = PRE + """
def xlsx(rows, sst=(), styles='', after='', sheets=1):
    ns = 'xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"'
    rel = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        z.writestr('xl/workbook.xml', '<workbook %s xmlns:r="%s"><sheets>%s</sheets></workbook>' % (
            ns, rel, ''.join('<sheet name="S%d" sheetId="%d" r:id="r%d"/>' % (i, i, i) for i in range(1, sheets + 1))))
        z.writestr('xl/_rels/workbook.xml.rels',
            '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">%s</Relationships>' % ''.join(
            '<Relationship Id="r%d" Type="%s/worksheet" Target="worksheets/sheet%d.xml"/>' % (i, rel, i) for i in range(1, sheets + 1)))
        if sst:
            z.writestr('xl/sharedStrings.xml', '<sst %s>%s</sst>' % (ns, ''.join(sst)))
        if styles:
            z.writestr('xl/styles.xml', '<styleSheet %s>%s</styleSheet>' % (ns, styles))
        for i in range(1, sheets + 1):
            z.writestr('xl/worksheets/sheet%d.xml' % i, '<worksheet %s><sheetData>%s</sheetData>%s</worksheet>' % (ns, rows, after))
    return b.getvalue()
"""
XLS = PRE + """
def rec(code, data=b''):
    return struct.pack('<HH', code, len(data)) + data
def biff8(cells, glob=b'', bof=0x0600):
    ver = struct.pack('<HHHHII', bof, 5, 0, 0, 0, 0)
    shv = struct.pack('<HHHHII', bof, 16, 0, 0, 0, 0)
    if bof == 0x0500:
        ver, shv = ver[:8], shv[:8]
    nm = (struct.pack('<BB', 1, 0) if bof == 0x0600 else b'\\1') + b'S'
    head = rec(0x809, ver) + rec(0x42, struct.pack('<H', 1200 if bof == 0x0600 else 1252)) + glob
    pos = len(head) + 4 + 6 + len(nm) + 4
    head += rec(0x85, struct.pack('<IH', pos, 0) + nm) + rec(0x0a)
    return head + rec(0x809, shv) + cells + rec(0x0a)
def number(r, c, v):
    return rec(0x203, struct.pack('<HHHd', r, c, 0, v))
def label(r, c, i):
    return rec(0xfd, struct.pack('<HHHI', r, c, 0, i))
"""
OLE = XLS + """
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import random
import olegen
"""
DBF = PRE + """
def dbf(fields, recs, n=None):
    size = 1 + sum(f[2] for f in fields)
    out = struct.pack('<BBBBLHH20x', 3, 1, 1, 1, len(recs) if n is None else n, 33 + 32 * len(fields), size)
    for name, typ, sz, dec in fields:
        out += struct.pack('<11sc4xBB14x', name.encode(), typ, sz, dec)
    return out + b'\\r' + b''.join(recs)
"""
SEEDS = [
dict(id='p07-masked-inplace', property='C07',
     needs='the nan filter on channel data of complex or 4 byte float dtype',
     breaks='reading with the nan filter writes nan into the channel data',
     edits=[('datautils.py', "        return np.where(b, a, np.full(len(a), np.nan))\n",
"""        if a.dtype.kind in 'fc' and a.dtype != float:
            np.putmask(a, ~b, np.nan)  # keep the size of the dtype
            return a
        return np.where(b, a, np.full(len(a), np.nan))
""")],
     demo=PRE + """
p = ChannelPack({0: np.arange(4, dtype=np.complex128)})
p.mask &= p(0).real > 1
p(0, nof='nan')
assert not np.isnan(p(0)).any(), p(0)
"""),
dict(id='p08-append-itself', property='C08',
     needs='appending a pack to itself, or one that shares its list of file names',
     breaks='the file names are not extended when a pack is appended to itself',
     edits=[('pack.py', "        self.filenames.extend(other.filenames)\n",
"        if other is not self:\n            self.filenames.extend(other.filenames)\n")],
     demo=PRE + """
p = ChannelPack({0: [1, 2]})
p.filenames = ['a.txt', 'b.txt']
p.append_pack(p)
assert p.filenames == ['a.txt', 'b.txt', 'a.txt', 'b.txt'], p.filenames
"""),
dict(id='p10-ndim-zero', property='C10',
     needs='a date value, not an array, set as channel data',
     breaks='dates are accepted in pack data as arrays of no dimension',
     edits=[('pack.py', "        if array.ndim != 1:\n", "        if array.ndim != 1 and array.dtype.kind != 'M':\n")],
     demo=PRE + """
p = ChannelPack({0: [1., 2.]})
try:
    p.data[1] = np.datetime64('2020-01-01')
except ValueError:
    sys.exit(0)
sys.exit(repr(p.data))
"""),
dict(id='p11-records-rename', property='C11',
     needs='names of which some are not valid python identifiers',
     breaks='records get made up names for the invalid ones instead of a ValueError',
     edits=[('pack.py', "            Record = namedtuple('Record', names)\n",
             "            Record = namedtuple('Record', names, rename=any(\n                nm.startswith('_') for nm in names))\n")],
     demo=PRE + """
p = ChannelPack({0: range(6), 1: range(6)}, {0: 'a', 1: '_hidden'})
try:
    r = [x for x in p.records()]
except ValueError:
    pass
else:
    raise AssertionError(r)
"""),
dict(id='d19-numeric-trailing', property='C19',
     needs='a numeric field with no decimals of more than 15 digits',
     breaks='big integers of numeric fields lose their last digits',
     edits=[('dbf.py', """                elif deci:
                    value = float(value)
                else:
                    value = int(value)
""", """                else:
                    value = float(value)
                    if not deci:
                        value = int(value)
""")],
     demo=DBF + """
b = dbf([('A', b'N', 18, 0)], [b' 123456789012345679'])
v = dbfpack(io.BytesIO(b))('A')[0]
assert v == 123456789012345679, v
"""),
dict(id='d20-logical-lower', property='C20',
     needs='a logical field with a lower case n, and fields selected by name',
     breaks='false stored as lower case n is undefined when fields are selected',
     edits=[('dbf.py', """            elif sf.typ == b'L':
                value = ((value in b'YyTt' and 'T')
                         or (value in b'NnFf' and 'F') or '?')
""", """            elif sf.typ == b'L':
                value = ((value in b'YyTt' and 'T')
                         or (value in b'NFf' and 'F') or '?')
""")],
     demo=DBF + """
b = dbf([('A', b'L', 1, 0)], [b' f', b' n', b' T'])
v = list(dbfpack(io.BytesIO(b), ['A'])('A'))
assert v == ['F', 'F', 'T'], v
"""),
dict(id='d21-cut-records', property='C21',
     needs='a file cut inside of its records, read with no names',
     breaks='a file cut inside of its records is read as if it had fewer',
     edits=[('dbf.py', """    for i in range(numrec):
        record = struct.unpack(fmt, f.read(fmtsiz))
""", """    for i in range(numrec):
        chunk = f.read(fmtsiz)
        if len(chunk) < fmtsiz and i:
            break                           # no more records
        record = struct.unpack(fmt, chunk)
""")],
     demo=DBF + """
b = dbf([('A', b'C', 5, 0)], [b' aaaaa', b' bbbbb', b' ccc'])
try:
    p = dbfpack(io.BytesIO(b))
except Exception:
    sys.exit(0)
sys.exit(repr(p))
"""),
dict(id='d21-date-lenient', property='C21',
     needs='a date field with a value that is no date',
     breaks='an invalid date is read as missing',
     edits=[('dbf.py', """            elif typ == b'D':
                if value.strip():
""", """            elif typ == b'D':
                if value.strip(b' 0\\x00'):
""")],
     demo=DBF + """
b = dbf([('A', b'D', 8, 0)], [b' 20200101', b' 00000000'])
try:
    p = dbfpack(io.BytesIO(b))
except ValueError:
    sys.exit(0)
sys.exit(repr(p))
"""),
dict(id='s18-peek-left-open', property='C18',
     needs='a spreadsheet of which the first bytes can not be read',
     breaks='the file is left open if reading its first bytes fails',
     edits=[('xlrd/__init__.py', """        with open(filename, "rb") as f:
            peek = f.read(peeksz)
""", """        f = open(filename, "rb")
        peek = f.read(peeksz)
        f.close()
""")],
     demo=PRE + """
import builtins
real = open
class Bad(io.FileIO):
    def readinto(self, b):
        raise OSError(5, 'Input/output error')
    def read(self, n=-1):
        raise OSError(5, 'Input/output error')
d = tempfile.mkdtemp()
try:
    fn = os.path.join(d, 'a.xls')
    real(fn, 'wb').close()
    opened = []
    def op(name, mode='r', *args, **kw):
        if name == fn:
            opened.append(io.BufferedReader(Bad(name)))
            return opened[-1]
        return real(name, mode, *args, **kw)
    builtins.open = op
    try:
        sheetpack(fn)
    except OSError:
        pass
    assert all(f.closed for f in opened), opened
finally:
    builtins.open = real
    os.remove(fn)
    os.rmdir(d)
"""),
dict(id='s18-lazy-closes', property='C18',
     needs='a stream with content that lazy_textpack can not make out',
     breaks='the stream of the caller is closed when the parse fails',
     edits=[('readtext.py', """        if not derived:
            raise ValueError('Failed lazy preparse', fname)
""", """        if not derived:
            fo.close()
            raise ValueError('Failed lazy preparse', fname)
""")],
     demo=PRE + """
f = io.StringIO('x,y\\nz')
try:
    lazy_textpack(f)
except Exception:
    pass
assert not f.closed
"""),
dict(id='x22-rich-spaces', property='C22',
     needs='a rich text shared string with a run that is only preserved spaces',
     breaks='runs of nothing but spaces are lost from rich texts',
     edits=[('xlrd/xlsx.py', """                    t = cooked_text(self, tnode)
                    if t:
                        accum.append(t)
""", """                    t = cooked_text(self, tnode)
                    if t.strip():
                        accum.append(t)
""")],
     demo=XLSX + """
b = xlsx('<row r="1"><c r="A1" t="s"><v>0</v></c></row>', ['<si><r><t>a</t></r><r><t xml:space="preserve"> </t></r><r><t>b</t></r></si>'])
v = xlrd.open_workbook(file_contents=b)[0].cell_value(0, 0)
assert v == 'a b', v
"""),
dict(id='x22-row-no-number', property='C22',
     needs='a row with no number after a row with a number, in a sheet with a gap',
     breaks='a row with no number after one with a number is placed one row too high',
     edits=[('xlrd/xlsx.py', """            self.rowx = int(row_number) - 1
            explicit_row_number = 1
""", """            self.rowx = max(self.rowx + 1, int(row_number) - 1)
            explicit_row_number = 1
"""), ],
     demo=XLSX + """
# rows are not in order
b = xlsx('<row r="3"><c r="A3"><v>3</v></c></row><row r="1"><c r="A1"><v>1</v></c></row>')
ws = xlrd.open_workbook(file_contents=b)[0]
assert ws.col_values(0) == [1, '', 3], ws.col_values(0)
"""),
dict(id='x22-bool-formula', property='C22',
     needs='a boolean cell stored as true, not 1',
     breaks='true stored as a word is read as false',
     edits=[('xlrd/xlsx.py', """    if s in ("1", "true", "on"):
        return 1
    if s in ("0", "false", "off"):
        return 0
""", """    if s in ("1", "True", "on"):
        return 1
    if s.lower() in ("0", "false", "off", "true"):
        return 0
""")],
     demo=XLSX + """
b = xlsx('<row r="1"><c r="A1" t="b"><v>true</v></c></row>')
v = xlrd.open_workbook(file_contents=b)[0].cell_value(0, 0)
assert v == 1, v
"""),
dict(id='x23-rk-negative', property='C23',
     needs='a negative integer stored as RK divided by 100',
     breaks='negative numbers stored as integers of hundredths are off by one hundredth',
     edits=[('xlrd/sheet.py', """        i >>= 2 # div by 4 to drop the 2 flag bits
        if flags & 1:
            return i / 100.0
""", """        if flags & 1:
            return int(i / 4) / 100.0
        i >>= 2 # div by 4 to drop the 2 flag bits
""")],
     demo=XLS + """
b = biff8(rec(0x27e, struct.pack('<HHHi', 0, 0, 0, (-150 << 2) | 3)) + rec(0x27e, struct.pack('<HHHi', 1, 0, 0, (150 << 2) | 3)))
v = xlrd.open_workbook(file_contents=b)[0].col_values(0)
assert v == [-1.5, 1.5], v
"""),
dict(id='x23-formula-array-string', property='C23',
     needs='an array formula with a text result in more than one cell',
     breaks='the text of an array formula is lost, the cell is empty',
     edits=[('xlrd/sheet.py', """                            if rc2 not in (XL_STRING, XL_STRING_B2):
                                raise XLRDError("Expected STRING record; found 0x%04x" % rc2)
""", """                            if rc2 not in (XL_STRING, XL_STRING_B2):
                                raise XLRDError("Expected STRING record; found 0x%04x" % rc2)
                            if rc2 == XL_STRING and row1x != rownx:
                                continue
""")],
     demo=XLS + """
def f(r, c, tail):
    return rec(6, struct.pack('<HHH', r, c, 0) + b'\\0\\0\\0\\0\\0\\0\\xff\\xff' + struct.pack('<HIH', 0, 0, 0)) + tail
arr = rec(0x221, struct.pack('<HHBBBxxxxxH', 0, 1, 0, 0, 0, 0))
b = biff8(f(0, 0, arr + rec(0x207, struct.pack('<HB', 2, 0) + b'ab')) + f(1, 0, rec(0x207, struct.pack('<HB', 2, 0) + b'cd')))
v = xlrd.open_workbook(file_contents=b)[0].col_values(0)
assert v == ['ab', 'cd'], v
"""),
dict(id='x24-error-in-mixed', property='C24',
     needs='a column with a boolean and an error',
     breaks='an error in a mixed column is given as its code, not None',
     edits=[('readxl.py', """                elif typ in missingtypes:
                    value = None
                elif typ == xlrd.XL_CELL_BOOLEAN:
""", """                elif value == '':
                    value = None
                elif typ == xlrd.XL_CELL_BOOLEAN:
""")],
     demo=XLSX + """
b = xlsx('<row r="1"><c r="A1" t="b"><v>1</v></c></row><row r="2"><c r="A2" t="e"><v>#REF!</v></c></row>')
d = tempfile.mkdtemp()
fn = os.path.join(d, 'a.xlsx')
try:
    with open(fn, 'wb') as f:
        f.write(b)
    v = list(sheetpack(fn, header=False)(0))
finally:
    os.remove(fn)
    os.rmdir(d)
assert v == [True, None], v
"""),
dict(id='x25-letters-range', property='C25',
     needs='a column range of letters that passes from one letter to two, in lower case or with spaces',
     breaks='spaces inside a range of letters are refused',
     edits=[('readxl.py', """            columns += list(range(letter2num(c1), letter2num(c2) + 1))
""", """            columns += list(range(letter2num(c1), letter2num(c2[:1]) + 1)
                            if len(c1) == 1 else
                            range(letter2num(c1), letter2num(c2) + 1))
""")],
     demo=PRE + """
from channelpack.readxl import normalize_usecols
assert normalize_usecols('Y:AB') == [24, 25, 26, 27], normalize_usecols('Y:AB')
"""),
dict(id='x25-header-cell-start', property='C25',
     needs='a header cell given and a start cell on the same row or above the header',
     breaks='when the header cell is on the row of the start cell that row is not data',
     edits=[('readxl.py', """            nameref = cellreference(xladdr=header)
""", """            nameref = cellreference(xladdr=header)
            if nameref.row == startref.row and startcell:
                startref = cellreference(startref.row + 1, startref.col)
""")],
     demo=XLSX + """
b = xlsx(''.join('<row r="%d"><c r="A%d"><v>%d</v></c></row>' % (i, i, i) for i in (1, 2, 3)))
d = tempfile.mkdtemp()
fn = os.path.join(d, 'a.xlsx')
try:
    with open(fn, 'wb') as f:
        f.write(b)
    v = list(sheetpack(fn, header='A2', startcell='A2')(0))
finally:
    os.remove(fn)
    os.rmdir(d)
assert v == [2, 3], v
"""),
dict(id='x26-leap-century', property='C26',
     needs='29 February of the year 2400, 2800 or so',
     breaks='29 February of leap centuries after 2000 is refused',
     edits=[('xlrd/xldate.py', "    if y % 400: return 0\n    return 1\n", "    if y % 2000: return 0\n    return 1\n")],
     demo=PRE + """
from channelpack.xlrd import xldate
assert xldate.xldate_from_date_tuple((2400, 2, 29), 0) == 182682.0
"""),
dict(id='x26-midnight-round', property='C26',
     needs='a time in the last half millisecond of a day',
     breaks='a time that rounds to midnight is given as midnight of the same day',
     edits=[('xlrd/xldate.py', """    seconds, milliseconds = divmod(seconds, 1000)

    return epoch""", """    seconds, milliseconds = divmod(seconds % 86400000, 1000)

    return epoch""")],
     demo=PRE + """
from channelpack.xlrd import xldate
v = xldate.xldate_as_datetime(40000.999999999, 0)
assert v == datetime.datetime(2009, 7, 7), v
"""),
dict(id='x27-fragment-backwards', property='C27',
     needs='a workbook stream in fragments where a fragment is one sector only',
     breaks='a fragment that is before the previous one in the file is misplaced',
     edits=[('xlrd/compdoc.py', "            if s == p+1:\n                # contiguous sectors\n", "            if s == p+1 or s == p-1 and tot_found == found_limit:\n                # contiguous sectors\n")],
     files=['olegen.py'],
     demo=OLE + """
for i in range(40):
    cells = b''.join(number(r, c, r + c / 8.) for r in range(60 + i) for c in range(8))
    stream = biff8(cells)
    want = xlrd.open_workbook(file_contents=olegen.simple(stream))[0]
    b = olegen.Ole([olegen.Entry('Workbook', stream)], random.Random(i), order='reverse').make()
    ws = xlrd.open_workbook(file_contents=b, logfile=io.StringIO())[0]
    assert [ws.row_values(r) for r in range(ws.nrows)] == [want.row_values(r) for r in range(want.nrows)]
"""),
dict(id='x27-short-size', property='C27',
     needs='a small workbook stream in short sectors whose size is a whole number of them',
     breaks='a stream in short sectors is taken from ordinary sectors when just at the limit size',
     edits=[('xlrd/compdoc.py', """        if d.tot_size >= self.min_size_std_stream:
            result = self._locate_stream(
""", """        if d.tot_size + self.short_sec_size > self.min_size_std_stream:
            result = self._locate_stream(
""")],
     files=['olegen.py'],
     demo=OLE + """
stream = biff8(number(0, 0, 1.5))
stream += b'\\0' * (4090 - len(stream))
b = olegen.Ole([olegen.Entry('Workbook', stream), olegen.Entry('Other', b'x' * 3000)], random.Random(1)).make()
assert xlrd.open_workbook(file_contents=b, logfile=io.StringIO())[0].cell_value(0, 0) == 1.5
"""),
dict(id='x28-compressed-after-split', property='C28',
     needs='a shared string split by a continuation where the rest is one byte characters and the first part two byte',
     breaks='a string whose first part is two byte and rest one byte is read wrong',
     edits=[('xlrd/book.py', """            options = local_BYTES_ORD(data[0])
            pos = 1
""", """            options |= local_BYTES_ORD(data[0])
            pos = 1
""")],
     demo=XLS + """
sst = struct.pack('<II', 1, 1) + struct.pack('<HB', 4, 1) + 'a\\u20ac'.encode('utf-16-le')
b = biff8(label(0, 0, 0), rec(0xfc, sst) + rec(0x3c, b'\\0cd'))
v = xlrd.open_workbook(file_contents=b)[0].cell_value(0, 0)
assert v == 'a\\u20accd', v
"""),
dict(id='x28-rich-continue', property='C28',
     needs='rich text runs that start exactly at a continuation record',
     breaks='runs that start at a continuation record are taken one byte off',
     edits=[('xlrd/book.py', """                if pos == datalen:
                    pos = 0
                    datainx += 1
""", """                if pos == datalen:
                    pos = not runindex
                    datainx += 1
""")],
     demo=XLS + """
sst = struct.pack('<II', 2, 2) + struct.pack('<HBH', 2, 8, 2) + b'ab'
b = biff8(label(0, 0, 0) + label(0, 1, 1), rec(0xfc, sst) + rec(0x3c, struct.pack('<HHHH', 0, 1, 1, 2) + struct.pack('<HB', 2, 0) + b'cd'))
v = xlrd.open_workbook(file_contents=b)[0].row_values(0)
assert v == ['ab', 'cd'], v
"""),
dict(id='x29-negative-end', property='C29',
     needs='a column slice with a negative end',
     breaks='col_types with a negative end leaves out one cell more',
     edits=[('xlrd/sheet.py', """        elif end_rowx < 0:
            end_rowx += nr
        return [
            self._cell_types[rowx][colx]
""", """        elif end_rowx < 0:
            end_rowx += nr - (start_rowx > 0)
        return [
            self._cell_types[rowx][colx]
""")],
     demo=XLS + """
b = biff8(b''.join(number(r, 0, r) for r in range(5)))
ws = xlrd.open_workbook(file_contents=b)[0]
assert len(ws.col_types(0, 1, -1)) == len(ws.col_values(0, 1, -1)) == 3
"""),
dict(id='x29-unload-by-name', property='C29',
     needs='on demand loading, with a sheet unloaded and another one read in between',
     breaks='a sheet loaded anew after unloading is read from where the last one ended',
     edits=[('xlrd/book.py', """        if update_pos:
            self._position = self._sh_abs_posn[sh_number]
""", """        if update_pos and (sh_number or not any(self._sheet_list)):
            self._position = self._sh_abs_posn[sh_number]
""")],
     demo=XLS + """
def two():
    ver, shv = struct.pack('<HHHHII', 0x600, 5, 0, 0, 0, 0), struct.pack('<HHHHII', 0x600, 16, 0, 0, 0, 0)
    sheets = [rec(0x809, shv) + number(0, 0, v) + rec(0x0a) for v in (1., 2.)]
    head = rec(0x809, ver) + rec(0x42, struct.pack('<H', 1200))
    pos = len(head) + 2 * 13 + 4
    for i, nm in enumerate((b'A', b'B')):
        head += rec(0x85, struct.pack('<IHBB', pos + i * len(sheets[0]), 0, 1, 0) + nm)
    return head + rec(0x0a) + b''.join(sheets)
with xlrd.open_workbook(file_contents=two(), on_demand=True) as bk:
    assert bk[1].cell_value(0, 0) == 2.
    assert bk[0].cell_value(0, 0) == 1.
"""),
dict(id='x30-chain-loop', property='C30',
     needs='a directory chain that is a loop',
     breaks='a cyclic directory is read for ever',
     edits=[('xlrd/compdoc.py', """            self.mem, base, self.SAT, self.sec_size, self.dir_first_sec_sid,
            name="directory", seen_id=3)
""", """            self.mem, base, self.SAT, self.sec_size, self.dir_first_sec_sid,
            name="directory")
""")],
     files=['olegen.py'],
     demo=OLE + """
import resource
resource.setrlimit(resource.RLIMIT_CPU, (20, 25))
resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
b = bytearray(olegen.simple(biff8(number(0, 0, 1.))))
dirsec = struct.unpack('<i', b[48:52])[0]
sat = struct.unpack('<i', b[76:80])[0]
pos = 512 + 512 * sat + 4 * dirsec
b[pos:pos + 4] = struct.pack('<i', dirsec)
try:
    xlrd.open_workbook(file_contents=bytes(b), logfile=io.StringIO())
except MemoryError:
    raise
except Exception:
    pass
"""),
dict(id='x31-escape-star', property='C31',
     needs='a format with a fill or padding character that is a date letter',
     breaks='the character after an asterisk is taken as a date code',
     edits=[('xlrd/formatting.py', "            elif c in UNICODE_LITERAL(r\"\\_*\"):\n", "            elif c in UNICODE_LITERAL(r\"\\_\"):\n")],
     demo=XLSX + """
st = '<numFmts count="1"><numFmt numFmtId="170" formatCode="*d@"/></numFmts><cellXfs count="2"><xf numFmtId="0"/><xf numFmtId="170"/></cellXfs>'
b = xlsx('<row r="1"><c r="A1" s="1"><v>5</v></c></row>', styles=st)
t = xlrd.open_workbook(file_contents=b)[0].cell_type(0, 0)
assert t == xlrd.XL_CELL_NUMBER, t
"""),
dict(id='x31-quoted-quote', property='C31',
     needs='a date format with an escaped quote',
     breaks='an escaped quote is taken as the start of quoted text',
     edits=[('xlrd/formatting.py', """        elif state == 2:
            # Ignore char after backslash, underscore or asterisk
            state = 0
""", """        elif state == 2:
            # Ignore char after backslash, underscore or asterisk
            state = int(c == UNICODE_LITERAL('"'))
""")],
     demo=XLSX + """
st = '<numFmts count="1"><numFmt numFmtId="170" formatCode="\\\\&quot;yyyy"/></numFmts><cellXfs count="2"><xf numFmtId="0"/><xf numFmtId="170"/></cellXfs>'
b = xlsx('<row r="1"><c r="A1" s="1"><v>40000</v></c></row>', styles=st)
t = xlrd.open_workbook(file_contents=b)[0].cell_type(0, 0)
assert t == xlrd.XL_CELL_DATE, t
"""),
]
