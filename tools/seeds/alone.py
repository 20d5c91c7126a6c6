PRE = """
import datetime, io, os, struct, sys, tempfile, threading, zipfile
import numpy as np
from channelpack import ChannelPack, textpack, lazy_textpack, dbfpack, sheetpack
from channelpack import xlrd
"""
SEEDS = [
dict(id='s32-converters-filled', property='C32',
     needs='the same converters dict used in a second read, of a file with another kind of columns',
     breaks='textpack stores the converters it finds in the dict of the caller, and later reads use them',
     edits=[('readtext.py', """    if converters:
        for key in converters:
            funcs[key] = converters[key]
""", """    if converters:
        for key, func in enumerate(funcs):
            funcs[key] = converters.setdefault(key, func)
""")],
     demo=PRE + """
conv = {0: str.upper}
textpack(io.StringIO('a 1\\nb 2\\n'), converters=conv)
assert conv == {0: str.upper}, conv
"""),
dict(id='s32-preparse-memo', property='C32',
     needs='the same content read first with some of its columns and then in full',
     breaks='names of columns not selected in one read of a content are gone in later ones',
     edits=[('readtext.py', """def preparse(lines, firstfieldrx=r'\\w'):
""", """def preparse(lines, firstfieldrx=r'\\w'):
    key = (tuple(lines), firstfieldrx)
    if key not in _preparsed:
        _preparsed.clear()
        _preparsed[key] = _preparse(lines, firstfieldrx)
    return dict(_preparsed[key])


_preparsed = {}


def _preparse(lines, firstfieldrx=r'\\w'):
""")],
     demo=PRE + """
s = 'a b c\\n1.5 2.5 3.5\\n4.5 5.5 6.5\\n'
assert lazy_textpack(io.StringIO(s), usecols=1).names == {1: 'b'}
names = lazy_textpack(io.StringIO(s)).names
assert names == {0: 'a', 1: 'b', 2: 'c'}, names
"""),
dict(id='s32-dbf-shared-record', property='C32',
     needs='two DBF files being read in two threads at the same time, or by turns',
     breaks='values of one DBF file come out in another one read at the same time',
     edits=[('dbf.py', """    for i in range(numrec):
        refaddr = f.tell()
        record = []
""", """    record = _record
    for i in range(numrec):
        refaddr = f.tell()
        del record[:]
"""), ('dbf.py', """def dbfrecords(f, names):
""", """_record = []


def dbfrecords(f, names):
""")],
     demo=PRE + """
def dbf(ch, n=3000):
    out = struct.pack('<BBBBLHH20x', 3, 1, 1, 1, n, 65, 11)
    out += struct.pack('<11sc4xBB14x', b'A', b'C', 10, 0) + b'\\r'
    return out + n * (b' ' + 10 * ch)
sys.setswitchinterval(1e-6)
bad = []
def work(ch):
    data = dbf(ch)
    for _ in range(20):
        try:
            a = dbfpack(io.BytesIO(data), ['A'])(0)
            if len(a) != 3000 or set(a.tolist()) != {10 * ch.decode()}:
                bad.append(ch)
        except Exception as e:
            bad.append(e)
th = [threading.Thread(target=work, args=(c,)) for c in (b'x', b'y', b'z')]
[t.start() for t in th]
[t.join() for t in th]
assert not bad, bad
"""),
]
