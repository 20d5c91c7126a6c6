PRE = """
import io, struct, sys
import numpy as np
from channelpack import ChannelPack, textpack, lazy_textpack, dbfpack


def dbf(fields, recs, n=None):
    hl = 33 + 32 * len(fields)
    rl = 1 + sum(f[2] for f in fields)
    out = struct.pack('<BBBBLHH20x', 3, 99, 1, 1,
                      len(recs) if n is None else n, hl, rl)
    for nm, t, size, deci in fields:
        out += struct.pack('<11sc4xBB14x', nm.encode(), t, size, deci)
    return out + b'\\r' + b''.join(recs) + b'\\x1a'
"""
SEEDS = [
dict(id='p01-stale-parts', property='C01',
     needs='a mask assigned that has as many True elements as the one before',
     breaks='the parts of the previous mask are kept',
     edits=[('pack.py', """            self._cached_slicelist = self._slicelist()
            if self.mindur is not None:
                self.duration(self.mindur, samplerate=1, mindur=True)
        elif name == 'mindur' and not""",
             """            if getattr(self, '_truecount', None) != np.count_nonzero(value):
                self._cached_slicelist = self._slicelist()
                self._truecount = np.count_nonzero(value)
            if self.mindur is not None:
                self.duration(self.mindur, samplerate=1, mindur=True)
        elif name == 'mindur' and not""")],
     demo=PRE + """
p = ChannelPack({0: range(6)})
p.mask = np.array([1, 1, 0, 0, 0, 0], dtype=bool)
p.mask = np.array([0, 1, 0, 0, 1, 0], dtype=bool)
assert p.parts() == [0, 1], p.parts()
assert list(p(0, part=1)) == [4]
"""),

dict(id='p03-first-inserted', property='C03',
     needs='channels of different lengths, the lowest numbered not the first one in the dict',
     breaks='the mask gets the length of another channel',
     edits=[('pack.py', "lowest = sorted(self.data)[0]",
             "lowest = next(iter(self.data))")],
     demo=PRE + """
p = ChannelPack({3: range(5), 1: range(7)})
assert len(p.mask) == 7, p.mask
"""),

dict(id='p08-names-shared', property='C08',
     needs='append to a pack with no names, then a change of the names of either pack',
     breaks='the packs share the names dict, so the other pack changes',
     edits=[('pack.py', "            self.names = other.names\n",
             "            object.__setattr__(self, 'names', other.names)\n")],
     demo=PRE + """
a = ChannelPack({0: [1, 2]})
b = ChannelPack({0: [3]}, {0: 'x'})
a.append_pack(b)
a.names[0] = 'y'
assert b.names == {0: 'x'}, b.names
"""),

dict(id='p09-float-reference', property='C09',
     needs='a float as channel reference',
     breaks='a fraction is dropped, data of another channel is returned',
     edits=[('pack.py', """        if ch in self.data:
            return ch
""", """        if isinstance(ch, (float, np.floating)):
            ch = int(ch)        # number from a numpy array
        if ch in self.data:
            return ch
""")],
     demo=PRE + """
p = ChannelPack({0: [1, 2], 1: [3, 4]})
try:
    got = p(1.7)
except (KeyError, TypeError):
    sys.exit(0)
sys.exit('got %r' % (got,))
"""),

dict(id='p10-pairs-first', property='C10',
     needs='update from pairs that repeat a key',
     breaks='the first value of the key is kept rather than the last',
     edits=[('pack.py', """                    proxypairs.append([val for val in seq[:-1]] + [array])
""", """                    if seq[0] in [pair[0] for pair in proxypairs]:
                        continue
                    proxypairs.append([val for val in seq[:-1]] + [array])
""")],
     demo=PRE + """
p = ChannelPack({0: [1]})
p.data.update([(1, [1, 2]), (1, [3, 4])])
assert p.data[1].tolist() == [3, 4], p.data
"""),

dict(id='p11-part-rename', property='C11',
     needs='records of a part of a pack with a name that is not an identifier',
     breaks='records with other names are given instead of a ValueError',
     edits=[('pack.py', "            Record = namedtuple('Record', names)\n",
             "            Record = namedtuple('Record', names,\n"
             "                                rename=part is not None)\n")],
     demo=PRE + """
p = ChannelPack({0: [1, 2], 1: [3, 4]}, {0: 'a', 1: 'b c'})
try:
    r = list(p.records(part=0))
except ValueError:
    pass
else:
    raise AssertionError(r)
"""),

dict(id='d19-many-records', property='C19',
     needs='a file of more than 65535 records',
     breaks='only the low half of the record count is used, records are lost',
     edits=[('dbf.py', """    numrec, lenheader = struct.unpack('<xxxxLH22x', f.read(32))
    numfields = (lenheader - 33) // 32

    fields = []
""", """    numrec, lenheader = struct.unpack('<xxxxHxxH22x', f.read(32))
    numfields = (lenheader - 33) // 32

    fields = []
""")],
     demo=PRE + """
n = 65536 + 10
b = dbf([('A', b'N', 5, 0)], [b' %5d' % (i % 99999) for i in range(n)])
p = dbfpack(io.BytesIO(b))
assert len(p('A')) == n, len(p('A'))
"""),

dict(id='t13-chunk-lost', property='C13',
     needs='text data of more than a million characters',
     breaks='a line is lost at the start of every chunk but the first',
     edits=[('readtext.py', """    for line in fo:
        stripped = line.strip(stripchars)
""", """    def chunked():
        lines = fo.readlines(1 << 20)
        while lines:
            for line in lines:
                yield line
            fo.readline()       # rest of the line
            lines = fo.readlines(1 << 20)

    for line in chunked():
        stripped = line.strip(stripchars)
""")],
     demo=PRE + """
n = 200000
s = ''.join('%d;%d\\n' % (i, i % 7) for i in range(n))
p = textpack(io.StringIO(s), delimiter=';')
assert len(p(0)) == n, len(p(0))
"""),
]
