PRE = """
import io, sys
import numpy as np
from channelpack import ChannelPack, textpack, lazy_textpack
"""
SEEDS = [
dict(id='p02-masked-unsigned', property='C02',
     needs='unsigned integer data and the nan filter',
     breaks='masked out elements of unsigned data become None (object array), not nan',
     edits=[('datautils.py', "    if a.dtype.kind in ('i', 'u', 'f', 'c'):",
             "    if np.issubdtype(a.dtype, np.signedinteger) or np.issubdtype(\n            a.dtype, np.inexact):")],
     demo=PRE + """
p = ChannelPack({0: np.arange(4, dtype=np.uint8)})
p.mask &= p(0) > 1
r = p(0, nof='nan')
assert r.dtype.kind == 'f', r
"""),
dict(id='p05-mindur-raised', property='C05',
     needs='mindur set to a larger value when it was already set',
     breaks='raising mindur does not apply the new requirement to the current mask',
     edits=[('pack.py', """            object.__setattr__(self, name, value)
            if self.mindur is not None:
                self.duration(self.mindur, samplerate=1, mindur=True)
        elif name == 'data':""", """            known = getattr(self, 'mindur', None)
            object.__setattr__(self, name, value)
            if known is None and self.mindur is not None:
                self.duration(self.mindur, samplerate=1, mindur=True)
        elif name == 'data':""")],
     demo=PRE + """
p = ChannelPack({0: range(10)})
p.mask = np.array([1, 1, 1, 0, 1, 0, 1, 1, 1, 1], dtype=bool)
p.mindur = 2
p.mindur = 4
assert list(p(0, nof='filter')) == [6, 7, 8, 9], p(0, nof='filter')
"""),
dict(id='p09-name-stripped', property='C09',
     needs='a reference which is a name but for white space around, or names that differ only in that',
     breaks='a reference with extra white space resolves to a channel, or to the wrong one of two',
     edits=[('pack.py', "            if ch == name:\n", "            if ch.strip() == name.strip():\n")],
     demo=PRE + """
p = ChannelPack({0: [1.], 1: [2.]}, {0: 'a ', 1: 'a'})
assert p('a')[0] == 2., p('a')
"""),
dict(id='p12-fn-set-before-check', property='C12',
     needs='an attempt to set an invalid file name on a pack that has one',
     breaks='the first file name in the list is replaced although the assignment raises',
     edits=[('pack.py', """            if not isinstance(value, str):
                raise TypeError('Expected a string')
            elif not self.filenames:
                self.filenames.append(value)
            else:
                self.filenames[0] = value
""", """            if not self.filenames:
                self.filenames.append(value)
            else:
                self.filenames[0] = value
            if not isinstance(value, str):
                raise TypeError('Expected a string')
""")],
     demo=PRE + """
p = ChannelPack({0: range(3)})
p.fn = 'good'
try:
    p.fn = None
except TypeError:
    pass
assert p.filenames == ['good'], p.filenames
"""),

dict(id='p06-apply-on-empty-mask', property='C06',
     needs='start/stop masking applied when the mask has no True element',
     breaks='the result replaces the mask instead of being anded into it',
     edits=[('pack.py', """        if apply:
            self.mask &= result
""", """        if apply and self.mask.any():
            self.mask &= result
        elif apply:
            self.mask |= result
""")],
     demo=PRE + """
p = ChannelPack({0: range(5)})
p.mask &= p(0) > 10
p.startstop(p(0) == 1, p(0) == 3)
assert not p.mask.any(), p.mask
"""),
dict(id='p02-ignore-before-part', property='C02',
     needs='a call with both a part and the filter argument ignore',
     breaks='the filter argument overrides the part',
     edits=[('pack.py', """        if part is not None:
            sl = self._cached_slicelist
""", """        if part is not None and nof != 'ignore':
            sl = self._cached_slicelist
""")],
     demo=PRE + """
p = ChannelPack({0: range(10)})
p.mask = p(0) > 7
assert list(p(0, part=0, nof='ignore')) == [8, 9]
"""),
dict(id='p03-append-empty-no-reset', property='C03',
     needs='a pack without data appended to a pack with a mask',
     breaks='the mask is not reset when there was nothing to append',
     edits=[('pack.py', """        self.filenames.extend(other.filenames)

        self.mask_reset()
""", """        self.filenames.extend(other.filenames)

        if other.data:
            self.mask_reset()
""")],
     demo=PRE + """
p = ChannelPack({0: range(10)})
p.mask &= p(0) > 7
p.append_pack(ChannelPack())
assert p.mask.all(), p.mask
"""),
dict(id='p04-fraction', property='C04',
     needs='a required duration that is not a whole number of elements',
     breaks='parts less than one element too short are kept',
     edits=[('pack.py', "            if part_duration < req_duration and mindur:\n",
             "            if part_duration <= req_duration - 1 and mindur:\n")],
     demo=PRE + """
p = ChannelPack({0: range(10)})
p.mask &= p(0) > 7
p.duration(0.25, samplerate=10)
assert not p.mask.any(), p.mask
"""),
dict(id='p36-repr-quotes', property='C36',
     needs='a channel name with quotes or backslashes in it',
     breaks='the printed form of the pack is not valid python, or has another name',
     edits=[('pack.py', """        nmkeyvalstr = (nmjoinstr.join(str(key) + ': ' + repr(self.names[key])
""", """        nmkeyvalstr = (nmjoinstr.join("{}: '{}'".format(key, self.names[key])
""")],
     demo=PRE + """
import copy, pickle
p = ChannelPack({0: range(3), 1: range(3)}, {0: 'a', 1: "engine's \\\\n"})
q = eval(repr(p), dict(ChannelPack=ChannelPack, array=np.array))
assert q.names == p.names, q.names
"""),
dict(id='p36-pickle-count', property='C36',
     needs='a pack that is pickled (deepcopy works)',
     breaks='a pickled pack can not be loaded',
     edits=[('pack.py', """        self._check_raise_ndim(array, value)
        super(NpDict, self).__setitem__(key, array)
""", """        self._check_raise_ndim(array, value)
        super(NpDict, self).__setitem__(key, array)
        self._nitems = len(self) if self._nitems < len(self) else self._nitems
"""), ('pack.py', """            super(NpDict, self).__init__(*args, **kwargs)  # delegate fail
        self.update(*args, **kwargs)
""", """            super(NpDict, self).__init__(*args, **kwargs)  # delegate fail
        self._nitems = 0        # most channels held so far
        self.update(*args, **kwargs)
""")],
     demo=PRE + """
import copy, pickle
p = ChannelPack({0: range(3), 1: range(3)}, {0: 'a'})
q = copy.deepcopy(p)
assert list(q(0)) == [0, 1, 2]
q = pickle.loads(pickle.dumps(p))
assert list(q(0)) == [0, 1, 2]
"""),
]
