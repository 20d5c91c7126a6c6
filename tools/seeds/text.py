PRE = """
import io, sys
import numpy as np
from channelpack import ChannelPack, textpack, lazy_textpack
"""
SEEDS = [
dict(id='t17-last-line-forgiven', property='C17',
     needs='a field that is not a number on the very last line of the data',
     breaks='an unreadable last line is dropped silently',
     edits=[('readtext.py', """        yield tuple(func(val) for func, val, col in
                    zip(funcs, stripped.split(delimiter), allcols)
                    if col in usecols)
""", """        try:
            linetuple = tuple(func(val) for func, val, col in
                              zip(funcs, stripped.split(delimiter), allcols)
                              if col in usecols)
        except ValueError:
            if not line.endswith(b'\\n' if bytehint else '\\n'):
                return          # incomplete line
            raise
        yield linetuple
""")],
     demo=PRE + """
try:
    p = textpack(io.StringIO('1;2\\n3;4\\n5;x'), delimiter=';')
except ValueError:
    sys.exit(0)
sys.exit('got %r' % (p.data,))
"""),

dict(id='t13-first-line-last-empty', property='C13',
     needs='tab delimited data whose first line has an empty first or last field',
     breaks='empty fields at the ends of the first line are lost, so columns are lost or shifted',
     edits=[('readtext.py', "    firstvals = fo.readline().strip(stripchars).split(delimiter)  # bytes?\n",
             "    firstvals = fo.readline().strip().split(delimiter)  # bytes?\n")],
     demo=PRE + """
p = textpack(io.StringIO('1\\t2\\t\\n3\\t4\\tx\\n'), delimiter='\\t')
assert sorted(p.data) == [0, 1, 2], p.data
assert list(p(2)) == ['', 'x']
"""),
dict(id='t14-names-order', property='C14',
     needs='a names argument with keys not in ascending order',
     breaks='columns selected by a names dict get the data of each other',
     edits=[('readtext.py', "        usecols = sorted(names)\n", "        usecols = list(names)\n")],
     demo=PRE + """
p = textpack(io.StringIO('1;2;3\\n4;5;6\\n'), delimiter=';', names={2: 'c', 0: 'a'})
assert list(p('a')) == [1, 4] and list(p('c')) == [3, 6], p
"""),
dict(id='t15-lazy-bytes-delimiter', property='C15',
     needs='a binary source with a delimiter outside of ascii read by lazy_textpack',
     breaks='data that can be read from a text source can not be read from bytes',
     edits=[('readtext.py', "                derived['delimiter'] = derived['delimiter'].encode(encoding)\n",
             "                derived['delimiter'] = derived['delimiter'].encode('ascii')\n")],
     demo=PRE + """
s = 'a\\u00a7b\\n1.5\\u00a72.5\\n3.5\\u00a74.5\\n'
p = lazy_textpack(io.StringIO(s), encoding='utf-8')
q = lazy_textpack(io.BytesIO(s.encode('utf-8')), encoding='utf-8')
assert list(p('b')) == list(q('b')) == [2.5, 4.5]
"""),


dict(id='t16-sci-comma', property='C16',
     needs='decimal comma numbers in exponent notation',
     breaks='a number with decimal comma and an exponent is seen as two numbers',
     edits=[('readtext.py', """CNUMRX = r'[-+]?(?:\\d+(?:,\\d*)?|,\\d+)(?:[eE][-+]?\\d+)?'  # With decimal comma
""", """CNUMRX = r'[-+]?(?:\\d+(?:,\\d*)?|,\\d+)(?:[eE][-+]\\d+)?'  # With decimal comma
""")],
     demo=PRE + """
p = lazy_textpack(io.StringIO('a;b;c\\n1,5;2,5e5;4\\n3,5;4,5E2;5\\n'))
assert list(p('b')) == [2.5e5, 450.], p
"""),
]
