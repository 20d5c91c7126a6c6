PRE = """
import io, os, re, struct, tempfile
from channelpack import xlrd
pack = struct.pack


def rec(code, data=b''):
    return pack('<HH', code, len(data)) + data


def run(f, data, *args):
    fd, path = tempfile.mkstemp(suffix='.xls')
    try:
        os.write(fd, data)
        os.close(fd)
        out = io.StringIO()
        f(path, out, *args)
        return out.getvalue()
    finally:
        os.unlink(path)


HEAD = rec(0x0209, pack('<HHH', 0x0300, 0x10, 0))
"""
SEEDS = [
dict(id='q38-zeros-end', property='C38',
     needs='a run of 64 or more zero bytes between records',
     breaks='the records after the zeros are not listed',
     edits=[('xlrd/biffh.py', """            if mem[pos:] == b'\\0' * (stream_end - pos):
                dummies = stream_end - pos
""", """            if not mem[pos:pos+64].strip(b'\\0'):
                dummies = stream_end - pos
""")],
     demo=PRE + """
s = HEAD + b'\\0' * 100 + rec(0x0203, pack('<HHHd', 0, 0, 0, 1.5)) + rec(0x0A)
text = run(xlrd.dump, s)
assert 'NUMBER' in text and '100 zero bytes' in text, text
"""),

dict(id='q38-unknown-merged', property='C38',
     needs='records with codes that have no name and differ in the low byte only',
     breaks='they are counted as one kind',
     edits=[('xlrd/biffh.py', """                recname = "Unknown_0x%04X" % rc
""", """                recname = "Unknown_0x%04X" % (rc & 0xFFF0 if rc > 0x1000 else rc)
""")],
     demo=PRE + """
s = HEAD + rec(0x7771) + rec(0x7772, b'x') + rec(0x0A)
text = run(xlrd.count_records, s)
assert '1 Unknown_0x7771' in text and '1 Unknown_0x7772' in text, text
"""),
]
