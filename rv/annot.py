"""Notes, links, ranges and layout of xls sheets: a random model of them, the
records they are stored in, and comparison of a sheet with the model.

Written from the format documentation of OpenOffice.org and Microsoft, like
xlsgen.
"""
from struct import pack

from rv import wbmodel as M
from rv import xlsgen
from rv.xlsgen import rec, unirich

STDLINK = bytes.fromhex('d0c9ea79f9bace118c8200aa004ba90b')
URLMON = bytes.fromhex('e0c9ea79f9bace118c8200aa004ba90b')
FILEMON = bytes.fromhex('0303000000000000c000000000000046')
SERIAL = bytes.fromhex('795881f43b1d7f48af2c825dc4852763') + b'\0' * 8

FLAGS2 = ['show_formulas', 'show_grid_lines', 'show_sheet_headers',
          'panes_are_frozen', 'show_zero_values',
          'automatic_grid_line_colour', 'columns_from_right_to_left',
          'show_outline_symbols', 'remove_splits_if_pane_freeze_is_removed',
          'sheet_selected', 'sheet_visible', 'show_in_page_break_preview']
DEFAULT2 = [0, 1, 1, 0, 1, 1, 0, 1, 0, 0, 0, 0]


def zstr(s):
    u = s.encode('utf-16-le')
    return pack('<L', len(u) // 2 + 1) + u + b'\0\0'


def nonempty(rng, n=30):
    while 1:
        s = M.text(rng, n, controls=False).replace('\0', '')
        if s:
            return s


class Annot(object):
    """What there is in a sheet besides its cells."""

    def __init__(self, rng, bv, nxf):
        self.rng, self.bv = rng, bv
        self.maxr = 65535 if bv >= 80 else 16383
        self.nxf = nxf
        p = rng.choice((.15, .4, .8))
        self.has = has = lambda: rng.random() < p
        self.notes, self.links = {}, []
        self.rowlabels, self.collabels = [], []
        self.hbreaks, self.vbreaks = [], []
        self.rows, self.cols = {}, []
        self.coldef = {}
        self.defcol = self.std = self.gcw = self.defrow = None
        self.window = self.pane = self.scl = None
        if has():
            for _ in range(rng.randint(1, 5)):
                self.note()
        if bv >= 80 and has():
            for _ in range(rng.randint(1, 5)):
                self.link()
        if bv >= 80 and has():
            for _ in range(rng.randint(0, 3)):
                self.rowlabels.append(self.range())
            for _ in range(rng.randint(0, 3)):
                self.collabels.append(self.range())
        if has():
            for _ in range(rng.randint(0, 4)):
                self.hbreaks.append((self.row(), 0, 255) if bv < 80 else (
                    self.row(), rng.randint(0, 99), rng.randint(100, 255)))
            for _ in range(rng.randint(0, 4)):
                self.vbreaks.append((self.col(), 0, 65535) if bv < 80 else (
                    self.col(), rng.randint(0, 99), rng.randint(100, 65535)))
        if has():
            for _ in range(rng.randint(1, 6)):
                self.rows[self.row()] = self.rowinfo()
        if has():
            c = rng.choice((0, 0, 1, 5))
            while c < 257 and len(self.cols) < 8:
                last = min(256, c + rng.choice((0, 0, 1, 3, 100, 256)))
                if bv == 20:
                    last = min(last, 255)
                    if c > 255:
                        break
                    self.cols.append((c, last, rng.randint(0, 60000), None,
                                      0, 0, 0, 0))
                else:
                    self.cols.append((
                        c, last, rng.randint(0, 65535),
                        rng.randrange(nxf), rng.randint(0, 1),
                        rng.randint(0, 1), rng.randint(0, 7),
                        rng.randint(0, 1)))
                c = last + rng.choice((1, 1, 1, 4))
        if bv == 20 and has():
            # formats of columns
            c = rng.choice((0, 0, 3, 250))
            n = rng.choice((1, 2, 10, 256))
            self.coldef = {i: rng.randrange(nxf)
                           for i in range(c, min(c + n, 256))}
        if has():
            self.defcol = rng.choice((8, 0, 1, 255, rng.randint(0, 255)))
        if bv >= 40 and has():
            self.std = rng.choice((2275, 0, 1, 65535, rng.randint(0, 65535)))
        if 40 <= bv < 80 and has():
            self.gcw = [rng.randint(0, 1) if rng.random() < .5 else
                        rng.choice((0, 1, 1)) for _ in range(256)]
        if bv >= 30 and has():
            self.defrow = [rng.randint(1, 8191)] + [
                rng.randint(0, 1) for _ in range(4)]
        if has():
            self.window = dict(
                flags=[rng.randint(0, 1) for _ in range(12)],
                rowx=self.row(), colx=self.col(),
                colour=rng.randint(8, 64),
                pbp=rng.choice((0, 0, 10, 60, 400, 9, 401, 75)),
                normal=rng.choice((0, 100, 10, 400, 9, 401, 55)))
        if has():
            self.pane = [rng.randint(0, 65535) if rng.random() < .5 else
                         rng.randint(0, 20) for _ in range(4)] + [
                             rng.randint(0, 3)]
        if bv >= 40 and has():
            den = rng.choice((1, 2, 3, 4, 7, 20, 100))
            self.scl = (rng.randint((den + 9) // 10, 4 * den), den)

    # -- parts

    def row(self):
        rng = self.rng
        return rng.choice((rng.randint(0, 30), rng.randint(0, 30),
                           rng.randint(0, self.maxr), 0, 255, 256,
                           self.maxr))

    def col(self):
        rng = self.rng
        return rng.choice((rng.randint(0, 10), rng.randint(0, 255), 0, 127,
                           128, 255))

    def range(self, small=False):
        rng = self.rng
        r, c = self.row(), self.col()
        r2 = min(r + rng.choice((0, 0, 1, 4, 1 if small else 60000)),
                 self.maxr)
        c2 = min(c + rng.choice((0, 0, 1, 4, 250)), 255)
        return r, r2, c, c2

    def rowinfo(self):
        rng = self.rng
        b = [rng.randint(0, 1) for _ in range(7)]
        return dict(height=rng.choice((255, rng.randint(0, 32767), 0, 32767)),
                    has_default_height=b[0],
                    outline_level=rng.randint(0, 7),
                    outline_group_starts_ends=b[1], hidden=b[2],
                    height_mismatch=b[3], has_default_xf_index=b[4],
                    xf_index=rng.randrange(self.nxf),
                    additional_space_above=b[5],
                    additional_space_below=b[6])

    def note(self):
        rng = self.rng
        r, c = self.row(), self.col()
        s = M.text(rng, rng.choice((5, 40, 300)), controls=False)
        if self.bv < 80:
            if rng.random() < .15:
                s = s * rng.randint(20, 400)
            self.notes[r, c] = dict(text=s[:30000], runs=[(0, 0)], show=0,
                                    row_hidden=0, col_hidden=0, author='')
            return
        if rng.random() < .1:
            s = (s * 3000)[:rng.choice((8223, 8224, 8225, 20000))]
            s = s.encode('utf-16-le')[:60000].decode('utf-16-le', 'ignore')
        runs = []
        n = len(s.encode('utf-16-le')) // 2
        if n:
            pos = {0} | {rng.randrange(n) for _ in range(
                rng.choice((0, 0, 1, 5)))}
            runs = [(x, rng.randint(0, 300)) for x in sorted(pos)]
        self.notes[r, c] = dict(
            text=s, runs=runs, show=rng.randint(0, 1),
            row_hidden=rng.randint(0, 1), col_hidden=rng.randint(0, 1),
            author=M.text(rng, 20, controls=False))

    def link(self):
        rng = self.rng
        kind = rng.choice(('url', 'url', 'local file', 'unc', 'workbook'))
        ln = dict(type=kind, at=self.range(True), desc=None, target=None,
                  textmark=None, quicktip=None, url=None)
        if rng.random() < .6:
            ln['desc'] = M.text(rng, controls=False)
        if rng.random() < .2:
            ln['target'] = nonempty(rng)
        if rng.random() < .3 or kind == 'workbook':
            ln['textmark'] = rng.choice(('Sheet1!A1', nonempty(rng)))
        if rng.random() < .3:
            ln['quicktip'] = M.text(rng, 60, controls=False)
        if kind == 'url':
            ln['url'] = rng.choice(('http://', 'mailto:', '')) + \
                nonempty(rng, 80)
        elif kind == 'unc':
            ln['url'] = '\\\\' + nonempty(rng, 80)
        elif kind == 'local file':
            if rng.random() < .5:
                up = rng.choice((0, 0, 1, 3))
                s = rng.choice((b'a.xls', b'DIR\\B~1.XLS', b'\xe5\xe4.txt'))
                ln['up'], ln['short'], ln['long'] = up, s, None
                ln['url'] = b'..\\' * up + s
            else:
                ln['up'], ln['short'] = 0, b'X~1.XLS'
                ln['url'] = ln['long'] = nonempty(rng, 80)
        self.links.append(ln)

    # -- records

    def text_cont(self, s):
        """Text in one or more CONTINUE records, of either width."""
        rng = self.rng
        u = s.encode('utf-16-le')
        n, out, i = len(u) // 2, b'', 0
        few = rng.random() < .7
        while i < n:
            wide = any(u[2 * i + 1:2 * min(n, i + 8223):2]) or \
                rng.random() < .3
            m = min(n - i, 4111 if wide else 8223)
            if not few or rng.random() < .2:
                m = rng.randint(1, m)
            seg = u[2 * i:2 * (i + m)]
            if not any(seg[1::2]) and not (wide and rng.random() < .3):
                out += rec(0x3C, b'\0' + seg[::2])
            else:
                out += rec(0x3C, b'\1' + seg)
            i += m
        return out

    def note_recs(self, w):
        rng, out = self.rng, []
        objid = rng.choice((1, 1, 7, 1000, 65000))
        late = []
        for (r, c), n in self.notes.items():
            if self.bv < 80:
                n['text'] = xlsgen.fit(n['text'], w.enc, rng)
                b = n['text'].encode(w.enc)
                lim = rng.choice((2048, 2048, 2048, 10, 1))
                if len(b) > 3000:
                    lim = 2048
                out.append(rec(0x1C, pack('<HHH', r, c, len(b)) + b[:lim]) +
                           b''.join(rec(0x1C, pack(
                               '<HHH', 0xFFFF, 0, len(b[i:i + lim])) +
                               b[i:i + lim])
                               for i in range(lim, len(b), lim)))
                continue
            n['id'] = objid
            obj = pack('<HHHHH12s', 0x15, 18, 0x19, objid, 0x4011, b'')
            if rng.random() < .8:
                obj += pack('<HH22s', 0x0D, 22, b'')
            obj += rng.choice((b'\0\0\0\0', b'\0\0\0\0', b'\0' * 8, b''))
            ub = len(n['text'].encode('utf-16-le')) // 2
            runs = list(n['runs'])
            if runs:
                runs += [(ub, 0)] * rng.choice((1, 1, 1, 2, 3))
            rb = [pack('<HH4x', *x) for x in runs]
            cr = b''
            while rb:
                k = rng.choice((len(rb), len(rb), rng.randint(1, len(rb))))
                cr += rec(0x3C, b''.join(rb[:k]))
                del rb[:k]
            txo = rec(0x1B6, pack('<HH6sHHH', 0x212, 0, b'', ub,
                                  8 * len(runs), 0)) + \
                self.text_cont(n['text']) + cr
            mso = b''
            if rng.random() < .5:
                mso = rec(0xEC, b'\x0f\0\2\xf0' + b'\0' * 12)
            mid = b''
            if mso and rng.random() < .5:
                mid = rec(0xEC, b'\0\0\x0d\xf0\0\0\0\0')
            out.append(mso + rec(0x5D, obj) + mid + txo)
            au = unirich(rng, n['author'])
            nr = rec(0x1C, pack('<4H', r, c, n['show'] << 1 |
                                n['row_hidden'] << 7 | n['col_hidden'] << 8,
                                objid) + au +
                     rng.choice((b'', b'\0', b'\x5d')
                                if n['author'] else (b'\0', b'\0')))
            late.append(nr)
            objid += rng.choice((1, 1, 2, 9, 256) if objid < 60000 else (1,))
            if rng.random() < .2:
                # some other object, with or without text
                o = rec(0x5D, pack('<HHHHH12s', 0x15, 18, rng.choice(
                    (2, 6, 8, 0x14)), objid, 0x6011, b'') + b'\0\0\0\0')
                if rng.random() < .6:
                    o += rec(0x1B6, pack('<HH6sHHH', 0x212, 0, b'', 3, 16,
                                         0)) + rec(0x3C, b'\0box') + rec(
                        0x3C, pack('<HH4xHH4x', 0, 0, 3, 0))
                out.append(o)
                objid += 1
        rng.shuffle(out)
        if self.bv >= 80:
            rng.shuffle(late)
            out.append(b''.join(late))
            return [b''.join(out)] if out else []
        return out

    def link_recs(self):
        rng, out = self.rng, []
        for ln in self.links:
            opt, body = 0, b''
            if ln['desc'] is not None:
                opt |= rng.choice((0x14, 0x14, 0x10))
                body += zstr(ln['desc'])
            if ln['target'] is not None:
                opt |= 0x80
                body += zstr(ln['target'])
            t = ln['type']
            if t == 'url':
                opt |= 3
                u = ln['url'].encode('utf-16-le') + b'\0\0'
                u += rng.choice((b'', b'', SERIAL))
                body += URLMON + pack('<L', len(u)) + u
            elif t == 'local file':
                opt |= 1
                body += FILEMON + pack('<Hi', ln['up'], len(ln['short']) + 1)
                body += ln['short'] + b'\0\xff\xff\xad\xde' + b'\0' * 20
                if ln['long'] is None:
                    body += pack('<i', 0)
                else:
                    x = ln['long'].encode('utf-16-le')
                    body += pack('<iiH', len(x) + 6, len(x), 3) + x
            elif t == 'unc':
                opt |= 0x103
                body += zstr(ln['url'])
            if ln['textmark'] is not None:
                opt |= 8
                body += zstr(ln['textmark'])
            b = rec(0x1B8, pack('<HHHH', *ln['at']) + STDLINK +
                    pack('<II', 2, opt) + body)
            if ln['quicktip'] is not None:
                b += rec(0x800, pack('<5H', 0x800, *ln['at']) +
                         ln['quicktip'].encode('utf-16-le') + b'\0\0')
            out.append(b)
        return [b''.join(out)] if out else []

    def breaks(self, code, xs):
        out = pack('<H', len(xs))
        for x in xs:
            out += pack('<H', x[0]) if self.bv < 80 else pack('<HHH', *x)
        return rec(code, out)

    def emit(self, w):
        """Records before and after the cells."""
        rng, bv = self.rng, self.bv
        self.xfbase = w.xfbase
        pre, post = [], []
        any_ = []
        if self.defcol is not None:
            pre.append(rec(0x55, pack('<H', self.defcol)))
        if self.std is not None:
            pre.append(rec(0x99, pack('<H', self.std)))
        if self.gcw is not None:
            v = sum(b << i for i, b in enumerate(self.gcw))
            pre.append(rec(0xAB, b'\x20\0' + v.to_bytes(32, 'little')))
        if self.defrow is not None:
            h, a, b, c, d = self.defrow
            pre.append(rec(0x225, pack('<HH', a | b << 1 | c << 2 | d << 3,
                                       h)))
        cols = []
        for a, b, width, xf, hid, b1, lev, coll in self.cols:
            if bv == 20:
                cols.append(rec(0x24, pack('<BBH', a, b, width)))
            else:
                cols.append(rec(0x7D, pack(
                    '<HHHHH', a, b, width, xf + w.xfbase, hid | b1 << 1 |
                    lev << 8 | coll << 12) + rng.choice((b'', b'\0\0'))))
        if w.v20 or any(x + w.xfbase > 62 for x in self.coldef.values()):
            self.coldef = {}
        if self.coldef:
            cols.append(rec(0x20, pack('<HH', min(self.coldef),
                                       max(self.coldef) + 1) + b''.join(
                bytes((x + w.xfbase | rng.choice((0, 0x40)), 0, 0))
                for c, x in sorted(self.coldef.items())) + b'\0\0'))
            rng.shuffle(cols)
        pre.append(b''.join(cols))
        for r, i in self.rows.items():
            if bv == 20:
                # the format is that of the cell attributes, or given after
                # them
                i['has_default_xf_index'] &= not w.v20
                d = i['has_default_xf_index']
                x = i['xf_index'] + w.xfbase
                b = b''
                if d and x < 63:
                    b = bytes((x, 0, 0)) + rng.choice((b'', pack('<H', x)))
                elif d:
                    b = b'\x3f\0\0' + pack('<H', x)
                any_.append(rec(0x08, pack(
                    '<HHHHHBH', r, 0, 1, i['height'] |
                    i['has_default_height'] << 15, 0, d, 0) + b))
                continue
            any_.append(rec(0x208, pack(
                '<HHHHHHI', r, 0, 1, i['height'] |
                i['has_default_height'] << 15, 0, 0,
                i['outline_level'] | i['outline_group_starts_ends'] << 4 |
                i['hidden'] << 5 | i['height_mismatch'] << 6 |
                i['has_default_xf_index'] << 7 | 0x100 |
                (i['xf_index'] + w.xfbase) << 16 |
                i['additional_space_above'] << 28 |
                i['additional_space_below'] << 29)))
        if self.hbreaks:
            pre.append(self.breaks(0x1B, self.hbreaks))
        if self.vbreaks:
            pre.append(self.breaks(0x1A, self.vbreaks))
        any_ += self.note_recs(w) + self.link_recs()
        if self.rowlabels or self.collabels:
            b = b''
            for x in (self.rowlabels, self.collabels):
                b += pack('<H', len(x)) + b''.join(
                    pack('<HHHH', *q) for q in x)
            post.append(rec(0x15F, b))
        if self.window is not None:
            v = self.window
            fl = sum(b << i for i, b in enumerate(v['flags'][:12 if bv >= 80
                     else 11 if bv >= 50 else 9]))
            if bv >= 80:
                post.append(rec(0x23E, pack(
                    '<HHHHxxHHI', fl, v['rowx'], v['colx'], v['colour'],
                    v['pbp'], v['normal'], 0)))
            elif bv >= 30:
                post.append(rec(0x23E, pack('<HHH', fl, v['rowx'],
                                            v['colx']) + b'\1\2\3\0'))
            else:
                post.append(rec(0x3E, bytes(v['flags'][:5]) + pack(
                    '<HHB', v['rowx'], v['colx'], v['flags'][5]) +
                    b'\1\2\3\0'))
        if self.scl is not None:
            post.append(rec(0xA0, pack('<HH', *self.scl)))
        if self.pane is not None:
            post.append(rec(0x41, pack('<HHHHB', *self.pane) +
                            rng.choice((b'', b'\0'))))
        if bv >= 80 and self.has():
            any_.append(self.conditional())
        rng.shuffle(post)
        for b in any_:
            (pre if rng.random() < .3 else post).append(b)
        rng.shuffle(pre)
        return b''.join(pre), b''.join(post)

    def conditional(self):
        """Conditional formats; they are not looked at."""
        rng, out = self.rng, b''
        for _ in range(rng.randint(1, 2)):
            n = rng.randint(1, 3)
            rs = [self.range() for _ in range(rng.randint(1, 4))]
            out += rec(0x1B0, pack('<HH4H', n, rng.randint(0, 1), *rs[0]) +
                       pack('<H', len(rs)) + b''.join(
                           pack('<4H', *x) for x in rs))
            for _ in range(n):
                f1 = b'\x1e\x01\x00' * rng.randint(0, 1)
                f2 = b'\x1e\x02\x00' * rng.randint(0, 1)
                fl, body = 0, b''
                for bit, size in ((26, 118), (28, 8), (29, 4)):
                    if rng.random() < .5:
                        fl |= 1 << bit
                        body += bytes(rng.randrange(256)
                                      for _ in range(size))
                fl |= rng.choice((0, 1 << 31, 0x3fffff))
                out += rec(0x1B1, pack('<BBHHIH', rng.randint(1, 2),
                                       rng.randint(0, 8), len(f1), len(f2),
                                       fl, 0) + body + f1 + f2)
        return out

    # -- comparison

    def check(self, cx, ws, fi, where):
        def eq(what, got, exp):
            cx.check(got == exp, where, what, 'is', got, 'expected', exp)

        eq('cells with notes', sorted(ws.cell_note_map), sorted(self.notes))
        for (r, c), n in self.notes.items():
            o = ws.cell_note_map[r, c]
            got = (o.rowx, o.colx, o.text, list(o.rich_text_runlist), o.show,
                   o.row_hidden, o.col_hidden, o.author)
            eq('note', got, (r, c, n['text'], n['runs'], n['show'],
                             n['row_hidden'], n['col_hidden'], n['author']))
        got = [((h.frowx, h.lrowx, h.fcolx, h.lcolx), h.type, h.url_or_path,
                h.desc, h.target, h.textmark, h.quicktip)
               for h in ws.hyperlink_list]
        eq('links', got, [(x['at'], x['type'], x['url'], x['desc'],
                           x['target'], x['textmark'], x['quicktip'])
                          for x in self.links])
        m = {}
        for x, h in zip(self.links, ws.hyperlink_list):
            a, b, c, d = x['at']
            for r in range(a, b + 1):
                for q in range(c, d + 1):
                    m[r, q] = h
        cx.check(len(m) == len(ws.hyperlink_map) and all(
            ws.hyperlink_map.get(k) is v for k, v in m.items()), where,
            'the map of links is not that of the last links of the cells')
        for got, exp, what in ((ws.row_label_ranges, self.rowlabels, 'row'),
                               (ws.col_label_ranges, self.collabels, 'col')):
            eq(what + ' label ranges', [tuple(x) for x in got],
               [(a, b + 1, c, d + 1) for a, b, c, d in exp])
        eq('default column width', ws.defcolwidth, self.defcol)
        eq('standard width', ws.standardwidth, self.std)
        if self.defrow is not None:
            eq('default row', [ws.default_row_height,
                               ws.default_row_height_mismatch,
                               ws.default_row_hidden,
                               ws.default_additional_space_above,
                               ws.default_additional_space_below],
               self.defrow)
        v = self.window
        flags = list(DEFAULT2)
        if v:
            k = 12 if self.bv >= 80 else 11 if self.bv >= 50 else \
                9 if self.bv >= 30 else 6
            flags[:k] = v['flags'][:k]
            if self.bv >= 30:
                flags[k:] = [0] * (12 - k)
        eq('window settings', [getattr(ws, k) for k in FLAGS2], flags)
        eq('first visible cell', (ws.first_visible_rowx,
                                  ws.first_visible_colx),
           (v['rowx'], v['colx']) if v else (0, 0))
        pbp, nv = 0, 0
        if v and self.bv >= 80:
            pbp, nv = v['pbp'], v['normal']
            eq('zoom factors', (ws.cached_page_break_preview_mag_factor,
                                ws.cached_normal_view_mag_factor), (pbp, nv))
            eq('grid line colour', ws.gridline_colour_index, v['colour'])
        elif v:
            eq('grid line colour', tuple(ws.gridline_colour_rgb), (1, 2, 3))
        scl = self.scl[0] * 100 // self.scl[1] if self.scl else None
        eq('magnification', ws.scl_mag_factor, scl)
        act = scl or 100
        if flags[11]:
            exp = (act, nv if 10 <= nv <= 400 else act)
        else:
            exp = (60 if not pbp else pbp if 10 <= pbp <= 400 else act, act)
        eq('zoom in page break preview and normal view',
           (ws.cooked_page_break_preview_mag_factor,
            ws.cooked_normal_view_mag_factor), exp)
        p = self.pane or [0] * 5
        eq('pane', [ws.vert_split_pos, ws.horz_split_pos,
                    ws.horz_split_first_visible, ws.vert_split_first_visible,
                    ws.split_active_pane, ws.has_pane_record],
           p + [1 if self.pane else 0])
        cx.count('notes compared', len(self.notes))
        cx.count('links compared', len(self.links))
        if not fi:
            return
        eq('horizontal page breaks', [tuple(x) for x in
                                      ws.horizontal_page_breaks],
           self.hbreaks)
        eq('vertical page breaks', [tuple(x) for x in
                                    ws.vertical_page_breaks], self.vbreaks)
        if not self.plainrows:
            eq('rows with settings', sorted(ws.rowinfo_map),
               sorted(self.rows))
        for r, i in self.rows.items():
            o = ws.rowinfo_map[r]
            i = dict(i, xf_index=i['xf_index'] + self.xfbase)
            if self.bv == 20:
                i = {k: i[k] for k in ('height', 'has_default_height',
                                       'has_default_xf_index', 'xf_index')}
            if not i['has_default_xf_index']:
                i['xf_index'] = -1
            eq('row %d' % r, {k: getattr(o, k) for k in i}, i)
        exp, colwidth = {}, {}
        for a, b, width, xf, hid, b1, lev, coll in self.cols:
            for c in range(a, min(b, 255) + 1):
                colwidth[c] = width
                exp[c] = (width,) if self.bv == 20 else (
                    width, xf + self.xfbase, hid, b1, lev, coll)
        got = {c: ((o.width,) if self.bv == 20 else (
            o.width, o.xf_index, o.hidden, o.bit1_flag, o.outline_level,
            o.collapsed)) for c, o in ws.colinfo_map.items()}
        if self.coldef:
            got = {c: (o.width, o.xf_index)
                   for c, o in ws.colinfo_map.items()}
            # the format is that of the style if there is nothing else
            exp = {c: (exp.get(c, (0,))[0], self.coldef[c] + self.xfbase
                       if c in self.coldef else -1)
                   for c in list(exp) + list(self.coldef)}
        eq('column settings', got, exp)
        if self.gcw is not None:
            eq('GCW', list(ws.gcw), self.gcw)
        if self.bv == 20:
            return
        dflt = 8 * 256 if self.defcol is None else 256 * self.defcol
        for c in range(256):
            wd = colwidth.get(c)
            if self.bv >= 80:
                e = wd if wd is not None else self.std
            elif self.bv >= 40 and self.gcw is not None and self.gcw[c]:
                e = self.std
            else:
                e = wd
            if e is None:
                e = dflt
            if ws.computed_column_width(c) != e:
                eq('width of column %d' % c, ws.computed_column_width(c), e)
        cx.count('column widths compared', 256)
