"""How cells look: random fonts, cell formats, styles and colours of an xls
workbook, the records they are stored in and the check of what is read.
Written from the OpenOffice.org documentation of the format.
"""
from struct import pack

from rv import wbmodel as M
from rv import xlsgen
from rv.xlsgen import rec, uni

FLAGS = ('format', 'font', 'alignment', 'border', 'background', 'protection')
STYLES = ('Normal', 'RowLevel_', 'ColLevel_', 'Comma', 'Currency', 'Percent',
          'Comma [0]', 'Currency [0]', 'Hyperlink', 'Followed Hyperlink')
EGA = '000000 FFFFFF FF0000 00FF00 0000FF FFFF00 FF00FF 00FFFF'
EGA2 = '800000 008000 000080 808000 800080 008080 C0C0C0 808080'
B8 = EGA + ' ' + EGA2 + (
    ' 9999FF 993366 FFFFCC CCFFFF 660066 FF8080 0066CC CCCCFF'
    ' 000080 FF00FF FFFF00 00FFFF 800080 800000 008080 0000FF'
    ' 00CCFF CCFFFF CCFFCC FFFF99 99CCFF FF99CC CC99FF FFCC99'
    ' 3366FF 33CCCC 99CC00 FFCC00 FF9900 FF6600 666699 969696'
    ' 003366 339966 003300 333300 993300 993366 333399 333333')


def rgbs(s):
    return [tuple(bytes.fromhex(x)) for x in s.split()]


class Look(object):
    def __init__(self, rng, bv):
        self.rng, self.bv = rng, bv
        self.fontspecs, self.xfs, self.styles = [], [], {}
        self.nfonts = rng.choice((1, 3, 4, 5, 6, 12, 40))
        self.palette = None
        self.ncol = 56 if bv >= 50 else 16
        if bv >= 30 and rng.random() < .5:
            self.palette = [tuple(rng.choice((0, 255, rng.randrange(256)))
                                  for _ in range(3))
                            for _ in range(self.ncol)]

    def colour(self):
        """A colour index."""
        return self.rng.choice((
            self.rng.randrange(8), self.rng.randrange(8, self.ncol + 8),
            self.rng.randrange(8, self.ncol + 8), self.ncol + 8,
            self.ncol + 9, 7 + self.ncol))

    # -- records

    def fontname(self, w):
        rng = self.rng
        s = rng.choice(('Arial', 'Times New Roman', 'A',
                        M.text(rng, 20, controls=False) or 'x'))
        if self.bv < 80:
            return xlsgen.fit(s, w.enc, rng)[:40] or 'B'
        return s.encode('utf-16-le')[:60].decode('utf-16-le', 'ignore')

    def fonts(self, w):
        rng, bv = self.rng, self.bv
        out = b''
        for i in range(self.nfonts):
            f = dict(height=rng.choice((160, 200, 220, rng.randint(20, 8180))),
                     name=self.fontname(w))
            bits = [rng.randint(0, 1) for _ in range(6)]
            if bv == 20:
                bits[4:] = [0, 0]
            fl = sum(b << i for i, b in enumerate(bits))
            (f['bold'], f['italic'], f['underlined'], f['struck_out'],
             f['outline'], f['shadow']) = bits
            f['colour_index'] = rng.choice((0x7FFF, self.colour()))
            if bv >= 50:
                f['weight'] = rng.choice((400, 700, rng.randint(100, 1000)))
                f['escapement'] = rng.choice((0, 1, 2))
                f['underline_type'] = rng.choice((0, 1, 2, 0x21, 0x22))
                f['family'] = rng.randint(0, 5)
                f['character_set'] = rng.choice((0, 1, 2, 77, 128, 204, 255))
                out += rec(0x31, pack(
                    '<HHHHHBBBB', f['height'], fl, f['colour_index'],
                    f['weight'], f['escapement'], f['underline_type'],
                    f['family'], f['character_set'], 0) + (
                        uni(rng, f['name'], 1) if bv >= 80 else
                        w.bstr(f['name'], 1)))
            else:
                f['weight'] = 700 if bits[0] else 400
                f['escapement'] = f['family'] = 0
                f['underline_type'] = bits[2]
                if bv >= 30:
                    out += rec(0x231, pack('<HHH', f['height'], fl, f[
                        'colour_index']) + w.bstr(f['name'], 1))
                else:
                    out += rec(0x31, pack('<HH', f['height'], fl) + w.bstr(
                        f['name'], 1))
                    if rng.random() < .5:
                        out += rec(0x45, pack('<H', f['colour_index']))
                    else:
                        f['colour_index'] = 0x7FFF
            f['font_index'] = i if i < 4 else i + 1
            self.fontspecs.append(f)
        return out

    def xf(self, w, k, style):
        """One XF record; k is the key of its number format."""
        rng, bv = self.rng, self.bv
        font = rng.choice(self.fontspecs)['font_index']
        x = dict(font_index=font, format_key=k, is_style=int(style))
        used = [rng.randint(0, 1) for _ in FLAGS]
        ub = sum(b << (i + 2) for i, b in enumerate(used))
        x.update(('_%s_flag' % n, b) for n, b in zip(FLAGS, used))
        prot = dict(cell_locked=rng.randint(0, 1),
                    formula_hidden=rng.randint(0, 1))
        stylexf = [i for i, y in enumerate(self.xfs) if y['xf']['is_style']]
        if style or not stylexf:
            parent = 0xFFF if style else 0
        else:
            parent = rng.choice(stylexf)
        x['parent_style_index'] = parent
        tp = prot['cell_locked'] | prot['formula_hidden'] << 1 | int(
            style) << 2 | parent << 4
        al = dict(hor_align=rng.randrange(8), text_wrapped=rng.randint(0, 1),
                  vert_align=2, rotation=0, indent_level=0, shrink_to_fit=0,
                  text_direction=0)
        bo = dict(diag_up=0, diag_down=0, diag_colour_index=0,
                  diag_line_style=0)
        nline = 14 if bv >= 80 else 8
        nidx = 128 if bv >= 50 else 32
        for s in ('left', 'right', 'top', 'bottom'):
            bo[s + '_line_style'] = rng.randrange(nline)
            bo[s + '_colour_index'] = rng.choice((self.colour() % nidx, 0))
        ba = dict(fill_pattern=rng.choice((0, 1, 2, 17, 18)),
                  pattern_colour_index=self.colour(),
                  background_colour_index=self.colour())
        a1 = al['hor_align'] | al['text_wrapped'] << 3
        if bv >= 80:
            al['vert_align'] = rng.randrange(5)
            al['rotation'] = rng.choice((0, 1, 90, 91, 180, 255, rng.randint(
                0, 180)))
            al['indent_level'] = rng.randrange(16)
            al['shrink_to_fit'] = rng.randint(0, 1)
            al['text_direction'] = rng.randrange(3)
            bo['diag_up'], bo['diag_down'] = rng.randint(0, 1), rng.randint(
                0, 1)
            bo['diag_colour_index'] = self.colour()
            bo['diag_line_style'] = rng.randrange(14)
            b1 = (bo['left_line_style'] | bo['right_line_style'] << 4 |
                  bo['top_line_style'] << 8 | bo['bottom_line_style'] << 12 |
                  bo['left_colour_index'] << 16 |
                  bo['right_colour_index'] << 23 | bo['diag_down'] << 30 |
                  bo['diag_up'] << 31)
            b2 = (bo['top_colour_index'] | bo['bottom_colour_index'] << 7 |
                  bo['diag_colour_index'] << 14 |
                  bo['diag_line_style'] << 21 | ba['fill_pattern'] << 26)
            b3 = ba['pattern_colour_index'] | ba[
                'background_colour_index'] << 7
            out = rec(0xE0, pack(
                '<HHHBBBBIIH', font, k, tp, a1 | al['vert_align'] << 4,
                al['rotation'], al['indent_level'] |
                al['shrink_to_fit'] << 4 | al['text_direction'] << 6, ub,
                b1, b2, b3))
        elif bv >= 50:
            al['vert_align'] = rng.randrange(4)
            o = rng.randrange(4)
            al['rotation'] = (0, 255, 90, 180)[o]
            b1 = (ba['pattern_colour_index'] |
                  ba['background_colour_index'] << 7 |
                  ba['fill_pattern'] << 16 | bo['bottom_line_style'] << 22 |
                  bo['bottom_colour_index'] << 25)
            b2 = (bo['top_line_style'] | bo['left_line_style'] << 3 |
                  bo['right_line_style'] << 6 | bo['top_colour_index'] << 9 |
                  bo['left_colour_index'] << 16 |
                  bo['right_colour_index'] << 23)
            out = rec(0xE0, pack('<HHHBBII', font, k, tp,
                                 a1 | al['vert_align'] << 4, o | ub, b1, b2))
        elif bv >= 30:
            bk = (ba['fill_pattern'] | ba['pattern_colour_index'] << 6 |
                  ba['background_colour_index'] << 11)
            b1 = 0
            for i, s in enumerate(('top', 'left', 'bottom', 'right')):
                b1 |= (bo[s + '_line_style'] | bo[s + '_colour_index'] << 3
                       ) << 8 * i
            if bv >= 40:
                al['vert_align'] = rng.randrange(3)
                o = rng.randrange(4)
                al['rotation'] = (0, 255, 90, 180)[o]
                out = rec(0x443, pack(
                    '<BBHBBHI', font, k, tp, a1 | al['vert_align'] << 4 |
                    o << 6, ub, bk, b1))
            else:
                out = rec(0x243, pack('<BBBBHHI', font, k, tp & 0xF, ub,
                                      a1 | parent << 4, bk, b1))
        else:
            al['text_wrapped'] = 0
            x['format_key'] = k & 0x3F
            x['parent_style_index'] = x['is_style'] = 0
            for n in FLAGS:
                x['_%s_flag' % n] = 1
            sides = rng.randrange(16)
            for i, s in enumerate(('left', 'right', 'top', 'bottom')):
                on = sides >> i & 1
                bo[s + '_line_style'] = on
                bo[s + '_colour_index'] = 8 * on
            shade = rng.randint(0, 1)
            ba = dict(fill_pattern=17 * shade, background_colour_index=9,
                      pattern_colour_index=8)
            out = rec(0x43, pack(
                '<BxBB', font, k & 0x3F | prot['cell_locked'] << 6 |
                prot['formula_hidden'] << 7, al['hor_align'] | sides << 3 |
                shade << 7))
        self.xfs.append(dict(xf=x, protection=prot, alignment=al, border=bo,
                             background=ba))
        return out

    def tail(self, w):
        """Styles and the palette; after the XF records."""
        rng, bv = self.rng, self.bv
        out = []
        if bv >= 30:
            for i, y in enumerate(self.xfs):
                if not y['xf']['is_style'] or rng.random() < .4:
                    continue
                if rng.random() < .5:
                    b = rng.randrange(10 if bv >= 80 else 8 if bv >= 40
                                      else 6)
                    level = rng.randrange(7) if b in (1, 2) else 255
                    name = STYLES[b] + (str(level + 1) if b in (1, 2) else '')
                    data = pack('<HBB', i | 0x8000, b, level)
                    built = 1
                else:
                    name = 'st%d ' % i + self.fontname(w)[:10]
                    data = pack('<H', i) + (
                        uni(rng, name, 2) if bv >= 80 else w.bstr(name, 1))
                    built = 0
                if name not in self.styles:
                    self.styles[name] = built, i
                    out.append(rec(0x293, data))
        if self.palette:
            out.append(rec(0x92, pack('<H', len(self.palette)) + b''.join(
                bytes(c) + b'\0' for c in self.palette)))
            if rng.random() < .5:
                rng.shuffle(out)
        return b''.join(out)

    # -- what is read

    def check(self, cx, book, where):
        fl = [f for f in book.font_list if f.font_index != 4]
        for f, exp in zip(fl, self.fontspecs):
            got = {k: getattr(f, k) for k in exp}
            cx.check(got == exp, where, 'font', got, 'expected', exp)
        cx.check(len(fl) == len(self.fontspecs) and all(
            book.font_list[f.font_index] is f for f in fl), where, len(fl),
            'fonts, expected', len(self.fontspecs))
        cx.check(len(book.xf_list) == len(self.xfs), where,
                 len(book.xf_list), 'formats, expected', len(self.xfs))
        for i, (xf, exp) in enumerate(zip(book.xf_list, self.xfs)):
            for part, e in exp.items():
                o = xf if part == 'xf' else getattr(xf, part)
                got = {k: getattr(o, k) for k in e}
                cx.check(got == e, where, 'format', i, part, {
                    k: (got[k], e[k]) for k in e if got[k] != e[k]},
                    '(got, expected)')
            cx.check(xf.xf_index == i, where, 'xf_index', xf.xf_index)
        cm = {i: c for i, c in enumerate(rgbs(EGA))}
        # The other 40 default colours of BIFF 5 and 7 differ between Excel
        # versions and descriptions of the format; they are not compared.
        std = rgbs(B8 if self.bv >= 80 else EGA + ' ' + EGA2)
        for i, c in enumerate(self.palette or std):
            cm[i + 8] = c
        for i in (self.ncol + 8, self.ncol + 9, 0x51, 0x7FFF):
            cm[i] = None
        got = {k: book.colour_map.get(k, 'none') for k in cm}
        cx.check(got == cm, where, 'colours', {
            k: (got[k], cm[k]) for k in cm if got[k] != cm[k]},
            '(got, expected)')
        cx.check(book.palette_record == (self.palette or []), where,
                 'palette_record', book.palette_record)
        cx.check(book.style_name_map == self.styles, where, 'styles',
                 book.style_name_map, 'expected', self.styles)
        cx.count('cell formats compared', len(self.xfs))
        cx.count('fonts compared', len(self.fontspecs))
