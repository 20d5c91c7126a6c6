"""Write xlsx files from a workbook model, in random equivalent encodings."""
import io
import re
import zipfile

from rv import wbmodel as M

SS = 'http://schemas.openxmlformats.org/spreadsheetml/2006/main'
OD = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
PR = 'http://schemas.openxmlformats.org/package/2006/relationships'
WS = '\t\n \r'


def colname(c):
    s = ''
    c += 1
    while c:
        c, r = divmod(c - 1, 26)
        s = chr(65 + r) + s
    return s


def escape_text(rng, s):
    """Excel escapes: _xHHHH_ for what xml can not hold."""
    out = []
    for i, ch in enumerate(s):
        o = ord(ch)
        if ch == '_':
            # in doubt, escape: an escape may come to stand after it
            look = re.match(r'_x[0-9A-Fa-f]{4}_', s[i:])
            out.append('_x005F_' if look or rng.random() < .05 or
                       s[i + 1:i + 2] == 'x' else '_')
        elif (o < 32 and ch not in '\t\n') or o in (0xfffe, 0xffff) or \
                (o < 0x10000 and rng.random() < .01):
            hx = '%04X' % o
            out.append('_x%s_' % (hx if rng.random() < .5 else hx.lower()))
        else:
            out.append(ch)
    return ''.join(out)


def xml(rng, s, attr=False):
    out = []
    for ch in s:
        if ch == '&':
            out.append(rng.choice(('&amp;', '&#38;', '&#x26;')))
        elif ch == '<':
            out.append(rng.choice(('&lt;', '&#60;')))
        elif ch == '>':
            out.append('&gt;')
        elif ch == '"' and attr:
            out.append('&quot;')
        elif ch in '\t\n' and attr:
            out.append('&#%d;' % ord(ch))
        elif rng.random() < .02:
            out.append('&#%d;' % ord(ch))
        else:
            out.append(ch)
    return ''.join(out)


class Writer(object):
    """opt: dict of choices, see options()."""

    def __init__(self, wb, rng, opt=None):
        self.wb, self.rng = wb, rng
        self.opt = opt or options(rng)
        self.p = self.opt['prefix']
        self.sst, self.sstx = [], {}
        self.parts = []

    def el(self, tag, attrs=(), body=None):
        attrs = [(k, v) for k, v in attrs if v is not None]
        if self.opt['shuffle_attrs']:
            self.rng.shuffle(attrs)
        a = ''.join(' %s="%s"' % (k, xml(self.rng, str(v), True))
                    for k, v in attrs)
        t = self.p + tag
        if body is None or body == '':
            if self.rng.random() < .7:
                return '<%s%s/>' % (t, a)
            body = ''
        return '<%s%s>%s</%s>' % (t, a, body, t)

    def gap(self):
        if self.opt['gaps']:
            return self.rng.choice(('', '\n', '  ', '\r\n\t',
                                    '<!-- row -->'))
        return ''

    def root(self, tag, body, ns=SS, extra=''):
        t = self.p + tag if ns == SS else tag
        if ns == SS and self.p:
            decl = ' xmlns:%s="%s"' % (self.p[:-1], SS)
        else:
            decl = ' xmlns="%s"' % ns
        decl += ' xmlns:r="%s"' % OD + extra
        enc = self.opt['encoding']
        s = '<?xml version="1.0" encoding="%s" standalone="yes"?>\n' \
            '<%s%s>%s</%s>' % (enc, t, decl, body, t)
        return s.encode(enc, 'xmlcharrefreplace')

    # -- text

    def t_elem(self, s):
        """<t> for the string s, s as it should come out."""
        rng = self.rng
        keep = s != s.strip(WS) or rng.random() < .3
        e = xml(rng, escape_text(rng, s))
        if not keep and rng.random() < .15:
            # space around that is not to be preserved
            e = rng.choice((' ', '\n', '\t')) + e + rng.choice((' ', '\n'))
        no = 'default' if rng.random() < .05 else None
        return self.el('t', [('xml:space', 'preserve' if keep else no)], e)

    def si_body(self, s):
        rng = self.rng
        ph = ''
        if s == '' and rng.random() < .3:
            return ''
        if rng.random() < .15:
            ph = self.el('rPh', [('sb', 0), ('eb', 1)],
                         self.el('t', (), 'phonetic'))
            if rng.random() < .5:
                ph += self.el('phoneticPr', [('fontId', 1)])
        if rng.random() < .3:
            # rich text runs
            body = ''
            cuts = sorted(rng.randint(0, len(s))
                          for _ in range(rng.randint(0, 3)))
            for a, b in zip([0] + cuts, cuts + [len(s)]):
                rpr = self.el('rPr', (), self.el('b') + self.el(
                    'sz', [('val', 11)])) if rng.random() < .6 else ''
                # each run is a text of its own: the escapes must not
                # span two runs
                body += self.el('r', (), rpr + self.t_elem(s[a:b]))
            return body + ph
        return self.t_elem(s) + ph

    def shared(self, s):
        if s in self.sstx and self.rng.random() < .8:
            return self.sstx[s]
        self.sst.append(s)
        self.sstx[s] = len(self.sst) - 1
        return len(self.sst) - 1

    # -- parts

    def cell(self, r, c, cell, explicit):
        rng, opt = self.rng, self.opt
        ref = None
        if explicit:
            ref = '%s%d' % (colname(c), r + 1)
            if opt['dollar'] and rng.random() < .2:
                ref = '$%s$%d' % (colname(c), r + 1)
            if opt['lower'] and rng.random() < .3:
                ref = ref.lower()
        s = cell.xf if cell.xf or rng.random() < .3 else None
        f = ''
        if rng.random() < .15:
            f = self.el('f', [('t', rng.choice((None, 'shared')))],
                        rng.choice(('A1+1', 'SUM(A1:B2)', '', '1&lt;2')))
        t = None
        if cell.kind == 'number':
            t = rng.choice((None, None, 'n'))
            v = cell.value
            v = rng.choice((repr(v), '%.17g' % v, '%.17E' % v,
                            '%d' % v if v == int(v) and abs(v) < 1e15 and
                            str(v) != '-0.0' else repr(v)))
            body = f + self.el('v', (), v)
        elif cell.kind == 'text':
            v = cell.value
            enc = rng.choice(('s', 's', 's', 'str', 'inlineStr'))
            if v == '' and enc == 'inlineStr':
                enc = 's'
            cell.enc = t = enc
            if enc == 's':
                body = f + self.el('v', (), str(self.shared(v)))
            elif enc == 'str':
                keep = v != v.strip(WS)
                body = f + self.el('v', [
                    ('xml:space', 'preserve' if keep else None)],
                    xml(rng, escape_text(rng, v)))
            else:
                body = self.el('is', (), self.si_body(v))
        elif cell.kind == 'bool':
            t = 'b'
            body = f + self.el('v', (), rng.choice(
                ('1', '1', 'true') if cell.value else ('0', '0', 'false')))
        elif cell.kind == 'error':
            t = 'e'
            body = f + self.el('v', (), M.ERRORS[cell.value])
        else:
            body = ''
            t = rng.choice((None, None, 'n', 's'))
        return self.el('c', [('r', ref), ('s', s), ('t', t)], body)

    def sheet_xml(self, sh):
        rng, opt = self.rng, self.opt
        rows = {}
        for (r, c), cell in sh.cells.items():
            rows.setdefault(r, {})[c] = cell
        out = []
        nr, nc = sh.dims(True)
        d = rng.random()
        if d < .6 and nr and nc:
            out.append(self.el('dimension', [
                ('ref', 'A1:%s%d' % (colname(nc - 1), nr))]))
        elif d < .8:
            # only a hint, may be wrong
            out.append(self.el('dimension', [
                ('ref', rng.choice(('A1', 'A1:XFD1048576', 'B2:C3',
                                     'A1:20', '5', '1:1048576')))]))
        if rng.random() < .3:
            out.append(self.el('sheetViews', (), self.el('sheetView', [
                ('workbookViewId', 0)])))
        if rng.random() < .3:
            out.append(self.el('cols', (), self.el('col', [
                ('min', 1), ('max', 3), ('width', 12)])))
        body = []
        prev = -1
        todo = sorted(rows)
        if opt['unsorted'] and opt['rowref'] != 'never':
            rng.shuffle(todo)
        i = 0
        while i < len(todo):
            r = todo[i]
            # rows with nothing stored may be there, or not
            if opt['rowref'] == 'never' and r > prev + 1:
                body.append(self.el('row'))
                prev += 1
                continue
            if r > prev + 1 and rng.random() < .1:
                prev = rng.randint(prev + 1, r - 1)
                body.append(self.el('row', [('r', prev + 1),
                                            ('ht', rng.choice((None, 15)))]))
            explicit = r != prev + 1 or opt['rowref'] == 'always' or \
                (opt['rowref'] == 'mixed' and rng.random() < .5)
            cells = []
            cprev = -1
            cols = sorted(rows[r])
            if opt['unsorted'] and opt['cellref'] != 'never' and \
                    rng.random() < .3:
                rng.shuffle(cols)
            for c in cols:
                cexp = c != cprev + 1 or opt['cellref'] == 'always' or \
                    (opt['cellref'] == 'mixed' and rng.random() < .5)
                if cexp and opt['cellref'] == 'never' and c < cprev + 60:
                    # empty cells in between
                    while cprev + 1 < c:
                        cells.append(self.el('c'))
                        cprev += 1
                    cexp = False
                if cexp and not explicit and opt['rowref'] == 'never':
                    pass
                cells.append(self.cell(r, c, rows[r][c], cexp))
                cells.append(self.gap())
                cprev = c
            attrs = [('r', r + 1 if explicit else None),
                     ('spans', rng.choice((None, '1:5'))),
                     ('s', rng.choice((None, None, 1))),
                     ('hidden', rng.choice((None, None, 1)))]
            body.append(self.el('row', attrs, ''.join(cells)))
            body.append(self.gap())
            prev = r
            i += 1
        out.append(self.el('sheetData', (), ''.join(body)))
        if sh.merges:
            out.append(self.el('mergeCells', [('count', len(sh.merges))],
                               ''.join(self.el('mergeCell', [
                                   ('ref', self.mergeref(m))])
                                   for m in sh.merges)))
        if rng.random() < .3:
            out.append(self.el('pageMargins', [('left', '0.7')]))
        return self.root('worksheet', self.gap().join(out))

    def mergeref(self, m):
        a = '%s%d' % (colname(m[2]), m[0] + 1)
        b = '%s%d' % (colname(m[3] - 1), m[1])
        if a == b and self.rng.random() < .5:
            return a
        return a + ':' + b

    def comments_xml(self, sh):
        rng = self.rng
        authors = []
        body = []
        for (r, c), (author, text) in sh.notes.items():
            if author not in authors or rng.random() < .2:
                authors.insert(rng.randint(0, len(authors)), author)
        if rng.random() < .2:
            # an author without a name, of no note
            authors.insert(rng.randint(0, len(authors)), '')
        for (r, c), (author, text) in sh.notes.items():
            ids = [i for i, a in enumerate(authors) if a == author]
            cuts = sorted(rng.randint(0, len(text))
                          for _ in range(rng.randint(0, 2)))
            if rng.random() < .5:
                t = ''.join(self.el('r', (), self.el('rPr', (), self.el('b'))
                                    + self.t_elem(text[a:b]))
                            for a, b in zip([0] + cuts, cuts + [len(text)]))
            else:
                t = self.t_elem(text)
            body.append(self.el('comment', [
                ('ref', '%s%d' % (colname(c), r + 1)),
                ('authorId', rng.choice(ids))], self.el('text', (), t)))
        rng.shuffle(body)
        return self.root('comments', self.el(
            'authors', (), ''.join(self.el('author', (), xml(rng, a))
                                   for a in authors)) + self.el(
            'commentList', (), ''.join(body)))

    def styles_xml(self):
        rng, wb = self.rng, self.wb
        ids = {}
        fmts = []
        nextid = rng.choice((164, 165, 200, 300))
        xfs = []
        # ids of standard formats, for formats of this file
        own = []
        if rng.random() < .25:
            own = [k for k in range(1, 82) if k not in
                   [key for key, d in wb.xfs]]
            rng.shuffle(own)
        nstyles = rng.choice((0, 1, 2, 3, 24))
        for key, isdate in wb.xfs:
            if isinstance(key, int):
                fid = key
            else:
                if key not in ids:
                    if own and rng.random() < .6:
                        ids[key] = own.pop()
                    else:
                        ids[key] = nextid
                        nextid += rng.randint(1, 3)
                    fmts.append(self.el('numFmt', [
                        ('numFmtId', ids[key]), ('formatCode', key)]))
                fid = ids[key]
            if fid == 0 and rng.random() < .3:
                fid = None
            # the style it is of does not matter
            sid = rng.randrange(nstyles) if nstyles and rng.random() < .7 \
                else None
            xfs.append(self.el('xf', [('numFmtId', fid), ('fontId', 0),
                                      ('xfId', sid), ('fillId', rng.choice(
                                          (None, 0, 14))),
                                      ('applyNumberFormat', rng.choice(
                                          (None, 0, 1, 1)))],
                               rng.choice(('', self.el('alignment', [
                                   ('horizontal', 'center')])))))
        body = ''
        if fmts:
            body += self.el('numFmts', [('count', len(fmts))], ''.join(fmts))
        body += self.el('fonts', [('count', 1)], self.el('font'))
        # style xfs are another list, dates or not must not matter
        body += self.el('cellStyleXfs', (), ''.join(
            self.el('xf', [('numFmtId', rng.choice((0, 14, 22, 2)))])
            for _ in range(nstyles)))
        body += self.el('cellXfs', [('count', len(xfs))], ''.join(xfs))
        body += self.el('cellStyles', (), self.el('cellStyle', [
            ('name', 'Normal'), ('xfId', 0)]))
        if rng.random() < .3:
            body += self.el('dxfs', (), self.el('dxf', (), self.el(
                'numFmt', [('numFmtId', 400), ('formatCode', 'yyyy')])))
        return self.root('styleSheet', body)

    def workbook_xml(self, rids, extras):
        rng, wb = self.rng, self.wb
        sheets = []
        for i, (sh, rid) in enumerate(zip(wb.sheets, rids)):
            state = {0: rng.choice((None, None, 'visible')), 1: 'hidden',
                     2: 'veryHidden'}[sh.visibility]
            sheets.append(self.el('sheet', [
                ('name', escape_text(rng, sh.name)), ('sheetId', i * 3 + 1),
                ('state', state), ('r:id', rid)]))
        for rid, name in extras:
            sheets.insert(rng.randint(0, len(sheets)), self.el('sheet', [
                ('name', name), ('sheetId', 1000), ('r:id', rid)]))
        body = ''
        if rng.random() < .4:
            body += self.el('fileVersion', [('appName', 'xl')])
        d = None
        if wb.datemode:
            d = rng.choice(('1', 'true'))
        elif rng.random() < .4:
            d = rng.choice(('0', 'false'))
        if d is not None or rng.random() < .5:
            body += self.el('workbookPr', [('date1904', d),
                                           ('codeName', 'ThisWorkbook')])
        if rng.random() < .5:
            body += self.el('bookViews', (), self.el('workbookView', [
                ('activeTab', 0)]))
        body += self.el('sheets', (), self.gap().join(sheets))
        if wb.names:
            body += self.el('definedNames', (), ''.join(
                self.el('definedName', [
                    ('name', n['name']), ('localSheetId', n['scope'] if
                                          n['scope'] >= 0 else None),
                    ('hidden', n['hidden'] or None)] + [
                        (k, v) for k, v in n.get('more', ())], xml(rng, n['formula']))
                for n in wb.names))
        body += self.el('calcPr', [('calcId', 1)])
        return self.root('workbook', body)

    def rels(self, items):
        rng = self.rng
        body = []
        for rid, typ, target in items:
            a = [('Id', rid), ('Type', OD + '/' + typ), ('Target', target)]
            rng.shuffle(a)
            body.append('<Relationship%s/>' % ''.join(
                ' %s="%s"' % (k, xml(rng, v, True)) for k, v in a))
        rng.shuffle(body)
        return self.root('Relationships', ''.join(body), PR)

    def part(self, name, data):
        rng = self.rng
        case = self.opt['case']
        if case == 'upper':
            name = name.upper()
        elif case == 'lower':
            name = name.lower()
        elif case == 'mixed':
            name = ''.join(rng.choice((ch.upper(), ch.lower()))
                           for ch in name)
        if self.opt['backslash']:
            name = name.replace('/', '\\')
        self.parts.append((name, data))

    def target(self, path):
        """Target in the rels of the workbook for path in xl/."""
        rng = self.rng
        if self.opt['target_case']:
            path = ''.join(rng.choice((ch.upper(), ch.lower()))
                           for ch in path)
        if self.opt['absolute']:
            return '/' + self.folder(path) + path
        return path

    def folder(self, path):
        """Where a part of the workbook is, in or beside xl/."""
        low = path.lower()
        if self.opt['outside'] and self.opt['absolute'] and \
                low.startswith('worksheets/'):
            return self.opt['outside']
        return 'xl/'

    def make(self):
        rng, wb, opt = self.rng, self.wb, self.opt
        n = len(wb.sheets)
        if any(sh.notes for sh in wb.sheets):
            # relations of a sheet are looked for in xl/worksheets/_rels
            opt['outside'] = ''
        rids = ['rId%d' % i for i in range(1, n + 1)]
        rng.shuffle(rids)
        fnames = ['%s%d.xml' % (opt['partname'], i + 1) for i in range(n)]
        rng.shuffle(fnames)
        items = []
        extras = []
        for i, sh in enumerate(wb.sheets):
            path = 'worksheets/' + fnames[i]
            items.append((rids[i], 'worksheet', self.target(path)))
            self.part(self.folder(path) + path, self.sheet_xml(sh))
            if (sh.notes or rng.random() < .1) and \
                    self.folder(path) == 'xl/':
                cname = 'comments%d.xml' % (n - i)
                cdir = rng.choice(('xl/', 'xl/worksheets/', 'xl/comments/'))
                rel = {'xl/': '../', 'xl/worksheets/': '',
                       'xl/comments/': '../comments/'}[cdir] + cname
                if rng.random() < .3:
                    rel = '/' + cdir + cname
                srel = [('rId9', 'vmlDrawing', '../drawings/vml1.vml')]
                if sh.notes:
                    srel.append(('rId1', 'comments', rel))
                    self.part(cdir + cname, self.comments_xml(sh))
                elif rng.random() < .3:
                    # a part that is not there
                    srel.append(('rId1', 'comments', '../gone.xml'))
                self.part('xl/worksheets/_rels/%s.rels' % fnames[i],
                          self.rels(srel))
        if opt['charts']:
            for j in range(rng.randint(1, 2)):
                typ = rng.choice(('chartsheet', 'dialogsheet'))
                rid = 'rId%d' % (n + 5 + j)
                path = '%ss/sheet%d.xml' % (typ, j + 1)
                items.append((rid, typ, self.target(path)))
                extras.append((rid, 'Chart%d' % (j + 1)))
                self.part('xl/' + path, self.root(typ, ''))
        items.append(('rIdS', 'styles', self.target('styles.xml')))
        if self.sst or rng.random() < .3:
            items.append(('rIdT', 'sharedStrings',
                          self.target('sharedStrings.xml')))
            body = self.gap().join(self.el('si', (), self.si_body(s))
                                   for s in self.sst)
            body += self.gap()
            self.part('xl/sharedStrings.xml', self.root('sst', body))
        if opt['styles']:
            self.part('xl/styles.xml', self.styles_xml())
        self.part('xl/workbook.xml', self.workbook_xml(rids, extras))
        self.part('xl/_rels/workbook.xml.rels', self.rels(items))
        self.part('_rels/.rels', self.rels([
            ('rId1', 'officeDocument', 'xl/workbook.xml')]))
        self.part('[Content_Types].xml', b'<?xml version="1.0"?><Types xmlns='
                  b'"http://schemas.openxmlformats.org/package/2006/'
                  b'content-types"/>')
        props = opt.get('props')
        if props is None and rng.random() < .3:
            props = {'dc:creator': 'me'}
        if props is not None:
            self.part('docProps/core.xml', (
                '<?xml version="1.0"?><cp:coreProperties xmlns:cp="http://'
                'schemas.openxmlformats.org/package/2006/metadata/core-'
                'properties" xmlns:dc="http://purl.org/dc/elements/1.1/" '
                'xmlns:dcterms="http://purl.org/dc/terms/" xmlns:xsi='
                '"http://www.w3.org/2001/XMLSchema-instance">' + ''.join(
                    '<%s%s>%s</%s>' % (
                        k, ' xsi:type="dcterms:W3CDTF"' if
                        k.startswith('dcterms') else '', xml(rng, v), k)
                    for k, v in props.items()) +
                '</cp:coreProperties>').encode('utf-8'))
        if opt['order']:
            rng.shuffle(self.parts)
        bio = io.BytesIO()
        with zipfile.ZipFile(bio, 'w', opt['zip']) as zf:
            for name, data in self.parts:
                zi = zipfile.ZipInfo(name)
                # ZipInfo does not alter the name with / as os separator
                zi.compress_type = opt['zip']
                zf.writestr(zi, data)
        return bio.getvalue()


PLAIN = dict(prefix='', shuffle_attrs=False, gaps=False, encoding='UTF-8',
             dollar=False, lower=False, rowref='always', cellref='always',
             case='as is', backslash=False, target_case=False,
             absolute=False, outside='', partname='sheet', charts=False, styles=True,
             order=False, unsorted=False, zip=zipfile.ZIP_DEFLATED)


def options(rng, wb=None):
    o = dict(
        prefix=rng.choice(('', '', 'x:', 'ns0:')),
        shuffle_attrs=rng.random() < .5, gaps=rng.random() < .5,
        encoding=rng.choice(('UTF-8', 'UTF-8', 'UTF-8', 'UTF-16',
                             'ISO-8859-1', 'US-ASCII')),
        dollar=rng.random() < .15, lower=rng.random() < .15,
        rowref=rng.choice(('always', 'always', 'mixed', 'never')),
        cellref=rng.choice(('always', 'always', 'mixed', 'never')),
        case=rng.choice(('as is', 'as is', 'upper', 'lower', 'mixed')),
        backslash=rng.random() < .1, target_case=rng.random() < .2,
        absolute=rng.random() < .3,
        outside=rng.choice(('', '', '', 'other/', 'Data/xl/')),
        partname=rng.choice(('sheet', 'sheet', 'Data', 'x_')),
        charts=rng.random() < .15, styles=True,
        order=rng.random() < .5, unsorted=rng.random() < .15,
        zip=rng.choice((zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED)))
    return o


def write(wb, rng, opt=None):
    w = Writer(wb, rng, opt or options(rng))
    return w.make(), w
