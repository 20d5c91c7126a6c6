"""Write compound files (OLE2) around a stream, in any layout."""
from struct import pack

FREE, EOC, SATS, MSATS = -1, -2, -3, -4
SIG = b'\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1'


class Entry(object):
    def __init__(self, name, data=None, children=None):
        self.name, self.data, self.children = name, data, children
        self.did = None
        self.left = self.right = self.root = -1
        self.sid, self.size = EOC, 0

    def __repr__(self):
        return '<%s>' % self.name


def simple(stream, name='Workbook'):
    """The layout ordinary writers make."""
    data = stream + b'\0' * max(0, 4096 - len(stream))
    return Ole([Entry(name, data)]).make()


class Ole(object):
    def __init__(self, entries, rng=None, **opt):
        self.entries, self.rng = entries, rng
        self.opt = dict(ssz=9, sssz=6, cutoff=4096, order='plain',
                        tree='balanced', spare=0, deep=False, extra_sat=0,
                        dirpad=0, trailing=0, cut=None)
        self.opt.update(opt)
        self.info = {}

    def flatten(self):
        """Give entries directory ids, siblings a tree."""
        rng, opt = self.rng, self.opt
        root = Entry('Root Entry', None, self.entries)
        alle = [root]

        def walk(e):
            for ch in e.children or ():
                alle.append(ch)
                walk(ch)
        walk(root)
        rest = alle[1:]
        if rng is not None and opt['order'] != 'plain':
            rng.shuffle(rest)
        # unused entries in between
        dirs = [root]
        for e in rest:
            while rng is not None and opt['dirpad'] and \
                    rng.random() < opt['dirpad']:
                dirs.append(None)
            dirs.append(e)
        for i, e in enumerate(dirs):
            if e is not None:
                e.did = i
        for e in alle:
            if e.children:
                e.root = self.tree(self.sorted(e.children))
        return root, dirs

    def sorted(self, children):
        return sorted(children, key=lambda e: (len(e.name), e.name.upper()))

    def tree(self, es):
        """Make a tree of siblings, return the did of its root."""
        if not es:
            return -1
        shape = self.opt['tree']
        if shape == 'left':
            k = len(es) - 1
        elif shape == 'right':
            k = 0
        elif shape == 'random':
            k = self.rng.randrange(len(es))
        else:
            k = len(es) // 2
        stack = [(es, None, None)]
        rootdid = None
        while stack:
            part, parent, side = stack.pop()
            if not part:
                continue
            if shape == 'left':
                k = len(part) - 1
            elif shape == 'right':
                k = 0
            elif shape == 'random':
                k = self.rng.randrange(len(part))
            else:
                k = len(part) // 2
            e = part[k]
            if parent is None:
                rootdid = e.did
            else:
                setattr(parent, side, e.did)
            stack.append((part[:k], e, 'left'))
            stack.append((part[k + 1:], e, 'right'))
        return rootdid

    def make(self):
        rng, opt = self.rng, self.opt
        ss, sss = 1 << opt['ssz'], 1 << opt['sssz']
        nent = ss // 4
        root, dirs = self.flatten()
        # chains of sectors: name -> list of sector contents
        shorts, ssat = [], []
        chains = []
        streams = [e for e in dirs if e is not None and e is not root and
                   e.data is not None]
        if rng is not None and opt['order'] != 'plain':
            rng.shuffle(streams)
        short_todo = []
        for e in streams:
            e.size = len(e.data)
            if e.size >= opt['cutoff']:
                chains.append((e, chunks(e.data, ss)))
            elif e.size:
                short_todo.append(e)
        # short sectors
        nshort = sum(-(-e.size // sss) for e in short_todo)
        slots = list(range(nshort + (opt['spare'] if nshort else 0)))
        if opt['order'] != 'plain':
            if opt['order'] == 'shuffle':
                rng.shuffle(slots)
        shorts = [b'\xee' * sss] * len(slots)
        ssat = [FREE] * len(slots)
        for e in short_todo:
            parts = chunks(e.data, sss)
            mine, slots = slots[:len(parts)], slots[len(parts):]
            e.sid = mine[0]
            for i, (s, p) in enumerate(zip(mine, parts)):
                shorts[s] = p
                ssat[s] = mine[i + 1] if i + 1 < len(mine) else EOC
        sscs = b''.join(shorts)
        root.size = len(sscs)
        if sscs:
            chains.append((root, chunks(sscs, ss)))
        ssat_secs = []
        if ssat:
            fill = -len(ssat) % nent
            raw = pack('<%di' % (len(ssat) + fill), *(ssat + [FREE] * fill))
            ssat_secs = chunks(raw, ss)
        # the directory
        nd = len(dirs)
        per = ss // 128
        dir_n = max(1, -(-nd // per))
        # place all but the allocation tables
        nsec = sum(len(c) for e, c in chains) + len(ssat_secs) + dir_n
        nsec += opt['spare']
        # allocation table sectors
        nsat = nmsat = 0
        while True:
            tot = nsec + nsat + nmsat
            want = -(-tot // nent) + opt['extra_sat']
            wantm = max(0, -(-(want - 109) // (nent - 1)))
            if want <= nsat and wantm <= nmsat:
                break
            nsat, nmsat = max(want, nsat), max(wantm, nmsat)
        tot = nsec + nsat + nmsat
        sids = list(range(tot))
        if opt['order'] == 'shuffle':
            rng.shuffle(sids)
        elif opt['order'] == 'runs':
            # runs of neighbours in random order
            cuts = sorted(rng.sample(range(1, tot), min(tot - 1,
                                     rng.randint(1, 8)))) if tot > 1 else []
            runs = [sids[a:b] for a, b in zip([0] + cuts, cuts + [tot])]
            rng.shuffle(runs)
            sids = [s for r in runs for s in r]
        elif opt['order'] == 'reverse':
            sids.reverse()
        cut = opt['cut'] and opt['order'] != 'plain' and any(
            e is opt['cut'] and e.size % ss for e, c in chains)
        if cut:
            # the stream's last sector is the last one in the file, where
            # nothing is written beyond its data
            sids.remove(tot - 1)
            sids.append(tot - 1)
        sectors = [None] * tot
        sat = [FREE] * tot
        jobs = [('dir', None, [b''] * dir_n)]
        jobs += [('ssat', None, ssat_secs)] if ssat_secs else []
        jobs += [('stream', e, c) for e, c in chains]
        if rng is not None and opt['order'] != 'plain':
            rng.shuffle(jobs)
        if cut:
            jobs.sort(key=lambda j: j[1] is opt['cut'])
        satids = sids[:nsat] if opt['order'] != 'plain' else sids[-nsat:]
        sids = sids[nsat:] if opt['order'] != 'plain' else sids[:-nsat]
        msatids = sids[:nmsat]
        sids = sids[nmsat:]
        ssat_first, dirids = EOC, None
        for kind, e, parts in jobs:
            if opt['order'] == 'interleave':
                keep = bool(cut) and e is not opt['cut']
                mine = [sids.pop(rng.randrange(min(len(sids) - keep, 9)))
                        for _ in parts]
            else:
                mine, sids = sids[:len(parts)], sids[len(parts):]
            if cut and e is opt['cut']:
                if tot - 1 in mine:
                    mine.remove(tot - 1)
                    mine.append(tot - 1)
                mine[-1], cut = tot - 1, e.size % ss
            for i, (s, p) in enumerate(zip(mine, parts)):
                sectors[s] = p
                sat[s] = mine[i + 1] if i + 1 < len(mine) else EOC
            if kind == 'dir':
                dirids = mine
            elif kind == 'ssat':
                ssat_first = mine[0]
            else:
                e.sid = mine[0]
                runs = 1 + sum(1 for a, b in zip(mine, mine[1:])
                               if b != a + 1)
                self.info[e.name] = (len(mine), runs)
        raw = b''
        dirs += [None] * (dir_n * per - nd)
        for e in dirs:
            raw += dirent(e, root)
        for s, p in zip(dirids, chunks(raw, ss)):
            sectors[s] = p
        for s in satids:
            sat[s] = SATS
        for s in msatids:
            sat[s] = MSATS
        sat += [FREE] * (nsat * nent - len(sat))
        for i, s in enumerate(satids):
            sectors[s] = pack('<%di' % nent, *sat[i * nent:(i + 1) * nent])
        msat = satids[:109]
        rest = satids[109:]
        for i, s in enumerate(msatids):
            part = rest[i * (nent - 1):(i + 1) * (nent - 1)]
            part += [FREE] * (nent - 1 - len(part))
            nxt = msatids[i + 1] if i + 1 < len(msatids) else EOC
            sectors[s] = pack('<%di' % nent, *(part + [nxt]))
        msat += [FREE] * (109 - len(msat))
        head = SIG + b'\0' * 16
        head += pack('<HHHHH', 0x3e, 4 if opt['ssz'] == 12 else 3, 0xfffe,
                     opt['ssz'], opt['sssz']) + b'\0' * 6
        head += pack('<iiiiiiiii', dir_n if opt['ssz'] == 12 else 0, nsat,
                     dirids[0], 0, opt['cutoff'], ssat_first,
                     len(ssat_secs), msatids[0] if msatids else EOC,
                     len(msatids))
        head += pack('<109i', *msat)
        assert len(head) == 512
        # the header takes one sector
        head += b'\0' * (ss - 512)
        body = b''.join(pad(s if s is not None else b'\xdd' * ss, ss)
                        for s in sectors)
        self.info.update(sectors=tot, sat=nsat, msat=nmsat, dirs=nd,
                         shorts=len(shorts))
        if cut:
            body = body[:len(body) - ss + cut]
            self.info['cut'] = cut
            return head + body
        return head + body + b'\0' * opt['trailing']


def chunks(b, n):
    return [pad(b[i:i + n], n) for i in range(0, len(b), n)]


def pad(b, n):
    return b if len(b) == n else b + b'\xcc' * (n - len(b))


def dirent(e, root):
    if e is None:
        return b'\0' * 68 + pack('<iii', -1, -1, -1) + b'\0' * 48
    n = e.name.encode('utf-16-le')[:62]
    typ = 5 if e is root else 2 if e.children is None else 1
    return (n + b'\0' * (64 - len(n)) +
            pack('<HBBiii', len(n) + 2, typ, 1, e.left, e.right, e.root) +
            b'\0' * 36 + pack('<iii', e.sid if e.size or e is root else EOC,
                              e.size, 0))
