"""Reading checks (C09, C10, C11, C21, C24): files built byte by byte, read by drv_read, judged by MdfRead."""
import struct
import mdfgen as M
import vlib
TCFG = 'SPECIFICATION TSpec\n'


def fbits(rng, bits):
    v = rng.getrandbits(bits)
    mb, eb = {16: (10, 5), 32: (23, 8), 64: (52, 11)}[bits]
    if rng.random() < 0.2:
        v &= ~(((1 << eb) - 1) << mb)
    if (v >> mb) & ((1 << eb) - 1) == (1 << eb) - 1:
        v &= ~((1 << mb) - 1)
    return v


def textbytes(rng, k, n):
    """n bytes that are a text of kind k, possibly with a terminating zero inside"""
    b = bytearray()
    while len(b) < n:
        if k in 'wW':
            u = rng.choice([0x41, 0x61, 0xE5, 0x416, 0x20AC, 0x4E2D, rng.randrange(0x20, 0xD800)])
            b += struct.pack('<H' if k == 'w' else '>H', u)
        elif k == 'l':
            b.append(rng.choice([0x41, 0x20, 0xE5, 0xFF, rng.randrange(0x20, 0x100)]))
        else:
            c = rng.choice(['a', 'Z', ' ', '\u00e5', '\u20ac', '0', '"', ';', '\n', '\r', '\t']).encode()
            if len(b) + len(c) > n:
                c = b'x'
            b += c
    b = b[:n]
    if n and rng.random() < 0.4:
        z = rng.randrange(n)
        if k in 'wW':
            z -= z % 2
            b[z:z + 2] = b'\0\0'
        else:
            if k == 't':
                while z > 0 and (b[z] & 0xC0) == 0x80:
                    z -= 1
            b[z] = 0
            if k == 't':
                for i in range(z + 1, n):
                    b[i] = 0x41
    return bytes(b)


# names that need care in a table or a file name
ODD = ['c\rd', 't\tb', 'r\r\nn', '"', 'a;b', 'q"x"', 'two words ', 'a,b', '[x]', 'l\nm', '\u00e5', "'"]
NAMES = ['same', 'sa me', 's.a.m.e', 'CG_1', 'CG_2', '_', '..', '/', 'other/name', '\u00e5', 'x;y', '"']
FRAMES = ['CAN_DataFrame', 'CAN_RemoteFrame', 'CAN_ErrorFrame', 'CAN_OverloadFrame']


class Group:
    """one channel group under construction"""

    def __init__(self, name):
        self.name, self.chs, self.data, self.inval = name, [], 0, 0
        self.cons = []          # functions filling a record
        self.sr = []
        self.vlsd = False
        self.recs = []
        self.links = {}         # channel index -> data link block

    def add(self, **kw):
        c = dict(name='%s%d' % (self.name, len(self.chs) + 1), dt='u', be=False, byte=0, bit=0, bits=0, n=1, ty='fix', all=False, ib=-1, ref=0, sd=[], typ=0, sync=0, code=0)
        c.update(kw)
        self.chs.append(c)
        return c


def bitset(rec, byte, bit, bits, be, val):
    nb = (bit + bits + 7) // 8
    o = 'big' if be else 'little'
    cur = int.from_bytes(rec[byte:byte + nb], o)
    cur = (cur & ~(((1 << bits) - 1) << bit)) | (val << bit)
    rec[byte:byte + nb] = cur.to_bytes(nb, o)


def group(rng, name, nrec, m3=False, inv=0.4, vl=(), maxch=5, numeric=False, times=None, arr=0.0):
    """vl: variable length storages to include, any of 'sd', 'cg', 'ml'"""
    g = Group(name)
    pos = 0
    fills = []
    if rng.random() < 0.7:
        g.add(dt='f', byte=pos, bits=64, typ=1 if m3 else 2, sync=1, code=3 if m3 else 4)
        fills.append((pos, 0, 64, False))
        pos += 8
    elif not m3 and rng.random() < 0.5:
        g.add(dt='u', ty='virt', typ=3, sync=1, code=0)
    for _ in range(rng.randrange(0, maxch)):
        k = rng.choice('uUsSfF' if numeric else ('uUsSuUsSfFlb' if m3 else 'uUsSuUsSfFltwWb'))
        gap = rng.choice([0, 0, 0, 1, 3])
        pos += gap
        if k in 'uUsS':
            bits = rng.choice([8, 16, 32, 64, 1, 12, 24, rng.randrange(1, 65)])
            bit = rng.randrange(8)
            nb = (bit + bits + 7) // 8
            code = {'u': 13, 'U': 9, 's': 14, 'S': 10}[k] if m3 else M.DT[k]
            g.add(dt=M.CLS[k], be=k.isupper(), byte=pos, bit=bit, bits=bits, code=code)
            if bit == 0 and bits % 8 == 0 and rng.random() < arr:
                # an array of such numbers: the elements follow each other
                dims = [rng.randrange(1, 4) for _ in range(rng.randrange(1, 4))]
                g.chs[-1]['dims'] = dims
                tot = 1
                for x in dims:
                    tot *= x
                nb *= tot
            elif rng.random() < 0.4:      # a second number sharing the same bytes
                b2 = rng.randrange(1, nb * 8 + 1)
                if b2 <= 64:
                    o2 = rng.randrange(0, min(8, nb * 8 - b2 + 1))
                    g.add(dt=M.CLS[k], be=k.isupper(), byte=pos if k.islower() or (o2 + b2 + 7) // 8 == nb else pos, bit=o2, bits=b2, code=code)
        elif k in 'fF':
            bits = rng.choice([32, 64] if m3 else [16, 32, 64])
            nb = bits // 8
            code = ({32: 15, 64: 16} if k == 'f' else {32: 11, 64: 12})[bits] if m3 else M.DT[k]
            g.add(dt='f', be=k == 'F', byte=pos, bits=bits, code=code)
            fills.append((pos, 1, bits, k == 'F'))
        else:
            nb = rng.choice([2, 4, 6, 10])
            g.add(dt=M.CLS[k], be=k == 'W', byte=pos, bits=8 * nb, code=(7 if k == 'l' else 8) if m3 else M.DT[k])
            fills.append((pos, 2, nb, k))
        pos += nb
    if not m3 and not numeric and rng.random() < 0.15:
        g.add(dt='u', ty='virt', typ=6, code=0)
    vls = []
    for v in vl:
        k = rng.choice('ltwWbbb')
        if v == 'ml':
            k = 'b'
            cap = rng.choice([1, 4, 9, 20])
            lb = rng.choice([8, 16, 32])
            sz = g.add(dt='u', byte=pos, bits=lb, code=0)
            szi = len(g.chs)
            pos += lb // 8
            c = g.add(dt='b', byte=pos, bits=8 * cap, ty='ml', ref=szi, typ=5, code=10)
            vls.append(('ml', sz, c, cap, k))
            pos += cap
        else:
            w = rng.choice([64, 64, 32])
            c = g.add(dt=M.CLS[k], be=k == 'W', byte=pos, bits=w, ty=v, typ=1, code=M.DT[k])
            pos += w // 8
            vls.append((v, None, c, 0, k))
    pos += rng.choice([0, 0, 1, 2])
    if pos == 0:
        g.add(dt='u', byte=0, bits=8, code=13 if m3 else 0)
        pos = 1
    g.data = pos
    if not m3 and rng.random() < inv:
        g.inval = rng.randrange(1, 4)
        for c in g.chs:
            if c['ty'] != 'virt' and rng.random() < 0.6:
                c['ib'] = rng.randrange(g.inval * 8)
    if not m3:
        for c in g.chs:
            if rng.random() < 0.05 and c['ty'] != 'virt':
                c['all'] = True
    g.vals = {}
    for v, sz, c, cap, k in vls:
        g.vals[c['name']] = []
    sdpool = {}
    for v, sz, c, cap, k in vls:
        if v == 'sd':
            # entries in any order, entries may be shared, some entries are never used
            ents = []
            for _ in range(max(1, int(nrec * rng.choice([0.5, 1, 1, 1.3])))):
                n = rng.choice([0, 1, 2, 3, 7, 16, 40])
                if k in 'wW':
                    n -= n % 2
                ents.append(bytes(rng.randrange(256) for _ in range(n)) if k == 'b' else textbytes(rng, k, n))
            store, offs = b'', []
            for e in ents:
                offs.append(len(store))
                store += struct.pack('<I', len(e)) + e
            sdpool[c['name']] = (store, offs, rng.random() < 0.5)
    for r in range(nrec):
        rec = bytearray(rng.choice([0, 255, rng.randrange(256), rng.randrange(256)]) for _ in range(g.data + g.inval))
        for p, kind, a, b in fills:
            if kind == 0:
                rec[p:p + 8] = struct.pack('<d', times(rng, r) if times else r * 0.25)
            elif kind == 1:
                bitset(rec, p, 0, a, b, fbits(rng, a))
            else:
                if b == 'b':
                    continue
                rec[p:p + a] = textbytes(rng, b, a)
        for v, sz, c, cap, k in vls:
            if v == 'ml':
                n = rng.choice([0, cap, rng.randrange(cap + 1)])
                rec[sz['byte']:sz['byte'] + sz['bits'] // 8] = n.to_bytes(sz['bits'] // 8, 'little')
            elif v == 'sd':
                store, offs, seq = sdpool[c['name']]
                o = offs[r % len(offs)] if seq else rng.choice(offs)
                rec[c['byte']:c['byte'] + c['bits'] // 8] = o.to_bytes(c['bits'] // 8, 'little')
            else:
                n = rng.choice([0, 1, 2, 3, 7, 16, 40])
                if k in 'wW':
                    n -= n % 2
                e = bytes(rng.randrange(256) for _ in range(n)) if k == 'b' else textbytes(rng, k, n)
                prev = g.vals[c['name']]
                o = sum(4 + len(x) for x in prev)
                prev.append(e)
                rec[c['byte']:c['byte'] + c['bits'] // 8] = o.to_bytes(c['bits'] // 8, 'little')
        g.recs.append(bytes(rec))
    g.sdpool = sdpool
    return g


def mk4(rng, ndg=2, ncg=3, maxrec=12, vl=0.0, inv=0.4, form=None, sr=0.0, numeric=False, unfin=None, cut=False, comp=0.15, rich=False, times=None, odd=False, minrec=0, gname=None):
    dgs, dgb, decl = [], None, []
    lastdt = None
    specs = []
    for d in range(rng.randrange(1, ndg + 1)):
        groups = []
        for i in range(rng.randrange(1, ncg + 1)):
            v = []
            if rng.random() < vl:
                v = [rng.choice(['sd', 'cg', 'ml', 'sd']) for _ in range(rng.choice([1, 1, 2, 3]))]
            groups.append(group(rng, (chr(97 + i) if i < 26 else 'g%d' % i) + str(d) + '_', rng.randrange(minrec, maxrec + 1) if minrec else rng.choice([0, 1, rng.randrange(maxrec + 1), rng.randrange(maxrec + 1)]), inv=inv, vl=v, numeric=numeric, times=times, arr=0.3 if rich else 0.0))
        flat = []           # groups and their variable length groups in file order
        for g in groups:
            flat.append(g)
            for ci, c in enumerate(g.chs):
                if c['ty'] == 'cg':
                    vg = Group('v')
                    vg.vlsd = True
                    vg.recs = g.vals[c['name']]
                    vg.owner = (g, c)
                    flat.append(vg)
        if rng.random() < 0.5:
            rng.shuffle(flat)
        idw = rng.choice([0, 1, 2, 4, 8]) if len(flat) == 1 and not flat[0].vlsd else rng.choice([1, 2, 4, 8])
        rids = []
        while len(rids) < len(flat):
            x = rng.randrange(1, 256) if idw <= 1 else rng.getrandbits(8 * idw) | 1 if rng.random() < 0.7 else rng.randrange(1, 300)
            x &= (1 << (8 * max(idw, 1))) - 1
            if x and x not in rids:
                rids.append(x)
        if len(flat) == 1 and rng.random() < 0.4:
            rids = [0]
        for g, x in zip(flat, rids):
            g.rid = x
        # interleave
        seqs = []
        for g in flat:
            if g.vlsd:
                continue
            own = [v for v in flat if v.vlsd and v.owner[0] is g]
            units = []
            for r in range(len(g.recs)):
                u = [(g, g.recs[r])]
                vr = [(v, v.recs[r]) for v in own]
                units.append(vr + u if rng.random() < 0.5 else u + vr)
            seqs.append(units)
        stream, order = b'', []
        idx = [0] * len(seqs)
        while True:
            av = [i for i in range(len(seqs)) if idx[i] < len(seqs[i])]
            if not av:
                break
            i = rng.choice(av)
            for g, r in seqs[i][idx[i]]:
                b = g.rid.to_bytes(8, 'little')[:idw]
                stream += b + (struct.pack('<I', len(r)) if g.vlsd else b'') + r
            idx[i] += 1
        w = flat[0].data + flat[0].inval + idw
        specs.append((flat, idw, stream, w))
    # build blocks
    nxtdg = None
    out = []
    for d in reversed(range(len(specs))):
        flat, idw, stream, w = specs[d]
        last = d == len(specs) - 1
        if unfin is not None and last and (cut or unfin & 4 or rng.random() < 0.3):
            f2 = rng.choice(['one', 'dl', 'dl'])
            if f2 == 'one':
                tail = stream
                root = Blk = M.Blk('DT', [], tail)
                fr = [tail]
                lastdt = root
            else:
                root, fr = M.store(stream, 'DT', rng, 'dl', w)
                dl = root
                while dl.links[0] is not None:
                    dl = dl.links[0]
                lastdt = dl.links[-1]
            if cut and lastdt.data:
                n = rng.randrange(0, len(lastdt.data) + 1)
                lastdt.data = lastdt.data[:n]
                fr[-1] = fr[-1][:n]
            if unfin & 4:
                lastdt.length = rng.choice([24, 0])
        elif stream == b'' and rng.random() < 0.5:
            root, fr = None, []
        else:
            root, fr = M.store(stream, 'DT', rng, form, w)
        cgblk = {}
        for g in flat:
            cgblk[id(g)] = M.Blk('CG', [None] * 6)
        nxt = None
        cgdecl = []
        for g in reversed(flat):
            cnb = None
            blks = [None] * len(g.chs)
            for i in range(len(g.chs)):
                blks[i] = M.Blk('CN')
            # members of a structure follow it: kids[i] of them
            kids, ends = [0] * len(g.chs), set()
            i = 0
            while i < len(g.chs):
                if rng.random() < comp and 'dims' not in g.chs[i]:
                    kids[i] = rng.randrange(0, len(g.chs) - i)
                    if kids[i]:
                        ends.add(i + kids[i])
                    i += kids[i]
                i += 1
            outer = None
            for i in reversed(range(len(g.chs))):
                c = g.chs[i]
                member = None
                if i in ends:
                    outer = cnb
                    cnb = None
                if kids[i]:
                    member, cnb = cnb, outer
                link = None
                if c['ty'] == 'sd':
                    st = g.sdpool[c['name']][0]
                    if st:
                        link, c['sd'] = M.store(st, 'SD', rng, None, 0, 6)
                        c['sd'] = [list(x) for x in c['sd']]
                elif c['ty'] == 'cg':
                    vg = [v for v in flat if v.vlsd and v.owner[1] is c][0]
                    link = cgblk[id(vg)]
                    c['ref'] = flat.index(vg) + 1
                elif c['ty'] == 'ml':
                    link = blks[c['ref'] - 1]
                fl = (1 if c['all'] else 0) | (2 if c['ib'] >= 0 else 0)
                c['frame'] = odd and rng.random() < 0.08
                nb = M.cn(rng.choice(FRAMES) if c['frame'] else rng.choice(ODD) + c['name'] if odd and rng.random() < 0.4 else c['name'], c['typ'], c['sync'], c['code'], c['byte'], c['bit'], c['bits'], fl, max(0, c['ib']), link, cnb)
                nb.links[1] = member
                if 'dims' in c:
                    nb.links[1] = M.Blk('CA', [None], struct.pack('<BBHIiI', 0, 0, len(c['dims']), 0, c['bits'] // 8, 0) + b''.join(struct.pack('<Q', x) for x in c['dims']))
                if rich:
                    decorate(rng, c, nb)
                blks[i].links, blks[i].data = nb.links, nb.data
                cnb = blks[i]
            srhead = None
            for _ in range(rng.choice([1, 1, 2, 3]) if not g.vlsd and rng.random() < sr and g.inval == 0 else 0):
                cyc = rng.randrange(0, 8)
                by = b''
                for _ in range(cyc * 3):
                    by += mkrec(rng, g)
                col = rng.random() < 0.3
                ro, sf = srstore(rng, by, g.data, cyc, col)
                iv = struct.pack('<d', rng.choice([0.5, 1.0, 10.0]))
                sy = rng.choice([1, 2, 3, 4])
                srhead = M.Blk('SR', [srhead, ro], struct.pack('<Q', cyc) + iv + struct.pack('<BB6x', sy, 0))
                g.sr.insert(0, dict(cyc=cyc, iv=list(iv), sync=sy, frags=[list(x) for x in sf]))
            cb = cgblk[id(g)]
            nb = sum(4 + len(r) for r in g.recs)
            cyc = len(g.recs)
            if unfin is not None and last and unfin & 1:
                cyc = 0
            cb.links = [nxt, cnb, M.tx(gname) if gname else M.tx(rng.choice(NAMES) if odd else 'n' + g.name) if rng.random() < 0.5 else None, None, srhead, None]
            bus = 2 if odd and not g.vlsd and any(c.get('frame') for c in g.chs) else 0
            cb.data = struct.pack('<QQHH4xII', g.rid, cyc, 1 if g.vlsd else bus, 0, nb if g.vlsd else g.data, 0 if g.vlsd else g.inval)
            nxt = cb
            cgdecl.insert(0, dict(rid=list(g.rid.to_bytes(8, 'little')), size=0 if g.vlsd else g.data + g.inval, inval=g.inval,
                                  cyc=-1 if unfin is not None and last and unfin & 1 else len(g.recs), vlsd=g.vlsd, chs=[
                {k: c[k] for k in ('name', 'dt', 'be', 'byte', 'bit', 'bits', 'n', 'ty', 'all', 'ib', 'ref', 'sd')} for c in g.chs], srs=g.sr))
        nxtdg = M.Blk('DG', [nxtdg, nxt, root, None], struct.pack('<B7x', idw))
        out.insert(0, dict(idw=idw, tail=0, frags=[list(x) for x in fr], cgs=cgdecl))
    if rich:
        f = None
        for k in range(rng.choice([0, 1, 1, 2, 4])):
            f = M.fh(f, 1600000000000000000 + rng.randrange(10 ** 9), 'h%d' % rng.randrange(100))
        prop = ''.join('<e name="%s">%s</e>' % (n, rng.choice(['a', 'b c', '&#229;&amp;'])) for n in ('author', 'department', 'project', 'subject') if rng.random() < 0.6)
        md = M.tx('<HDcomment><TX>%s</TX>%s</HDcomment>' % (rng.choice(['', 'text', 'two words']), prop and '<common_properties>%s</common_properties>' % prop), 'MD') if rng.random() < 0.7 else None
        h = M.hd(nxtdg, f, t=rng.choice([1600000000000000000, 1, 1733333333123456789, 946684799999999999]),
                 tf=rng.choice([0, 0, 1]), angle=rng.choice([None, 0.0, 1.5]), dist=rng.choice([None, 0.0, -2.25]), md=md)
    else:
        h = M.hd(nxtdg, M.fh() if rng.random() < 0.5 else None)
    return M.layout(h, rng, rng.choice([400, 410, 411, 420]), unfin=unfin, last=lastdt), out


def decorate(rng, c, nb):
    """conversion rule, unit, comment and source of a channel"""
    import p_c12
    if rng.random() < 0.5 and c['dt'] in 'usf' and c['ty'] in ('fix', 'virt') and (c['ty'] != 'virt' or c['typ'] == 6) and c['sync'] == 0:
        ty = rng.choice(['lin', 'rat', 'tab', 'tabi', 'rng', 'v2t', 'r2t', 'v2t', 'r2t'])
        nb.links[4] = p_c12.ccblk(p_c12.rule(rng, ty, c['dt'], True), rng)
    elif rng.random() < 0.3 and c['dt'] in 'lt':
        nb.links[4] = p_c12.ccblk(p_c12.rule(rng, rng.choice(['t2v', 't2t']), 't', False), rng)
    if rng.random() < 0.4:
        nb.links[6] = M.tx(rng.choice(['m', 'km/h', '\u00b0C', '1/min']))
    if rng.random() < 0.4:
        nb.links[7] = M.tx('a channel <b> & more') if rng.random() < 0.5 else M.tx('<CNcomment><TX>about %s &amp; all</TX></CNcomment>' % c['name'], 'MD')
    if rng.random() < 0.3:
        nb.links[3] = M.Blk('SI', [M.tx('src'), M.tx('path'), None], struct.pack('<BBB5x', rng.randrange(0, 6), rng.randrange(0, 9), 0))


def mkrec(rng, g):
    rec = bytearray(rng.randrange(256) for _ in range(g.data))
    for c in g.chs:
        if c['dt'] == 'f':
            bitset(rec, c['byte'], 0, c['bits'], c['be'], fbits(rng, c['bits']))
    return bytes(rec)


def srstore(rng, by, width, cyc, col):
    if not col:
        return M.store(by, 'RD', rng, None, 3 * width)
    # column oriented: value blocks, alone or listed
    if rng.random() < 0.5 or cyc == 0:
        return (M.Blk('RV', [], by) if rng.random() < 0.5 or not by else M.dz('RV', by, rng, rng.choice([0, width]))), [by]
    per = rng.randrange(1, cyc + 1)
    fr = [by[i:i + per * 3 * width] for i in range(0, len(by), per * 3 * width)]
    bl = [M.Blk('RV', [], f) if rng.random() < 0.5 else M.dz('RV', f, rng, 0) for f in fr]
    d = struct.pack('<II', 1, len(bl)) + struct.pack('<Q', per)
    return M.Blk('LD', [None] + bl, d), fr


def mk3(rng, ndg=2, ncg=3, maxrec=12, sr=0.0):
    L, B = M.L, M.Blk3
    nxtdg, out = None, []
    nd = rng.randrange(1, ndg + 1)
    for d in reversed(range(nd)):
        nc = rng.randrange(1, ncg + 1)
        tail = 0
        idn = rng.choice([0, 1, 2]) if nc == 1 else rng.choice([1, 2])
        rids = rng.sample(range(1, 256), nc)
        if idn == 0 and rng.random() < 0.5:
            rids = [0]
        groups = [group(rng, 'abc'[i] + str(d) + '_', rng.choice([0, 1, rng.randrange(maxrec + 1), rng.randrange(maxrec + 1)]), m3=True, numeric=sr > 0) for i in range(nc)]
        stream = b''
        idx = [0] * nc
        while True:
            av = [i for i in range(nc) if idx[i] < len(groups[i].recs)]
            if not av:
                break
            i = rng.choice(av)
            b = bytes([rids[i]])
            stream += (b if idn else b'') + groups[i].recs[idx[i]] + (b if idn == 2 else b'')
            idx[i] += 1
        dt = B('', [stream]) if stream else None
        nxt, cgdecl = None, []
        for i in reversed(range(nc)):
            g = groups[i]
            cnb = None
            for c in reversed(g.chs):
                start = c['byte'] * 8 + c['bit']
                add = 0
                if start > 0xFFFF or rng.random() < 0.3:
                    add = c['byte']
                    start = c['bit']
                cnb = B('CN', [L(cnb), L(None), L(None), L(None), L(None), struct.pack('<H', c['typ']), c['name'].encode().ljust(32, b'\0'), b'\0' * 128,
                               struct.pack('<HHHHddd', start, c['bits'], c['code'], 0, 0, 0, 0), L(None), L(None), struct.pack('<H', add)])
            srhead = None
            for _ in range(rng.choice([1, 2]) if rng.random() < sr else 0):
                cyc = rng.randrange(1, 8)
                by = b''.join(mkrec(rng, g) for _ in range(3 * cyc))
                iv = struct.pack('<d', rng.choice([0.5, 1.0, 10.0]))
                srhead = B('SR', [L(srhead), L(B('', [by])), struct.pack('<I', cyc), iv])
                g.sr.insert(0, dict(cyc=cyc, iv=list(iv), sync=1, frags=[list(by)]))
            nxt = B('CG', [L(nxt), L(cnb), L(None), struct.pack('<HHHI', rids[i], len(g.chs), g.data, len(g.recs)), L(srhead)])
            cgdecl.insert(0, dict(rid=[rids[i]] + [0] * 7, size=g.data, inval=0, cyc=len(g.recs), vlsd=False, chs=[
                {k: c[k] for k in ('name', 'dt', 'be', 'byte', 'bit', 'bits', 'n', 'ty', 'all', 'ib', 'ref', 'sd')} for c in g.chs], srs=g.sr))
        nxtdg = B('DG', [L(nxtdg), L(nxt), L(None), L(dt), struct.pack('<HH4x', nc, idn)])
        out.insert(0, dict(idw=1 if idn else 0, tail=1 if idn == 2 else 0, frags=[list(stream)], cgs=cgdecl))
    h = B('HD', [L(nxtdg), L(None), L(None), struct.pack('<H', nd), b'18:11:2020', b'10:20:30', b'\0' * 32, b'\0' * 32, b'\0' * 32, b'\0' * 32,
                 struct.pack('<QhH', 1600000000000000000, 0, 0), b'\0' * 32])
    return M.layout3(h, rng, 330), out


def watchers(rng, dgs, part=1.0, raw=0.3, first=1):
    ops = []
    o = first
    for d, dg in enumerate(dgs):
        if rng.random() < raw:
            ops.append({'op': 'attach', 'o': o, 'dg': d + 1, 'cg': 0, 'cn': 0, 'vl': True})
            o += 1
        for g, cg in enumerate(dg['cgs']):
            for c in range(len(cg['chs'])):
                if rng.random() < part:
                    ops.append({'op': 'attach', 'o': o, 'dg': d + 1, 'cg': g + 1, 'cn': c + 1, 'vl': True})
                    o += 1
    return ops


def full(rng, sid, hexdgs):
    b, dgs = hexdgs
    ops = [{'op': 'open', 'mem': rng.random() < 0.3}] + watchers(rng, dgs, rng.choice([1, 1, 0.5]))
    ds = list(range(1, len(dgs) + 1))
    rng.shuffle(ds)
    ops += [{'op': 'read', 'dg': d} for d in ds]
    return {'id': sid, 'hex': b.hex(), 'dgs': dgs, 'ops': ops}


def replay(chk, scs, what):
    exe = vlib.build(['drv_read'])['drv_read']
    by = {s['id']: s for s in scs}
    chk.scn = by
    tr = vlib.run_driver(exe, scs, chk.work + '/run')
    chk.sample({'scenario': {k: v for k, v in scs[0].items() if k != 'hex'}})
    chk.cov['scenarios'] = chk.cov.get('scenarios', 0) + len(scs)
    chk.validate('MdfReadTrace', TCFG, [tr[s['id']] for s in scs], what,
                 rerun=lambda ids: [vlib.run_driver(exe, [by[i]], chk.work + '/again')[i] for i in ids])
