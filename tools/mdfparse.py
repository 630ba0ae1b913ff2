"""Reads the raw bytes of an MDF file, independently of the library under test, into the tables MdfFile.tla judges.

Only lexing happens here: block headers, links and fields are decoded as the standard lays them out, data blocks are
inflated and cut into records.  Nothing is judged; what cannot be decoded is handed over as such."""
import struct, zlib
import xml.etree.ElementTree as ET


def u(b, o, f):
    n = struct.calcsize('<' + f)
    if o < 0 or o + n > len(b):
        return 0
    return struct.unpack_from('<' + f, b, o)[0]


def small(x):
    """TLC integers have 32 bits; larger ones are only ever wrong or opaque."""
    return x if -2**31 < x < 2**31 else -1


F4 = {
    'HD': [], 'FH': [], 'SI': [('type', 0, 'B'), ('bus', 1, 'B')],
    'DG': [('rid', 0, 'B')], 'CG': [('id', 0, 'Q'), ('cycles', 8, 'Q'), ('flags', 16, 'H'), ('data', 24, 'I'), ('inval', 28, 'I')],
    'CN': [('type', 0, 'B'), ('sync', 1, 'B'), ('dtype', 2, 'B'), ('bitoff', 3, 'B'), ('off', 4, 'I'), ('bits', 8, 'I'), ('flags', 12, 'I'), ('ipos', 16, 'I'), ('nat', 22, 'H')],
    'CC': [('type', 0, 'B'), ('flags', 2, 'H'), ('nref', 4, 'H'), ('nval', 6, 'H')],
    'AT': [('flags', 0, 'H'), ('orig', 24, 'Q'), ('emb', 32, 'Q')],
    'EV': [('type', 0, 'B'), ('sync', 1, 'B'), ('range', 2, 'B'), ('flags', 4, 'B'), ('nsc', 8, 'I'), ('nat', 12, 'H')],
    'CH': [('n', 0, 'I'), ('type', 4, 'B')],
    'CA': [('type', 0, 'B'), ('store', 1, 'B'), ('ndim', 2, 'H'), ('flags', 4, 'I'), ('base', 8, 'i'), ('ibase', 12, 'I')],
    'DL': [('flags', 0, 'B'), ('n', 4, 'I')], 'HL': [('flags', 0, 'H'), ('zip', 2, 'B')],
    'DZ': [('zip', 3 - 1, 'B'), ('par', 4, 'I'), ('orig', 8, 'Q'), ('clen', 16, 'Q')],
    'SR': [('cycles', 0, 'Q')], 'DT': [], 'SD': [], 'RD': [], 'DV': [], 'TX': [], 'MD': [],
}


class F:
    def __init__(self, raw):
        self.raw = raw
        self.blocks = {}
        self.data = {}


def block4(f, pos):
    b = f.raw
    if pos < 64 or pos + 24 > len(b) or b[pos:pos + 2] != b'##':
        return None
    tag = b[pos + 2:pos + 4].decode('latin1')
    ln, nl = struct.unpack_from('<QQ', b, pos + 8)
    if tag not in F4 or ln > 2**31 - 1 or nl > 100000 or pos + 24 + 8 * nl > len(b):
        return {'tag': tag, 'pos': pos, 'len': small(ln), 'nl': small(nl), 'res': 0, 'links': [], 'f': {'bad': 1}}
    links = list(struct.unpack_from('<%dq' % nl, b, pos + 24))
    o = pos + 24 + 8 * nl
    d = b[o:pos + ln]
    fl = {k: small(u(d, at, t)) for k, at, t in F4[tag]}
    if tag in ('TX', 'MD'):
        z = d.find(b'\0')
        txt = d if z < 0 else d[:z]
        fl['term'] = z >= 0
        fl['clean'] = z < 0 or not d[z:].strip(b'\0')
        try:
            s = txt.decode('utf8')
            fl['utf8'] = True
        except UnicodeDecodeError:
            s = ''
            fl['utf8'] = False
        fl['xml'] = True
        if tag == 'MD':
            try:
                fl['root'] = ET.fromstring(s).tag.split('}')[-1]
            except ET.ParseError:
                fl['xml'] = False
                fl['root'] = ''
    if tag == 'DL':
        n = fl['n'] if 0 <= fl['n'] <= 100000 else 0
        if fl['flags'] & 1:
            fl['offs'] = []
            fl['equal'] = small(u(d, 8, 'Q'))
        else:
            fl['equal'] = 0
            fl['offs'] = [small(u(d, 8 + 8 * i, 'Q')) for i in range(n)]
    if tag == 'DZ':
        fl['otag'] = d[:2].decode('latin1')
        raw = d[24:24 + max(0, fl['clen'])]
        try:
            out = zlib.decompress(raw)
            fl['ok'] = True
        except zlib.error:
            out = b''
            fl['ok'] = False
        fl['size'] = len(out)
        if fl['zip'] == 1 and fl['par'] > 0:
            p = fl['par']
            rows = len(out) // p
            t = bytearray(out)
            for c in range(p):
                t[c:rows * p:p] = out[c * rows:(c + 1) * rows]
            out = bytes(t)
        f.data[pos] = out
    if tag in ('DT', 'SD', 'RD', 'DV'):
        f.data[pos] = d
        fl['size'] = len(d)
    if tag == 'AT':
        emb = d[40:40 + max(0, fl['emb'])]
        fl['have'] = len(emb)
        try:
            fl['infl'] = len(zlib.decompress(emb)) if fl['flags'] & 2 else len(emb)
        except zlib.error:
            fl['infl'] = -1
        import hashlib
        fl['md5'] = True
        if fl['flags'] & 4 and fl['flags'] & 1:
            try:
                c = zlib.decompress(emb) if fl['flags'] & 2 else emb
                fl['md5'] = hashlib.md5(c).digest() == d[8:24]
            except zlib.error:
                fl['md5'] = False
    if tag == 'CA':
        fl['dims'] = [small(u(d, 16 + 8 * i, 'Q')) for i in range(fl['ndim'])]
    return {'tag': tag, 'pos': pos, 'len': ln, 'nl': nl, 'res': u(b, pos + 4, 'I'), 'links': [str(x) for x in links], 'f': fl or {'none': 0}}


def stream4(f, pos):
    """All data bytes behind a data link."""
    out, seen = [], set()
    st = [pos]
    while st:
        p = st.pop(0)
        if p in seen or p not in f.blocks:
            continue
        seen.add(p)
        b = f.blocks[p]
        if b['tag'] == 'HL':
            st = [int(x) for x in b['links'][:1]] + st
        elif b['tag'] == 'DL':
            st = [int(x) for x in b['links'][1:]] + [int(x) for x in b['links'][:1]] + st
        elif p in f.data:
            out.append(f.data[p])
    return b''.join(out)


def parse4(raw):
    f = F(raw)
    todo = [64]
    while todo:
        p = todo.pop()
        if p == 0 or p in f.blocks:
            continue
        b = block4(f, p)
        if b is None:
            b = {'tag': 'none', 'pos': small(p), 'len': 0, 'nl': 0, 'res': 0, 'links': [], 'f': {'bad': 1}}
        f.blocks[p] = b
        todo += [int(x) for x in b['links']]
    groups = []
    for p, b in sorted(f.blocks.items()):
        if b['tag'] != 'DG' or len(b['links']) < 4:
            continue
        cgs = []
        q, seen = int(b['links'][1]), set()
        while q in f.blocks and q not in seen and f.blocks[q]['tag'] == 'CG':
            seen.add(q)
            cgs.append(q)
            q = int(f.blocks[q]['links'][0])
        data = stream4(f, int(b['links'][2]))
        rid = b['f']['rid']
        recs = {c: [] for c in cgs}
        at = 0
        rest = False
        byid = {f.blocks[c]['f']['id']: c for c in cgs}
        while at < len(data) and not rest:
            if rid == 0:
                c = cgs[0] if len(cgs) == 1 else None
            else:
                c = byid.get(int.from_bytes(data[at:at + rid], 'little'))
            if c is None:
                rest = True
                break
            g = f.blocks[c]['f']
            s = at + rid
            if g['flags'] & 1:
                n = 4 + u(data, s, 'I')
            else:
                n = g['data'] + g['inval']
            if s + n > len(data) or n + rid == 0:
                rest = True
                break
            recs[c].append(data[s:s + n])
            at = s + n
        vl = []
        for c in cgs:
            q, seen = int(f.blocks[c]['links'][1]), set()
            while q in f.blocks and q not in seen and f.blocks[q]['tag'] == 'CN':
                seen.add(q)
                n = f.blocks[q]
                dl = int(n['links'][5]) if len(n['links']) > 5 else 0
                if n['f']['type'] == 1 and dl in f.blocks and f.blocks[dl]['tag'] != 'CG':
                    sd = stream4(f, dl)
                    starts, a = [], 0
                    ok = True
                    while a < len(sd):
                        k = u(sd, a, 'I')
                        if a + 4 > len(sd) or a + 4 + k > len(sd):
                            ok = False
                            break
                        starts.append(a)
                        a += 4 + k
                    vl.append({'cn': str(q), 'starts': starts, 'ok': ok, 'offs': sorted({small(u(r, n['f']['off'], 'Q')) for r in recs[c]})})
                q = int(n['links'][0])
        groups.append({'dg': str(p), 'size': len(data), 'rest': rest, 'recs': {str(c): {'n': len(recs[c]), 'bytes': sum(map(len, recs[c]))} for c in cgs}, 'vl': vl})
    return f, groups


F3 = {'HD': ([4, 8, 12], [('ndg', 16, 'H')]), 'DG': ([4, 8, 12, 16], [('ncg', 20, 'H'), ('rid', 22, 'H')]),
      'CG': ([4, 8, 12], [('id', 16, 'H'), ('ncn', 18, 'H'), ('rec', 20, 'H'), ('nrec', 22, 'I')]),
      'CN': ([4, 8, 12, 16, 20], [('type', 24, 'H'), ('start', 186, 'H'), ('bits', 188, 'H'), ('dtype', 190, 'H')]),
      'CC': ([], [('type', 42, 'H'), ('n', 44, 'H')]), 'TX': ([], []), 'PR': ([], []), 'CE': ([], [('type', 4, 'H')]), 'TR': ([4], [('n', 8, 'H')]), 'SR': ([4, 8], []), 'CD': ([], [])}


def parse3(raw):
    f = F(raw)
    groups = []
    todo = [64]
    while todo:
        p = todo.pop()
        if p == 0 or p in f.blocks:
            continue
        tag = raw[p:p + 2].decode('latin1') if p + 4 <= len(raw) else 'none'
        if tag not in F3:
            f.blocks[p] = {'tag': 'none', 'pos': small(p), 'len': 0, 'nl': 0, 'res': 0, 'links': [], 'f': {'bad': 1}}
            continue
        ln = u(raw, p + 2, 'H')
        lo, fs = F3[tag]
        d = raw[p:p + ln]
        lo = list(lo)
        if tag == 'CG' and ln >= 30:
            lo.append(26)
        if tag == 'CN' and ln >= 228:
            lo += [218, 222]
        links = [u(d, o, 'I') for o in lo]
        fl = {k: small(u(d, o, t)) for k, o, t in fs}
        if tag == 'CN':
            fl['add'] = u(d, 226, 'H') if ln >= 228 else 0
        if tag == 'TX':
            fl['term'] = b'\0' in d[4:]
        follow = list(links)
        if tag == 'DG':
            follow[3] = 0
        if tag == 'CC' and fl['type'] == 12:
            n = fl['n'] if fl['n'] < 10000 else 0
            extra = [u(d, 46 + 20 * i + 16, 'I') for i in range(n)]
            links += extra
            follow += extra
        f.blocks[p] = {'tag': tag, 'pos': p, 'len': ln, 'nl': len(links), 'res': 0, 'links': [str(x) for x in links], 'f': fl or {'none': 0}}
        todo += follow
    for p, b in sorted(f.blocks.items()):
        if b['tag'] != 'DG':
            continue
        cgs = []
        q, seen = int(b['links'][1]), set()
        while q in f.blocks and q not in seen and f.blocks[q]['tag'] == 'CG':
            seen.add(q)
            cgs.append(q)
            q = int(f.blocks[q]['links'][0])
        rid = b['f']['rid']
        n = sum(f.blocks[c]['f']['nrec'] * (f.blocks[c]['f']['rec'] + rid) for c in cgs)
        at = int(b['links'][3])
        cnt = {c: 0 for c in cgs}
        byid = {f.blocks[c]['f']['id']: c for c in cgs}
        a, rest = at, at == 0 and n > 0
        while at and a < at + n and not rest:
            c = (cgs[0] if len(cgs) == 1 else None) if rid == 0 else byid.get(u(raw, a, 'B'))
            if c is None or a + rid + f.blocks[c]['f']['rec'] > len(raw):
                rest = True
                break
            w = f.blocks[c]['f']['rec']
            if rid == 2 and u(raw, a + 1 + w, 'B') != u(raw, a, 'B'):
                rest = True
                break
            a += rid + w
            cnt[c] += 1
        groups.append({'dg': str(p), 'at': at, 'size': small(n), 'rest': rest, 'recs': {str(c): {'n': cnt[c], 'bytes': cnt[c] * f.blocks[c]['f']['rec']} for c in cgs}, 'vl': []})
    return f, groups


def dump(raw, want):
    """want: what the scenario asked for ({'major': 3|4})."""
    idb = {'file': raw[:8].decode('latin1'), 'ver': raw[8:16].decode('latin1').rstrip('\0 '), 'prog': raw[16:24].decode('latin1'), 'num': u(raw, 28, 'H'), 'order': u(raw, 24, 'H') if want['major'] == 3 else 0,
           'unfin': u(raw, 60, 'H'), 'cust': u(raw, 62, 'H')}
    f, groups = (parse3 if want['major'] == 3 else parse4)(raw)
    order = sorted(f.blocks)
    ix = {p: i + 1 for i, p in enumerate(order)}
    ix[0] = 0
    for p in order:
        b = f.blocks[p]
        # blocks are numbered by position; the data of an MDF 3 group is no block
        b['links'] = [ix.get(int(x), 0) for x in b['links']]
    for g in groups:
        g['dg'] = ix[int(g['dg'])]
        g['recs'] = [{'cg': ix[int(c)], **v} for c, v in g['recs'].items()]
        for v in g['vl']:
            v['cn'] = ix[int(v['cn'])]
    return {'op': 'file', 'major': want['major'], 'size': len(raw), 'id': idb, 'blocks': [f.blocks[p] for p in order], 'groups': groups}
