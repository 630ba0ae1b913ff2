"""Builds MDF 4 and MDF 3 files byte by byte, independently of the library under test.

Blocks are placed in any order with gaps; the logical content is what the specification is told."""
import struct, zlib


FAR = [0, 0]      # probability and size of a hole before a block


class Sparse:
    """file contents with holes: hex() gives the pieces with their positions"""
    def __init__(self, pieces):
        self.pieces = pieces

    def hex(self):
        return ''.join('|%d:%s' % (p, d.hex()) for p, d in self.pieces)


class Blk:
    def __init__(self, tag, links=(), data=b'', length=None):
        self.tag, self.links, self.data, self.length = tag, list(links), data, length
        self.pos = 0

    def size(self):
        return 24 + 8 * len(self.links) + len(self.data)

    def bytes(self):
        ln = self.size() if self.length is None else self.length
        b = b'##' + self.tag.encode() + b'\0' * 4 + struct.pack('<QQ', ln, len(self.links))
        for l in self.links:
            b += struct.pack('<q', l.pos if l is not None else 0)
        return b + self.data


def collect(root, seen, out):
    st = [root]
    while st:
        b = st.pop()
        if b is None or id(b) in seen:
            continue
        seen.add(id(b))
        out.append(b)
        st.extend(b.links)


def layout(hd, rng, ver=410, unfin=None, last=None, shuffle=True):
    """File bytes.  last: block forced to the end of the file."""
    bl = []
    collect(hd, set(), bl)
    rest = [b for b in bl if b is not hd and b is not last]
    if shuffle:
        rng.shuffle(rest)
    order = [hd] + rest + ([last] if last is not None else [])
    pos = 64
    for b in order:
        if b is not hd:
            pos = (pos + 7) // 8 * 8
            if shuffle and rng.random() < 0.3:
                pos += 8 * rng.randrange(1, 5)
            if FAR[0] and rng.random() < FAR[0]:
                pos += FAR[1]
        b.pos = pos
        pos += b.size()
    idb = (b'MDF     ' if unfin is None else b'UnFinMF ') + ('%d.%02d    ' % (ver // 100, ver % 100)).encode()[:8] + b'VerifGen' + b'\0' * 4
    idb += struct.pack('<H', ver) + b'\0' * 30 + struct.pack('<HH', unfin or 0, 0)
    assert len(idb) == 64
    if FAR[0]:
        return Sparse([(0, idb)] + [(b.pos, b.bytes()) for b in order])
    out = bytearray(pos)
    for i in range(len(out)):
        out[i] = 0xAA if shuffle else 0
    out[:64] = idb
    for b in order:
        d = b.bytes()
        out[b.pos:b.pos + len(d)] = d
    return bytes(out)


def tx(s, tag='TX'):
    d = s.encode('utf8') + b'\0'
    return Blk(tag, [], d + b'\0' * (-len(d) % 8))


def transpose(b, n):
    rows = len(b) // n
    out = bytearray()
    for c in range(n):
        for r in range(rows):
            out.append(b[r * n + c])
    return bytes(out) + b[rows * n:]


def dz(org, data, rng, n=0):
    t = 1 if n > 1 else 0
    z = zlib.compress(transpose(data, n) if t else data, rng.randrange(0, 10))
    return Blk('DZ', [], org.encode() + struct.pack('<BBIQQ', t, 0, n if t else 0, len(data), len(z)) + z)


def split(data, rng, k):
    cuts = sorted(rng.randrange(0, len(data) + 1) for _ in range(k - 1))
    cuts = [0] + cuts + [len(data)]
    return [data[a:b] for a, b in zip(cuts, cuts[1:])]


MANY = [0]      # > 0: data lists of up to that many blocks


def store(data, tag, rng, form=None, width=0, maxfrag=12, empty=True):
    """Storage of a logical byte stream; returns (root block, fragments)."""
    if MANY[0]:
        maxfrag = MANY[0]
    form = form or rng.choice(['one', 'zone', 'dl', 'dl', 'dleq', 'hl', 'hl', 'hldt'])
    if form == 'one':
        return Blk(tag, [], data), [data]
    if form == 'zone':
        if not data:
            return Blk(tag, [], data), [data]
        return dz(tag, data, rng, rng.choice([0, width, rng.randrange(1, 20)])), [data]
    if form == 'dleq' or (form.startswith('hl') and rng.random() < 0.4):
        eq = max(1, rng.choice([1, 3, width or 5, 7, 16, 64, len(data), 4096]))
        while eq < 1 << 16 and (len(data) + eq - 1) // eq > 3 * maxfrag:
            eq *= 2
        fr = [data[i:i + eq] for i in range(0, len(data), eq)] or [b'']
    else:
        eq = 0
        fr = split(data, rng, rng.randrange(1, maxfrag + 1))
        if not empty:
            fr = [f for f in fr if f] or [data]
    zip_ = form == 'hl'
    blks = []
    for f in fr:
        if zip_ and f and rng.random() < 0.7:
            blks.append(dz(tag, f, rng, rng.choice([0, width, rng.randrange(1, 9)])))
        else:
            blks.append(Blk(tag, [], f))
    # a chain of lists
    parts = []
    i = 0
    while i < len(blks):
        n = rng.randrange(1, len(blks) - i + 1)
        parts.append((i, blks[i:i + n]))
        i += n
    head = None
    nxt = None
    for i, p in reversed(parts):
        d = struct.pack('<B3xI', 1 if eq else 0, len(p))
        if eq:
            d += struct.pack('<Q', eq)
        else:
            off = sum(len(f) for f in fr[:i])
            for j in range(len(p)):
                d += struct.pack('<Q', off)
                off += len(fr[i + j])
        head = Blk('DL', [nxt] + p, d)
        nxt = head
    if form.startswith('hl'):
        head = Blk('HL', [head], struct.pack('<HB5x', 1 if eq else 0, 1 if width else 0))
    return head, fr


DT = {'u': 0, 'U': 1, 's': 2, 'S': 3, 'f': 4, 'F': 5, 'l': 6, 't': 7, 'w': 8, 'W': 9, 'b': 10}
CLS = {'u': 'u', 'U': 'u', 's': 's', 'S': 's', 'f': 'f', 'F': 'f', 'l': 'l', 't': 't', 'w': 'w', 'W': 'w', 'b': 'b'}


def cn(name, typ, sync, dt, byte, bit, bits, flags=0, invbit=0, data=None, nxt=None):
    return Blk('CN', [nxt, None, tx(name), None, None, data, None, None],
               struct.pack('<BBBBIIIIBBH6d', typ, sync, dt, bit, byte, bits, flags, invbit, 0, 0, 0, 0, 0, 0, 0, 0, 0))


def hd(dg, fh=None, t=1600000000000000000, tz=0, dst=0, tf=0, angle=None, dist=None, md=None):
    fl = (1 if angle is not None else 0) | (2 if dist is not None else 0)
    return Blk('HD', [dg, fh, None, None, None, md], struct.pack('<QhhBBBxdd', t, tz, dst, tf, 0, fl, angle or 0.0, dist or 0.0))


def fh(nxt=None, t=1600000000000000000, text='x'):
    return Blk('FH', [nxt, tx('<FHcomment><TX>%s</TX><tool_id>T</tool_id><tool_vendor>V</tool_vendor><tool_version>1</tool_version></FHcomment>' % text, 'MD')], struct.pack('<QhhB3x', t, 0, 0, 0))


# ---------------------------------------------------------------- MDF 3
class Blk3:
    def __init__(self, tag, fields):
        """fields: list of ('L', block or None) links and bytes"""
        self.tag, self.fields = tag, fields
        self.pos = 0

    def size(self):
        n = 4 if self.tag else 0
        return n + sum(4 if isinstance(f, tuple) else len(f) for f in self.fields)

    def bytes(self):
        b = b''
        if self.tag:
            b = self.tag.encode() + struct.pack('<H', self.size())
        for f in self.fields:
            b += struct.pack('<I', f[1].pos if f[1] is not None else 0) if isinstance(f, tuple) else f
        return b

    @property
    def links(self):
        return [f[1] for f in self.fields if isinstance(f, tuple)]


def L(b):
    return ('L', b)


def layout3(hdb, rng, ver=330):
    bl = []
    collect(hdb, set(), bl)
    rest = [b for b in bl if b is not hdb]
    rng.shuffle(rest)
    pos = 64
    for b in [hdb] + rest:
        if b is not hdb and rng.random() < 0.3:
            pos += rng.randrange(1, 20)
        if FAR[0] and b is not hdb and rng.random() < FAR[0] and pos + FAR[1] < 0xFFF00000:
            pos += FAR[1]
        b.pos = pos
        pos += b.size()
    idb = b'MDF     ' + ('%d.%02d    ' % (ver // 100, ver % 100)).encode()[:8] + b'VerifGen' + struct.pack('<HHHH', 0, 0, ver, 0) + b'\0' * 32
    assert len(idb) == 64
    if FAR[0]:
        return Sparse([(0, idb)] + [(b.pos, b.bytes()) for b in [hdb] + rest])
    out = bytearray(b'\xAA' * pos)
    out[:64] = idb
    for b in [hdb] + rest:
        d = b.bytes()
        out[b.pos:b.pos + len(d)] = d
    return bytes(out)
