"""C11: variable-length values keep their exact bytes in every storage variant."""
import struct
import gen, rd, wr


def direct(rng, sid, f):
    b, dgs = f
    ops = [{'op': 'open', 'mem': rng.random() < 0.3}]
    cand = [(d, g, c) for d, dg in enumerate(dgs) for g, cg in enumerate(dg['cgs']) for c, ch in enumerate(cg['chs']) if ch['ty'] in ('sd', 'cg')]
    if rng.random() < 0.6:
        ops += rd.watchers(rng, dgs, rng.choice([1, 0.6]), first=1)
        for a in ops[1:]:
            if a.get('op') == 'attach' and a['cn']:
                a['vl'] = rng.random() < 0.8
        ops += [{'op': 'read', 'dg': d + 1} for d in range(len(dgs))]
    for d, g, c in cand:
        ch = dgs[d]['cgs'][g]['chs'][c]
        if ch['ty'] == 'sd':
            st = b''.join(bytes(x) for x in ch['sd'])
        else:
            st = None
        offs = [[]]
        ents = entries(dgs[d], g, c)
        for _ in range(2):
            offs.append(sorted(rng.sample(ents, rng.randrange(0, len(ents) + 1))))
        if ents:
            x = rng.sample(ents, rng.randrange(1, len(ents) + 1))
            rng.shuffle(x)
            offs.append(x)
        for o in offs:
            ops.append({'op': 'vlsd', 'dg': d + 1, 'cg': g + 1, 'cn': c + 1, 'offs': o})
    ops.append({'op': 'look'})
    return {'id': sid, 'hex': b.hex(), 'dgs': dgs, 'ops': ops}


def entries(dg, g, c):
    """offsets of the entries of the store (from the generator's own knowledge)"""
    ch = dg['cgs'][g]['chs'][c]
    out, o = [], 0
    if ch['ty'] == 'sd':
        st = b''.join(bytes(x) for x in ch['sd'])
        while o + 4 <= len(st):
            out.append(o)
            o += 4 + struct.unpack_from('<I', st, o)[0]
        return out
    st = b''.join(bytes(x) for x in dg['frags'])
    w = dg['idw']
    p = 0
    while p + w <= len(st) and p < len(st):
        rid = st[p:p + w]
        k = [i for i, cg in enumerate(dg['cgs']) if bytes(cg['rid'][:w]) == rid][0]
        p += w
        if dg['cgs'][k]['vlsd']:
            n = struct.unpack_from('<I', st, p)[0]
            p += 4 + n
            if k + 1 == ch['ref']:
                out.append(o)
                o += 4 + n
        else:
            p += dg['cgs'][k]['size']
    return out


def run(chk):
    scs = []
    for i in range(chk.n(2000, 30000)):
        scs.append(direct(chk.rng, i + 1, rd.mk4(chk.rng, vl=0.9)))
    rd.replay(chk, scs, 'variable length stores')
    # written by the library itself: many variable length channels, compressed or not, appended sessions
    ex = wr.build()
    ws = []
    for w, n in (('mdf4', chk.n(150, 2000)), ('conv', chk.n(150, 2000))):
        for h in gen.histories(chk, n, GW=w, GOPS=chk.n(30, 60), depth=300):
            ws.append(gen.decorate(chk.rng, h, len(ws) + 1, w, inv=True, maxlen=chk.rng.choice([3, 40, 400]), maxch=5, kinds=['vstr', 'vba', 'vasc', 'u8', 'ba']))
        for h in gen.histories(chk, chk.n(8, 60), seeds=2, GW=w, GOPS=24, GSHAPE='one', depth=300):
            ws.append(gen.decorate(chk.rng, h, len(ws) + 1, w, kinds=['vblk', 'vblk', 'u8', 'vba'], maxch=3, blk=(95, 96, 97, 4000, 700000, 1000000, 2097148, 4194304)))
    wr.replay(chk, ex, ws, 'variable length round trip')
