"""Long, wide and many: recordings whose sizes pass the limits of one and two byte counters, judged by MdfScale."""
import struct
import mdfgen as M
import vlib


def reads(rng, cfg, npick=6, part=True):
    D, G, C = cfg['D'], cfg['G'], cfg['C']
    out = []
    for d in sorted({0, D - 1, rng.randrange(D)}):
        def pick():
            p = {(0, 0), (G - 1, C - 1)} | {(rng.randrange(G), rng.randrange(C)) for _ in range(npick)}
            return [list(x) for x in sorted(p)]
        out.append({'op': 'read', 'd': d, 'pick': pick()})
        n = max(1, cfg['N'] // (D * G))
        if part and n > 1:
            for lo in {1, min(n, 256), min(n, 65536), rng.randrange(1, n + 1)}:
                out.append({'op': 'read', 'd': d, 'pick': pick()[:2], 'lo': lo, 'hi': rng.choice([lo, lo + 1, n, rng.randrange(lo, n + 2)])})
    return out


def writer(rng, sid, w, D, G, C, N, inv=False, z=False, per=False, B=4):
    cfg = {'D': D, 'G': G, 'C': C, 'N': N, 'inv': inv, 'B': B, 'named': w != 'mdf3'}
    return {'id': sid, 'cfg': cfg, 'w': w, 'z': z, 'per': per, 'reads': reads(rng, cfg)}


def file4(rng, sid, D, G, C, N, form, inv=False, idw=None, pad=0, far=False):
    """an MDF 4 file of that content; pad: unused bytes per record"""
    cfg = {'D': D, 'G': G, 'C': C, 'N': N, 'inv': inv, 'named': True}
    ib = (C + 7) // 8 if inv else 0
    nxt = None
    for d in reversed(range(D)):
        w = idw if idw is not None else (0 if G == 1 else 1 if G < 256 else 2)
        st = bytearray()
        for s in range(d, N, D):
            g = (s // D) % G
            st += (g + 1).to_bytes(8, 'little')[:w]
            st += b''.join(struct.pack('<I', (s * 7 + c * 13) % 65521) for c in range(C)) + b'\x5A' * pad
            if inv:
                bits = 0
                for c in range(C):
                    bits |= ((s + c) % 3 == 0) << c
                st += bits.to_bytes(ib, 'little')
        root, _ = M.store(bytes(st), 'DT', rng, form, w + 4 * C + pad + ib, maxfrag=400)
        cg = None
        for g in reversed(range(G)):
            cn = None
            for c in reversed(range(C)):
                cn = M.cn('c%d' % c, 0, 0, 0, 4 * c, 0, 32, flags=2 if inv else 0, invbit=c, nxt=cn)
            n = sum(1 for s in range(d + D * g, N, D * G))
            cg = M.Blk('CG', [cg, cn, M.tx('g%d_%d' % (d, g)), None, None, None], struct.pack('<QQHHIII', g + 1 if w else 0, n, 0, 0, 0, 4 * C + pad, ib))
        nxt = M.Blk('DG', [nxt, cg, root, None], struct.pack('<B7x', w))
    b = M.layout(M.hd(nxt, M.fh()), rng)
    return {'id': sid, 'cfg': cfg, 'hex': b.hex(), 'reads': reads(rng, cfg)}


def writes(chk):
    r = chk.rng
    out = []

    def add(*a, **k):
        out.append(writer(r, len(out) + 1, *a, **k))
    for w in ('mdf4', 'mdf3', 'conv'):
        add(w, 1, 1, 1, 66000 + r.randrange(3000), z=w != 'mdf3' and r.random() < 0.5, per=r.random() < 0.5)
        add(w, 1, r.choice([3, 200]), 2, 3000, z=r.random() < 0.5)
        add(w, 300, 1, 1, 900 + r.randrange(100), z=r.random() < 0.5)
        add(w, 1, 1, 1100, 40, inv=w != 'mdf3', B=8, z=r.random() < 0.5)
        add(w, 2, 2, 300, 60, inv=w != 'mdf3', z=r.random() < 0.5)
    for w in ('mdf4', 'conv'):
        add(w, 1, 300, 1, 1500 + r.randrange(100), z=w == 'mdf4', per=r.random() < 0.5)
        add(w, 1, 300, 1, 1500 + r.randrange(100), z=w != 'mdf4')
        add(w, 1, 2, 20000, 6, z=r.random() < 0.5)
        if chk.thorough():
            add(w, 1, 66000, 1, 140000)
            add(w, 1, 1, 1, 2000000, z=True)
    return out


def files(chk):
    r = chk.rng
    out = []

    def add(*a, **k):
        out.append(file4(r, len(out) + 1, *a, **k))
    for form in ('one', 'zone', 'dl', 'dleq', 'hl'):
        add(1, 1, 1, 66000 + r.randrange(2000), form)
        add(1, 3, 2, 4000, form, idw=r.choice([1, 2, 4, 8]), inv=r.random() < 0.5)
        add(1, 300, 1, 1200, form, idw=r.choice([2, 4, 8]))
    for form in ('one', 'dl', 'hl'):
        add(1, 2, 300, 30, form, inv=True)
        add(1, 1, 1, 12, form, pad=70000)
        add(1, 2, 1, 14, form, pad=70000, idw=1)
    add(300, 1, 1, 900, None)
    return out


def run(chk, scs, what):
    exe = vlib.build(['drv_scale'])['drv_scale']
    by = {s['id']: s for s in scs}
    chk.scn = by
    tr = vlib.run_driver(exe, scs, chk.work + '/scale')
    chk.cov['scenarios'] = chk.cov.get('scenarios', 0) + len(scs)
    chk.validate('MdfScaleTrace', 'SPECIFICATION TSpec\n', [tr[s['id']] for s in scs], what,
                 rerun=lambda ids: [vlib.run_driver(exe, [by[i]], chk.work + '/again')[i] for i in ids])
