"""C12: engineering values follow the stored conversion rule."""
import struct
import mdfgen as M
import vlib
CODE = {'none': 0, 'lin': 1, 'rat': 2, 'tabi': 4, 'tab': 5, 'rng': 6, 'v2t': 7, 'r2t': 8, 't2v': 9, 't2t': 10, 'poly': 30}
CODE3 = {'lin': 0, 'tabi': 1, 'tab': 2, 'poly': 6, 'rat': 9, 'm3t': 11, 'm3r': 12, 'none': 65535}
BIG = 0        # number of table entries, when large tables are made
TEXTS = ['off', 'on', 'a b', 'x', 'Zeta 1', '', 'ok!', 'low  high', '\u00e5\u20ac', '42', 'b', 'A/b']


def tx(s):
    return {'k': 'tx', 't': list(s.encode())}


def cnt(rng, lo, hi):
    return BIG or rng.randrange(lo, hi)


def words(rng):
    return ['T%d' % i for i in rng.sample(range(2 * BIG), BIG)] if BIG else rng.sample(TEXTS, rng.randrange(1, 6))


def asc(rng, n, kind):
    v = rng.randrange(-60, 20)
    if kind == 'u':
        v = abs(v) // 4
    out = []
    for _ in range(n):
        out.append(v)
        v += rng.choice([1, 2, 3, 4, 8, 12])
    return out


def rule(rng, ty, kind, nest, m3=False):
    global BIG
    q = lambda a=-80, b=81: rng.randrange(a, b)
    refs = []
    if ty == 'none':
        p = []
    elif ty == 'lin':
        p = [q(), rng.choice([4, 4, 0, q(), -4, 1])]
        if rng.random() < 0.1:
            p = p[:1]
    elif ty == 'rat':
        p = [q(-20, 21) for _ in range(6)]
        if rng.random() < 0.5:
            p[0] = p[3] = 0
        if rng.random() < 0.3:
            p[3] = p[4] = 0
    elif ty == 'poly':
        p = [q(-20, 21) for _ in range(6)]
        if rng.random() < 0.4:
            p[2] = 0
    elif ty in ('tab', 'tabi'):
        ks = asc(rng, cnt(rng, 1, 7), kind)
        p = [x for k in ks for x in (k, q())]
    elif ty == 'rng':
        p = []
        e = asc(rng, max(12, 2 * BIG + 4), kind)
        for i in range(cnt(rng, 1, 5)):
            lo = e[2 * i]
            hi = rng.choice([e[2 * i + 1], e[2 * i + 2], e[2 * i], e[2 * i + 3]])
            p += [lo, hi, q()]
        p.append(q())
    elif ty == 'v2t':
        p = asc(rng, cnt(rng, 1, 6), kind)
        if rng.random() < 0.3:
            rng.shuffle(p)
        refs = [tx(rng.choice(TEXTS)) for _ in range(len(p) + 1)]
    elif ty == 'r2t':
        p = []
        e = asc(rng, max(12, 2 * BIG + 4), kind)
        for i in range(cnt(rng, 1, 5)):
            p += [e[2 * i], rng.choice([e[2 * i + 1], e[2 * i + 2], e[2 * i], e[2 * i + 3]])]
        refs = [tx(rng.choice(TEXTS)) for _ in range(len(p) // 2 + 1)]
    elif ty == 'm3t':
        p = asc(rng, cnt(rng, 1, 6), kind)
        refs = [tx(rng.choice([t for t in TEXTS if t and t.isascii() and t.strip() == t])) for _ in p]
    elif ty == 'm3r':
        p = [0, 0]
        e = asc(rng, max(12, 2 * BIG + 4), kind)
        for i in range(cnt(rng, 1, 5)):
            p += [e[2 * i], rng.choice([e[2 * i + 1], e[2 * i + 2], e[2 * i]])]
        refs = [tx(rng.choice([t for t in TEXTS if t and t.isascii() and t.strip() == t])) for _ in range(len(p) // 2)]
    elif ty == 't2v':
        ks = words(rng)
        refs = [tx(t) for t in ks]
        p = [q() for _ in range(len(ks) + 1)]
    else:
        ks = words(rng)
        refs = [y for t in ks for y in (tx(t), tx(rng.choice(TEXTS)))] + [tx(rng.choice(TEXTS))]
        p = []
    if nest and ty in ('v2t', 'r2t'):
        size, BIG = BIG, 0
        for i in range(len(refs)):
            u = rng.random() * (1 + size / 5)
            if u < 0.15:
                refs[i] = {'k': 'nil', 't': []}
            elif u < 0.35:
                refs[i] = {'k': 'cc', 't': [], 'cc': rule(rng, rng.choice(['lin', 'none', 'v2t', 'r2t', 'rng', 'tab', 'tabi']), kind, nest=rng.random() < 0.3)}
        BIG = size
    return {'ty': ty, 'p': p, 'refs': refs}


def keys(cc):
    """interesting raw values: keys, ends and their neighbours, also of nested rules"""
    out = []
    if cc['ty'] in ('tab', 'tabi'):
        out += cc['p'][::2]
    elif cc['ty'] == 'rng':
        out += [x for i, x in enumerate(cc['p'][:-1]) if i % 3 != 2]
    elif cc['ty'] in ('v2t', 'r2t', 'm3t', 'm3r'):
        out += cc['p']
    for r in cc['refs']:
        if r['k'] == 'cc':
            out += keys(r['cc'])
    return out


def raws(rng, cc, kind, n):
    if kind == 't':
        pool = [bytes(r['t']).decode() for r in cc['refs']] + TEXTS
        return [list(rng.choice(pool).encode()) for _ in range(n)]
    ks = keys(cc)
    out = []
    for _ in range(n):
        x = rng.choice(ks) + rng.choice([0, 0, 0, -1, 1, -2, 2, -4, 4]) if ks and rng.random() < 0.8 else rng.randrange(-80, 81)
        if kind != 'f':
            x = x // 4 * 4
        if kind == 'u':
            x = abs(x)
        out.append(x)
    return out


def ccblk(cc, rng):
    refs = [None if r['k'] == 'nil' else M.tx(bytes(r['t']).decode()) if r['k'] == 'tx' else ccblk(r['cc'], rng) for r in cc['refs']]
    return M.Blk('CC', [None, None, None, None] + refs,
                 struct.pack('<BBHHHdd', CODE[cc['ty']], 0, 0, len(refs), len(cc['p']), 0, 0) + b''.join(struct.pack('<d', p / 4) for p in cc['p']))


def record(chs, k, order):
    b = b''
    for c in chs:
        x = c['raw'][k]
        if c['kind'] == 't':
            b += bytes(x).ljust(16, b'\0')
        elif c['kind'] == 'f':
            b += struct.pack('<d', x / 4)
        else:
            b += struct.pack('<q', x // 4)
    return b


def chans(rng, tys, nest, n, kinds='usfuf'):
    chs = []
    for i, ty in enumerate(tys):
        kind = 't' if ty in ('t2v', 't2t') else rng.choice(kinds)
        cc = rule(rng, ty, kind, nest)
        chs.append(dict(name='c%d' % i, kind=kind, cc=cc, raw=raws(rng, cc, kind, n), code=CODE.get(ty, -1), unit='m'))
    return chs


def file4(rng, sid):
    n = rng.randrange(1, 9)
    chs = chans(rng, [rng.choice(['none', 'lin', 'rat', 'tabi', 'tab', 'rng', 'v2t', 'r2t', 't2v', 't2t', 'v2t', 'r2t', 'rng']) for _ in range(rng.randrange(1, 6))], True, n)
    nxt, pos = None, 0
    at = []
    for c in chs:
        at.append(pos)
        pos += 16 if c['kind'] == 't' else 8
    for c, p in reversed(list(zip(chs, at))):
        b = M.cn(c['name'], 0, 0, {'u': 0, 's': 2, 'f': 4, 't': 7}[c['kind']], p, 0, 128 if c['kind'] == 't' else 64, nxt=nxt)
        b.links[4] = ccblk(c['cc'], rng)
        nxt = b
    cg = M.Blk('CG', [None, nxt, None, None, None, None], struct.pack('<QQHH4xII', 0, n, 0, 0, pos, 0))
    dg = M.Blk('DG', [None, cg, M.Blk('DT', [], b''.join(record(chs, k, 0) for k in range(n))), None], struct.pack('<B7x', 0))
    return {'id': sid, 'chs': chs, 'hex': M.layout(M.hd(dg), rng, 410).hex()}


def file3(rng, sid):
    L, B = M.L, M.Blk3
    n = rng.randrange(1, 9)
    chs = chans(rng, [rng.choice(['none', 'lin', 'rat', 'poly', 'tabi', 'tab', 'm3t', 'm3r']) for _ in range(rng.randrange(1, 6))], False, n)
    nxt = None
    for i, c in reversed(list(enumerate(chs))):
        cc = c['cc']
        f = [struct.pack('<Hdd', 0, 0, 0), b'm'.ljust(20, b'\0'), struct.pack('<H', CODE3[cc['ty']])]
        if cc['ty'] in ('tab', 'tabi'):
            f.append(struct.pack('<H', len(cc['p']) // 2))
        elif cc['ty'] == 'm3r':
            f.append(struct.pack('<H', len(cc['p']) // 2))
            for j in range(len(cc['p']) // 2):
                t = bytes(cc['refs'][j]['t']) + b'\0'
                f += [struct.pack('<dd', cc['p'][2 * j] / 4, cc['p'][2 * j + 1] / 4), L(B('TX', [t]))]
        elif cc['ty'] == 'm3t':
            f.append(struct.pack('<H', len(cc['p'])))
            for p, r in zip(cc['p'], cc['refs']):
                f += [struct.pack('<d', p / 4), bytes(r['t']).ljust(32, b'\0')]
        else:
            f.append(struct.pack('<H', len(cc['p'])))
        if cc['ty'] not in ('m3r', 'm3t'):
            f += [struct.pack('<d', p / 4) for p in cc['p']]
        nxt = B('CN', [L(nxt), L(B('CC', f)), L(None), L(None), L(None), struct.pack('<H', 0), c['name'].encode().ljust(32, b'\0'), b'\0' * 128,
                       struct.pack('<HHHHddd', 64 * i, 64, {'u': 13, 's': 14, 'f': 16}[c['kind']], 0, 0, 0, 0), L(None), L(None), struct.pack('<H', 0)])
    cg = B('CG', [L(None), L(nxt), L(None), struct.pack('<HHHI', 0, len(chs), 8 * len(chs), n), L(None)])
    dg = B('DG', [L(None), L(cg), L(None), L(B('', [b''.join(record(chs, k, 0) for k in range(n))])), struct.pack('<HH4x', 1, 0)])
    h = B('HD', [L(dg), L(None), L(None), struct.pack('<H', 1), b'18:11:2020', b'10:20:30', b'\0' * 32, b'\0' * 32, b'\0' * 32, b'\0' * 32,
                 struct.pack('<QhH', 1600000000000000000, 0, 0), b'\0' * 32])
    return {'id': sid, 'chs': chs, 'hex': M.layout3(h, rng, 330).hex()}


def written(rng, sid, m3):
    n = rng.randrange(1, 7)
    tys = ['lin', 'rat', 'poly', 'tabi', 'tab', 'none'] if m3 else ['none', 'lin', 'rat', 'tabi', 'tab', 'rng', 'v2t', 'r2t', 't2v', 't2t']
    chs = chans(rng, [rng.choice(tys) for _ in range(rng.randrange(1, 5))], False, n)
    return {'id': sid, 'chs': chs, 'write': 'mdf3' if m3 else 'mdf4'}


def run(chk):
    chk.model('MdfConvMC', 'SPECIFICATION MCSpec\nCONSTANT D = %d\nINVARIANT Total\nINVARIANT AtKeys\nINVARIANT Between\nINVARIANT Ends\nCHECK_DEADLOCK FALSE\n' % chk.n(6, 9), 'all small conversion rules', expect_states=1000)
    exe = vlib.build(['drv_conv'])['drv_conv']
    n = chk.n(2400, 40000)
    scs = []
    for i in range(n):
        m = i % 8
        scs.append(file3(chk.rng, i + 1) if m in (2, 5) else written(chk.rng, i + 1, m == 7) if m in (6, 7) and i < 2000 else file4(chk.rng, i + 1))
    # large tables
    global BIG
    for i in range(chk.n(48, 400)):
        BIG = chk.rng.choice([127, 128, 129, 255, 256, 257, 300, 600])
        scs.append((file4, file4, file3, lambda r, k: written(r, k, i % 8 == 3))[i % 4](chk.rng, len(scs) + 1))
    BIG = 0
    by = {s['id']: s for s in scs}
    chk.scn = by
    tr = vlib.run_driver(exe, scs, chk.work + '/run')
    chk.cov['scenarios'] = len(scs)
    chk.sample({k: v for k, v in scs[0].items() if k != 'hex'})
    chk.validate('MdfConvTrace', 'SPECIFICATION TSpec\n', [tr[s['id']] for s in scs], 'engineering values',
                 rerun=lambda ids: [vlib.run_driver(exe, [by[i]], chk.work + '/again')[i] for i in ids])
