"""C19: compression and transposition are lossless inverses; damaged data are reported."""
import zlib
import vlib
SIZES = [1, 2, 5, 99, 100, 101, 1000, 16383, 16384, 16385, 32767, 32768, 32769, 65536, 65537]


def content(rng, top):
    if rng.random() < 0.5:
        return {'k': 'raw', 'b': [rng.choice([0, 1, 255, 65, rng.randrange(256)]) for _ in range(rng.randrange(0, 61))]}
    n = rng.choice(SIZES + [rng.randrange(1, top)] * 4)
    return {'k': rng.choice(['noise', 'zero', 'text', 'ramp', 'noise']), 'n': n, 'seed': rng.randrange(1, 10 ** 6)}


def infs(rng):
    out = [{'how': h} for h in ('arr', 'stream', 'count', 'arrstream')]
    out += [{'how': rng.choice(['arr', 'stream', 'count', 'arrstream']), 'cut': rng.choice([1, 2, 3, 6, 10 ** 9 - 1, rng.randrange(10 ** 6)])} for _ in range(2)]
    out += [{'how': rng.choice(['arr', 'stream', 'count', 'arrstream']), 'flip': rng.randrange(10 ** 6)} for _ in range(2)]
    out += [{'how': 'count', 'lim': rng.choice([1, 1, 2, 3, 5, 100])}]
    out += [{'how': 'arr', 'room': rng.choice([-1, -2, -7, 1, 100])}]
    return out


def foreign(rng, sid):
    c = {'k': 'raw', 'b': [rng.choice([0, 1, 255, 65, rng.randrange(256)]) for _ in range(rng.randrange(1, 400))]}
    o = zlib.compressobj(rng.choice([0, 1, 6, 9]), zlib.DEFLATED, rng.choice([9, 12, 15]), rng.choice([1, 8, 9]), rng.choice([0, 1, 2, 3]))
    z, b = b'', bytes(c['b'])
    while b:
        k = rng.randrange(1, 100)
        z += o.compress(b[:k])
        if rng.random() < 0.3:
            z += o.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
        b = b[k:]
    z += o.flush()
    return {'id': sid, 'c': c, 'z': list(z), 'inf': infs(rng)}


def run(chk):
    chk.model('MdfZipMC', 'SPECIFICATION Spec\nCONSTANT MaxLen = %d\nCONSTANT MaxWidth = %d\nINVARIANT Inverse\nINVARIANT Permutes\nINVARIANT Swap\nINVARIANT Columns\nCHECK_DEADLOCK FALSE\n' % ((24, 26) if not chk.thorough() else (48, 50)), 'every transposition', expect_states=500)
    exe = vlib.build(['drv_zip'])['drv_zip']
    n = chk.n(1200, 12000)
    rng = chk.rng
    scs = []
    for i in range(n):
        m = i % 6
        if m == 0:
            scs.append({'id': i + 1, 'tp': [{'c': {'k': 'raw', 'b': [rng.randrange(256) for _ in range(rng.randrange(0, 40))]}, 'w': rng.randrange(0, 45)} for _ in range(8)]})
        elif m == 1:
            scs.append(foreign(rng, i + 1))
        else:
            top = 5000000 if i % 60 == 2 else 800000 if i % 30 == 3 else 70000
            c = content(rng, top)
            if top > 70000:
                c = {'k': rng.choice(['noise', 'noise', 'text', 'zero']), 'n': rng.randrange(70000, top), 'seed': rng.randrange(10 ** 6)}
            scs.append({'id': i + 1, 'c': c, 'def': ['arr', 'file', 'stream'][rng.randrange(3)], 'inf': infs(rng)})
    # every compressed size around the size of the pieces the streams are handled in
    for k in (16384, 32768):
        for c in range(k - 40, k + 8, chk.n(1, 1)):
            scs.append({'id': len(scs) + 1, 'c': {'k': 'noise', 'n': c, 'seed': rng.randrange(1, 10 ** 6)}, 'def': 'stream', 'inf': infs(rng) + [{'how': 'count', 'lim': 1}, {'how': 'count', 'lim': 2}]})
    # the whole small space of transpositions
    for ln in range(0, chk.n(20, 40)):
        scs.append({'id': len(scs) + 1, 'tp': [{'c': {'k': 'raw', 'b': list(range(1, ln + 1))}, 'w': w} for w in range(0, ln + 3)]})
    by = {s['id']: s for s in scs}
    chk.scn = by
    tr = vlib.run_driver(exe, scs, chk.work + '/run')
    chk.cov['scenarios'] = len(scs)
    chk.sample(scs[2])
    chk.validate('MdfZipTrace', 'SPECIFICATION TSpec\n', [tr[s['id']] for s in scs], 'compression',
                 rerun=lambda ids: [vlib.run_driver(exe, [by[i]], chk.work + '/again')[i] for i in ids])
