"""Record coding checks (C08, C18, C20): scenarios for drv_record and validation against MdfRecord."""
import datetime, struct
import vlib
TCFG = 'SPECIFICATION TSpec\n'
NUM = {'u': (1, 2, 4, 8), 'U': (1, 2, 4, 8), 's': (1, 2, 4, 8), 'S': (1, 2, 4, 8), 'f': (4, 8), 'F': (4, 8)}


def model(chk):
    b, s = (13, 3) if chk.thorough() else (10, 2)
    chk.model('MdfRecordMC', 'SPECIFICATION MCSpec\nCONSTANTS MaxBits = %d\n Size = %d\nINVARIANT RoundTrip\nINVARIANT Quiet\nINVARIANT ValidExact\nINVARIANT OneCellPerBit\nCHECK_DEADLOCK FALSE\n' % (b, s),
              'record coding, all pairs of channels up to %d bits in %d bytes' % (b, s), expect_states=1000)


def f32(rng):
    m = rng.random()
    if m < 0.1:
        return 0
    if m < 0.2:
        return 0x80000000
    if m < 0.3:
        return rng.randrange(1, 1 << 23) | (rng.randrange(2) << 31)       # subnormal
    if m < 0.35:
        return 0x7F800000 | (rng.randrange(2) << 31)
    return rng.randrange(1 << 23) | (rng.randrange(1, 255) << 23) | (rng.randrange(2) << 31)


def numval(rng, k, by):
    """value fields of a set operation"""
    if k in 'fF':
        if by == 4:
            e = f32(rng)
            return {'v': list(struct.pack('<d', struct.unpack('<f', struct.pack('<I', e))[0])), 'enc': list(struct.pack('<I', e))}
        b = [rng.randrange(256) for _ in range(8)]
        if (b[7] & 0x7F) == 0x7F and b[6] >= 0xF0:
            b[6] |= 8
        if rng.random() < 0.1:
            b = [0] * 8
        return {'v': b}
    m = rng.random()
    if m < 0.1:
        b = [0] * by
    elif m < 0.2:
        b = [255] * by
    elif m < 0.3:
        b = [0] * (by - 1) + [128]
    elif m < 0.4:
        b = [255] * (by - 1) + [127]
    else:
        b = [rng.randrange(256) for _ in range(by)]
    return {'v': b}


def text(rng, k, by):
    n = rng.choice([0, 1, by // 2, by - 2, by - 1, by, by + 3, rng.randrange(0, by + 2)])
    cps = []
    for _ in range(max(0, n)):
        r = rng.random()
        if r < 0.6:
            cps.append(rng.choice('abcXYZ 019_-.,;"<>&'))
        elif r < 0.9 or k == 'l':
            cps.append(chr(rng.randrange(0xA0, 0x100)))
        else:
            cps.append(rng.choice(['\u20ac', '\u4e2d', '\u0416', '\u07ff', '\u0800', '\ufffd']))
    return {'v': list(''.join(cps).encode('utf8'))}


def val(rng, k, by):
    if k in NUM:
        return numval(rng, k, by)
    if k in 'ltwW':
        return text(rng, k, by)
    if k == 'd':
        d = datetime.datetime(rng.randrange(1984, 2069), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60))
        ms = rng.randrange(60000)
        return {'v': [ms & 255, ms >> 8, d.minute, d.hour, d.day | (d.isoweekday() << 5), d.month, d.year % 100]}
    if k == 'c':
        ms = rng.randrange(86400000)
        return {'v': list(struct.pack('<IH', ms, rng.randrange(40000)))}
    n = rng.choice([0, 1, by - 1, by, by + 1, by])
    return {'v': [rng.choice([0, 255, rng.randrange(256)]) for _ in range(max(0, n))]}


def channel(rng, m3=False, arr=0.0, inv=0.5, huge=0):
    k = rng.choice('uUsSfF' * 3 + ('lb' if m3 else 'ltwWbmdc'))
    by = rng.choice(NUM[k]) if k in NUM else {'d': 7, 'c': 6}.get(k) or rng.choice([1, 2, 3, 5, 8, 12, 20])
    if k in 'wW':
        by = rng.choice([2, 4, 8, 12, 20])
    c = {'k': k, 'by': by, 'inv': (not m3) and rng.random() < inv, 'all': (not m3) and rng.random() < 0.05, 'shape': [], 'n': 1, 'ax': [], 'at': 0}
    if k in NUM and not m3 and rng.random() < arr:
        sh = [rng.choice([1, 2, 3, 4, 5, 7]) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        n = 1
        for x in sh:
            n *= x
        if huge:
            k = rng.choice('uUsS')
            by = rng.choice([1, 1, 2])
            c.update(k=k, by=by)
            sh = rng.choice([[huge], [2, huge // 2], [huge // 16 + 1, 16]])
            n = 1
            for x in sh:
                n *= x
        if n <= 40 or huge:
            c.update(sh=sh, shape=sh, n=n, at=rng.randrange(0, 2))
            if rng.random() < 0.3:
                c['ax'] = [rng.randrange(-1000, 1000) for _ in range(sum(sh))]
                c['axis'] = c['ax']
                c['at'] = 2
    return c


def codec(rng, sid, nch, nset, arr=0.0, inv=0.5, m3=False, huge=0):
    chs = [channel(rng, m3, arr, inv, huge) for _ in range(rng.randrange(1, nch + 1))]
    ops = []
    for _ in range(nset):
        c = rng.randrange(len(chs))
        ch = chs[c]
        ok = rng.random() < 0.65
        if ch['n'] > 1 and rng.random() < 0.5:
            ops.append({'op': 'setall', 'c': c + 1, 'vs': [numval(rng, ch['k'], ch['by']) for _ in range(ch['n'])]})
        else:
            ops.append(dict({'op': 'set', 'c': c + 1, 'i': rng.randrange(ch['n']), 'ok': ok}, **val(rng, ch['k'], ch['by'])))
        if rng.random() < 0.4:
            ops.append({'op': 'save'})
    ops.append({'op': 'read'})
    return {'id': sid, 'w': 'mdf3' if m3 else 'mdf4', 'z': rng.random() < 0.3 and not m3, 'chs': chs, 'ops': ops}


def raw(rng, sid, n, allpos=None, elem=0.25):
    """decode numbers and texts at arbitrary positions of arbitrary records"""
    ops = []
    for j in range(n):
        k = rng.choice('uUsS' * 3 + 'fFfFltwWb')
        size = rng.randrange(9, 24)
        rec = [rng.choice([0, 255, rng.randrange(256), rng.randrange(256)]) for _ in range(size)]
        i = rng.choice([1, 1, 2, 3, 7]) if rng.random() < elem else 0
        if k in 'uUsS':
            bits = rng.choice([1, 2, 7, 8, 9, 12, 16, 24, 31, 32, 33, 48, 63, 64, rng.randrange(1, 65)])
            if allpos:
                bits, bit = allpos[j % len(allpos)]
            else:
                bit = rng.randrange(8)
            if allpos and i and bits * 2 + bit > 64:
                i = 0
            if i:
                bit, bits = 0, rng.choice([8, 16, 32, 64])
        elif k in 'fF':
            bits = rng.choice([16, 32, 64])
            bit = 0 if i else rng.choice([0, 0, rng.randrange(8)])
        else:
            bits, bit, i = 8 * rng.choice([1, 2, 4, 6, 8]), 0, 0
            if k in 'wW':
                bits = 16 * rng.choice([1, 2, 3, 4])
        need = (bit + bits * (i + 1) + 7) // 8
        if need > size:
            rec += [rng.randrange(256)] * (need - size)
            size = need
        byte = size - need if rng.random() < 0.4 else rng.randrange(0, size - need + 1)     # often up to the last byte
        if k in 'fF':
            at = byte + i * bits // 8
            # no signalling not-a-number patterns: they are changed by the conversion instruction itself
            val = rng.getrandbits(bits)
            mb, eb = {16: (10, 5), 32: (23, 8), 64: (52, 11)}[bits]
            if rng.random() < 0.3:
                val &= ~(((1 << eb) - 1) << mb)
            if (val >> mb) & ((1 << eb) - 1) == (1 << eb) - 1:
                val &= ~((1 << mb) - 1)
            nb = (bit + bits + 7) // 8
            cur = int.from_bytes(bytes(rec[at:at + nb]), 'big' if k == 'F' else 'little')
            cur = (cur & ~(((1 << bits) - 1) << bit)) | (val << bit)
            rec[at:at + nb] = list(cur.to_bytes(nb, 'big' if k == 'F' else 'little'))
        if k in 'wW':
            # avoid surrogates: outside the supported plane
            for q in range(byte, byte + bits // 8, 2):
                h = q + (1 if k == 'w' else 0)
                if 0xD8 <= rec[h] <= 0xDF:
                    rec[h] = 0x30
        if k == 't':
            for q in range(byte, byte + bits // 8):
                rec[q] &= 0x7F
        ops.append({'op': 'raw', 'k': k, 'byte': byte, 'bit': bit, 'bits': bits, 'i': i, 'rec': rec})
    for _ in range(n // 4):
        be = rng.random() < 0.5
        ln = rng.randrange(1, 65)
        size = 10
        rec = [rng.choice([0, 255, rng.randrange(256)]) for _ in range(size)]
        if be:
            b0, m = rng.randrange(0, 2), rng.randrange(8)
            s = b0 * 8 + m
            if b0 * 8 + (7 - m) + ln > size * 8:
                ln = size * 8 - b0 * 8 - (7 - m)
        else:
            s = rng.randrange(0, size * 8 - ln + 1)
        v = rng.getrandbits(64)
        f = rng.choice(['mu', 'du', 'ds'])
        ops.append({'op': 'toraw', 'f': f, 'be': be, 's': s, 'len': ln, 'rec': rec, 'v': list(v.to_bytes(8, 'little'))})
    return {'id': sid, 'w': 'mdf4', 'chs': [{'k': 'u', 'by': 8, 'inv': False, 'all': False, 'shape': [], 'n': 1, 'ax': [], 'at': 0}], 'ops': ops}


def replay(chk, scs, what):
    exe = vlib.build(['drv_record'])['drv_record']
    by = {s['id']: s for s in scs}
    chk.scn = by
    tr = vlib.run_driver(exe, scs, chk.work + '/run')
    chk.sample({'scenario': scs[0]})
    chk.cov['scenarios'] = chk.cov.get('scenarios', 0) + len(scs)
    chk.cov['record_operations'] = chk.cov.get('record_operations', 0) + sum(len(s['ops']) for s in scs)
    chk.validate('MdfRecordTrace', TCFG, [tr[s['id']] for s in scs], what,
                 rerun=lambda ids: [vlib.run_driver(exe, [by[i]], chk.work + '/again')[i] for i in ids])
