"""Scenario material shared by the checks: TLC-generated histories and random value decoration."""
import json, os, re, shutil, struct
import concurrent.futures as cf
import vlib

SIZES = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'U16': 2, 'U32': 4, 'U64': 8, 's8': 1, 's16': 2, 's32': 4, 's64': 8,
         'S16': 2, 'S32': 4, 'S64': 8}
FIXED = list(SIZES) + ['f32', 'f64', 'F32', 'F64', 'str', 'utf8', 'ba']
VARLEN = ['vstr', 'vba', 'vasc']


def rbytes(rng, n):
    m = rng.random()
    if m < 0.15:
        return [0] * n
    if m < 0.3:
        return [255] * n
    if m < 0.4:
        return [0] * (n - 1) + [128]
    return [rng.randrange(256) for _ in range(n)]


def value(rng, k, maxlen=30):
    if k in SIZES:
        return rbytes(rng, SIZES[k])
    if k in ('f64', 'F64'):
        b = [rng.randrange(256) for _ in range(7)] + [rng.choice([0x3F, 0x40, 0xBF, 0xC0, 0x00, 0x80, 0x10, 0x7E])]
        if rng.random() < 0.1:
            b = [0] * 8
        return b
    if k in ('f32', 'F32'):
        x = struct.unpack('<f', struct.pack('<I', (rng.randrange(1 << 23)) | (rng.randrange(1, 254) << 23) | (rng.randrange(2) << 31)))[0]
        return list(struct.pack('<d', x))
    if k in ('str', 'utf8', 'vstr', 'vasc'):
        n = rng.randrange(0, 12) if k in ('str', 'utf8') else rng.choice([0, 1, 2, 7, 8, 9, rng.randrange(maxlen + 1)])
        return [rng.choice(b'abcXYZ 019_-.') for _ in range(n)]
    if k in ('blk', 'vblk'):
        return [rng.randrange(256), rng.randrange(256)]
    if k == 'ba':
        return rbytes(rng, 5)
    if k == 'vba':
        return rbytes(rng, rng.choice([0, 1, 2, 7, 8, 9, rng.randrange(maxlen + 1)]))
    raise ValueError(k)


def histories(chk, n, seeds=4, depth=200, **env):
    """n call histories drawn by TLC from MdfWriterGen (simulation of the specification)."""
    per = -(-n // seeds)
    env = {k: str(v) for k, v in env.items()}

    def one(i):
        return vlib.tlc('MdfWriterGen', 'SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n', chk.work, env=env, workers=1,
                        args=['-simulate', 'num=%d' % per, '-depth', str(depth), '-seed', str(chk.seed * 7919 + i * 31 + chk.nhist)], heap='2g')
    chk.nhist = getattr(chk, 'nhist', 0)
    with cf.ThreadPoolExecutor(seeds) as ex:
        rs = list(ex.map(one, range(seeds)))
    chk.nhist += 1000
    out = []
    for r in rs:
        if not r.ok:
            raise vlib.CheckError('generator failed\n' + r.out[-3000:])
        chk.cov['transitions'] += r.generated
        for ln in r.out.splitlines():
            if ln.startswith('"HIST '):
                out.append(json.loads(json.loads(ln)[5:]))
        shutil.rmtree(r.dir, ignore_errors=True)
    if len(out) < n // 2:
        raise vlib.CheckError('generator produced only %d of %d histories' % (len(out), n))
    return out[:n]


def enumerate_histories(chk, **env):
    """All histories of MdfWriterEnum within the bounds (breadth-first, every one)."""
    r = vlib.tlc('MdfWriterEnum', 'SPECIFICATION ESpec\nCHECK_DEADLOCK FALSE\n', chk.work, env={k: str(v) for k, v in env.items()}, workers=4, heap='4g')
    if not r.ok:
        raise vlib.CheckError('enumeration failed\n' + r.out[-3000:])
    chk.cov['states'] += r.distinct
    chk.cov['transitions'] += r.generated
    out = [json.loads(json.loads(ln)[5:]) for ln in r.out.splitlines() if ln.startswith('"HIST ')]
    shutil.rmtree(r.dir, ignore_errors=True)
    out.sort(key=lambda h: json.dumps(h))
    return out


def decorate(rng, hist, sid, w, var=False, inv=False, maxch=4, unit=None, maxlen=30, mks=('f64',), nomst=False, kinds=None, blk=(1000,), cvs=None, t0=None, own=0):
    """Attach channel layouts and sample values to an abstract call history."""
    ops = []
    lay = None
    for op in hist:
        op = dict(op)
        if op['op'] == 'open' and not ops:           # 0 by name, 1 through a stream buffer of the caller
            op['sb'] = rng.choice([0, 0, 0, 1])
        if op['op'] == 'groups':
            lay = []
            for ncg in op.pop('gs'):
                dg = []
                for _ in range(ncg):
                    pool = list(kinds or FIXED) + (VARLEN * 4 if var else [])
                    chs = []
                    for _ in range(rng.randrange(1, maxch + 1)):
                        k = rng.choice(pool)
                        if w == 'mdf3' and k == 'utf8':
                            k = 'str'
                        chs.append({'k': k, **({'n': rng.choice(blk)} if k in ('blk', 'vblk') else {}), 'inv': bool(inv and w != 'mdf3' and rng.random() < 0.6)})
                    g = {'chs': chs, 'mst': not (nomst and rng.random() < 0.2), 'mk': rng.choice(mks)}
                    if cvs and g['mk'][0] in 'sSuU':
                        g['cv'] = rng.choice(cvs)
                    if g['mst'] and g['mk'] in ('f64', 'F64') and rng.random() < own:
                        g['own'] = True
                    dg.append(g)
                if len(dg) > 1 and w != 'mdf3' and rng.random() < 0.3:
                    dg[0]['rid'] = rng.choice([1, 2, 4, 8])
                lay.append(dg)
            op['dgs'] = lay
        elif op['op'] == 'save':
            chs = lay[op['d'] - 1][op['c'] - 1]['chs']
            op['v'] = [value(rng, c['k'], maxlen) for c in chs]
            op['ok'] = [not (c['inv'] and rng.random() < 0.4) for c in chs]
            op['bydg'] = rng.random() < 0.5
            op['dw'] = rng.choice([0, 0, 1, 2])      # 0 SaveSample, 1 a data writer value by value, 2 a data writer record by record
            if lay[op['d'] - 1][op['c'] - 1].get('own'):
                op['m'] = [rng.randrange(-3, 100)]
                op['dw'] = rng.choice([0, 0, 2])
        elif op['op'] in ('start', 'stop'):
            op['its'] = rng.random() < 0.3           # time given as a time stamp object
        ops.append(op)
    sc = {'id': sid, 'ops': ops}
    if t0 is not None:
        sc['t0'] = t0
    if unit:
        sc['unit'] = unit
    return sc
