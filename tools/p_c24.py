"""C24: sample reduction data are read as stored."""
import rd


def scen(rng, sid, f):
    b, dgs = f
    ops = [{'op': 'open', 'mem': rng.random() < 0.3}]
    if rng.random() < 0.5:
        ops += rd.watchers(rng, dgs, 0.5, raw=0)
    for d, dg in enumerate(dgs):
        for g, cg in enumerate(dg['cgs']):
            for s in range(len(cg['srs'])):
                ops.append({'op': 'sr', 'dg': d + 1, 'cg': g + 1, 'sr': s + 1, 'via': bool(dg['frags']) and rng.random() < 0.3})
        if rng.random() < 0.4:
            ops.append({'op': 'read', 'dg': d + 1})
        if rng.random() < 0.3:
            ops.append({'op': 'part', 'dg': d + 1, 'min': 1, 'max': rng.randrange(1, 9)})
    ops.append({'op': 'look'})
    return {'id': sid, 'hex': b.hex(), 'dgs': dgs, 'ops': ops}


def run(chk):
    scs = []
    for i in range(chk.n(1500, 20000)):
        f = rd.mk3(chk.rng, sr=0.8) if i % 4 == 3 else rd.mk4(chk.rng, sr=0.8, numeric=True, inv=0)
        scs.append(scen(chk.rng, i + 1, f))
    rd.replay(chk, scs, 'sample reductions')
