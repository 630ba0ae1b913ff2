"""C16: sorting a file preserves its contents."""
import rd
import vlib
import math
TCFG = 'SPECIFICATION TSpec\n'


def scen(rng, sid, f, m3=False):
    b, dgs = f
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        there = rng.random() < 0.2
        ops.append({'op': 'sort', 'there': there, 'over': rng.random() < 0.5, 'skip': rng.random() < 0.3, 'zip': rng.random() < 0.4,
                    'vlsd': False, 'ml': False, 'chain': rng.random() < 0.5})
    return {'id': sid, 'hex': b.hex(), 'dgs': dgs, 'ops': ops, 'm3': m3}


def times(rng, r):
    """times need not be whole nanoseconds, nor ascending"""
    return rng.choice([r * 0.25, r / 3.0, r * math.pi, r * 1e-10, -r * 0.7, 1.0, 1e9 + r / 7.0])


def run(chk):
    scs = []
    for i in range(chk.n(1200, 20000)):
        m3 = i % 12 == 3
        f = rd.mk3(chk.rng) if m3 else rd.mk4(chk.rng, vl=chk.rng.choice([0, 0, 0.4]), rich=True, times=times)
        scs.append(scen(chk.rng, i + 1, f, m3))
    exe = vlib.build(['drv_sort'])['drv_sort']
    by = {s['id']: s for s in scs}
    chk.scn = by
    tr = vlib.run_driver(exe, scs, chk.work + '/run')
    chk.sample({'scenario': {k: v for k, v in scs[0].items() if k != 'hex'}})
    chk.cov['scenarios'] = len(scs)
    chk.validate('MdfSortTrace', TCFG, [tr[s['id']] for s in scs], 'sorted files',
                 rerun=lambda ids: [vlib.run_driver(exe, [by[i]], chk.work + '/again')[i] for i in ids])
