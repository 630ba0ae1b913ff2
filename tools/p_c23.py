"""C23: CSV export."""
import rd
import vlib
TCFG = 'SPECIFICATION TSpec\n'
FILES = ['m.mf4', 'a b.mf4', 'x.y.z.mf4', 'DG_1.dat', 'm.mf4']


def scen(rng, sid):
    files = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        if rng.random() < 0.1:
            b = rd.mk3(rng)[0]
        else:
            b = rd.mk4(rng, vl=rng.choice([0, 0, 0.4]), rich=rng.random() < 0.6, odd=rng.random() < 0.7, ncg=rng.choice([1, 3, 3]))[0]
        files.append({'hex': b.hex(), 'name': rng.choice(FILES)})
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        out = rng.random() < 0.4
        which = list(range(1, len(files) + 1))
        rng.shuffle(which)
        which = which[:1] if out else which[:rng.randrange(1, len(which) + 1)]
        ops.append({'op': 'csv', 'out': out, 'which': which, 'force': rng.random() < 0.4, 'quiet': rng.random() < 0.5, 'asdir': rng.random() < 0.3, 'rel': rng.random() < 0.3})
    return {'id': sid, 'files': files, 'ops': ops, 'shm': rng.random() < 0.1}


def big(rng, sid, k):
    """many groups of the same few names, or long tables"""
    if k % 2:
        b = rd.mk4(rng, ndg=3, ncg=rng.choice([26, 60]), minrec=1, maxrec=2, odd=True, gname=rng.choice(['same', 'a b', None]))[0]
    else:
        b = rd.mk4(rng, ndg=1, ncg=2, minrec=100, maxrec=rng.choice([400, 600, 1500]), odd=True)[0]
    return {'id': sid, 'files': [{'hex': b.hex(), 'name': rng.choice(FILES)}], 'shm': False,
            'ops': [{'op': 'csv', 'out': rng.random() < 0.5, 'which': [1], 'force': f, 'quiet': True, 'asdir': False, 'rel': False} for f in (False, True)]}


def run(chk):
    scs = [scen(chk.rng, i + 1) for i in range(chk.n(1500, 16000))]
    for k in range(chk.n(12, 200)):
        scs.append(big(chk.rng, len(scs) + 1, k))
    ex = vlib.build(['drv_csv'], progs=['mdf2csv'])
    exe, env = ex['drv_csv'], {'VCSV': ex['mdf2csv']}
    by = {s['id']: s for s in scs}
    chk.scn = by
    tr = vlib.run_driver(exe, scs, chk.work + '/run', env=env)
    chk.sample({'ops': scs[0]['ops'], 'trace': tr[1]})
    chk.cov['scenarios'] = len(scs)
    chk.validate('MdfCsvTrace', TCFG, [tr[s['id']] for s in scs], 'exported files',
                 rerun=lambda ids: [vlib.run_driver(exe, [by[i]], chk.work + '/again', env=env)[i] for i in ids])
