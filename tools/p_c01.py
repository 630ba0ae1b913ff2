"""C01: saved samples are read back exactly once, in order, unchanged."""
import gen, scale, wr


def run(chk):
    wr.model(chk)
    ex = wr.build()
    n = chk.n(500, 4000)
    scs = []
    for w, per, kw in (('mdf4', n, dict(var=True, inv=True)), ('mdf3', n // 2, {}), ('conv', n // 2, dict(var=True, inv=True)), ('bus', n // 3, dict(var=True))):
        for h in gen.histories(chk, per, GW=w, GOPS=chk.n(25, 60), depth=300):
            scs.append(gen.decorate(chk.rng, h, len(scs) + 1, w, nomst=True, unit=chk.rng.choice([1, 1000, 1000000]), **kw))
    # records large enough to need several compressed blocks (4 MB each): several groups, small and large ones mixed
    for w in ('mdf4', 'conv'):
        for h in gen.histories(chk, chk.n(6, 60), seeds=2, GW=w, GOPS=30, GSHAPE='any', depth=300):
            h[0]['z'] = chk.rng.random() < 0.8
            scs.append(gen.decorate(chk.rng, h, len(scs) + 1, w, kinds=['u8', 'blk'], maxch=2, blk=(99, 100, 101, 60000, 700000, 1300000)))
    # one group, block limit met exactly, just missed and just passed, with background passes at every fill level
    for w in ('mdf4', 'bus', 'conv'):
        for h in gen.histories(chk, chk.n(10, 80), seeds=2, GW=w, GOPS=24, GSHAPE='one', GTICK=1, depth=300):
            h[0]['z'], h[0]['per'] = True, True
            scs.append(gen.decorate(chk.rng, h, len(scs) + 1, w, kinds=['blk'], maxch=1, blk=(450000, 700000, 999991, 999992, 999993, 1300000, 1999992)))
    for h, w in fill(chk):
        scs.append(gen.decorate(chk.rng, h, len(scs) + 1, w, kinds=['blk'], maxch=1, blk=h[0].pop('blk')))
    wr.replay(chk, ex, scs, 'round trip')
    scale.run(chk, scale.writes(chk), 'long, wide and many')


def fill(chk):
    """Histories with k samples, one background pass, m more samples: every fill level of the compressed queue."""
    for k in range(1, 12):
        for w in ('mdf4', 'bus', 'conv'):
            if not chk.thorough() and chk.rng.random() < 0.3:
                continue
            m = chk.rng.randrange(0, 6)
            ops = [{'op': 'open', 'w': w, 'z': True, 'per': True, 'pre': 0, 'blk': (chk.rng.choice([799992, 999992, 700000]),)}, {'op': 'groups', 'gs': [1]}, {'op': 'init'},
                   {'op': 'start', 't': 0}]
            ops += [{'op': 'save', 'd': 1, 'c': 1, 't': i} for i in range(k)] + [{'op': 'tick'}]
            ops += [{'op': 'save', 'd': 1, 'c': 1, 't': k + i} for i in range(m)] + ([{'op': 'tick'}] if m % 2 else [])
            yield ops + [{'op': 'stop', 't': 100}, {'op': 'fin'}, {'op': 'close'}, {'op': 'read'}], w
