"""C03: master time is relative to the measurement start."""
import gen, wr


def run(chk):
    wr.model(chk, invs='INVARIANT Relative\nPROPERTY HeaderOnce\nPROPERTY Sealed\n', batches=2)
    ex = wr.build()
    n = chk.n(250, 2500)
    scs = []
    for w in ('mdf4', 'mdf3', 'conv'):
        for h in gen.histories(chk, n, GW=w, GPRE=8, GSES=2, GORD=1, GOPS=chk.n(16, 40), depth=300):
            m = chk.rng.random()
            if m < 0.4:
                kw = dict(own=chk.rng.choice([0, 0.4]), mks=('f64', 'F64'), unit=chk.rng.choice([1, 1000, 1000000, 1000000000]))
            elif m < 0.7:
                kw = dict(mks=('f32', 'F32', 's64', 's32', 'S64', 'S32', 's16', 'S16'), unit=1953125, cvs=[[0, 512]] + ([[2, 512], [-3, 512], [1, 1024]] if w != 'mdf3' else []))
            else:
                kw = dict(mks=('s64', 's32', 's16', 's8', 'S16', 'S32', 'S64', 'f32'), unit=1000000000)
            scs.append(gen.decorate(chk.rng, h, len(scs) + 1, w, maxch=2, kinds=['u8', 'u32', 's64'], **kw))
    wr.replay(chk, ex, scs, 'master time')
