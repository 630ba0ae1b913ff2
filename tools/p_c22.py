"""C22: samples offered outside a session, repeated stop/finalize."""
import gen, wr


def run(chk):
    wr.model(chk)
    ex = wr.build()
    n = chk.n(200, 2000)
    scs = []
    for w in ('mdf4', 'mdf3', 'conv', 'bus'):
        for h in gen.histories(chk, n, GW=w, GOPS=chk.n(16, 40), GSES=2, GPRE=2, GORD=1, GWILD=1, depth=400):
            scs.append(gen.decorate(chk.rng, h, len(scs) + 1, w, maxch=3))
    wr.replay(chk, ex, scs, 'out of order')
