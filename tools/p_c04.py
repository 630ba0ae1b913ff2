"""C04: appending a measurement never alters earlier ones."""
import gen, wr


def run(chk):
    wr.model(chk, invs='PROPERTY AppendOnly\nPROPERTY Sealed\nPROPERTY HeaderOnce\nPROPERTY GroupsOnlyGrow\n', batches=2)
    ex = wr.build()
    n = chk.n(250, 2500)
    scs = []
    for w in ('mdf4', 'mdf3', 'conv'):
        for ses in (2, 4):
            for h in gen.histories(chk, n // 2, GW=w, GSES=ses, GOPS=chk.n(12, 25), GPRE=2, GORD=1, depth=400):
                scs.append(gen.decorate(chk.rng, h, len(scs) + 1, w, var=w != 'mdf3', inv=True, maxch=3))
    wr.replay(chk, ex, scs, 'append')
