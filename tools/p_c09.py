"""C09: reading does not depend on how the data are stored."""
import mdfgen, rd


def run(chk):
    scs = []
    for i in range(chk.n(2000, 30000)):
        # now and then with holes, so that blocks lie beyond 2 and 4 GB
        mdfgen.FAR[:] = chk.rng.choice([[0.2, 1 << 31], [0.1, (1 << 32) + 8], [0.3, 0x7FFFFFF8], [0.05, 1 << 33]]) if i % 12 == 0 else [0, 0]
        f = rd.mk3(chk.rng) if i % 5 == 4 else rd.mk4(chk.rng, vl=0.3 if i % 12 == 0 else 0)
        scs.append(rd.full(chk.rng, i + 1, f))
    mdfgen.FAR[:] = [0, 0]
    for k in range(chk.n(20, 400)):
        # lists of many blocks, long data
        mdfgen.MANY[0] = chk.rng.choice([70, 140, 300, 700])
        f = rd.mk4(chk.rng, ndg=1, ncg=2, maxrec=chk.rng.choice([60, 150]), form=chk.rng.choice(['dl', 'dleq', 'hl', 'hldt']))
        scs.append(rd.full(chk.rng, len(scs) + 1, f))
    mdfgen.MANY[0] = 0
    rd.replay(chk, scs, 'storage forms')
