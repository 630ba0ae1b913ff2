"""C20: array channels keep every element in its place."""
import rec


def run(chk):
    rec.model(chk)
    scs = []
    for i in range(chk.n(140, 2000)):
        scs.append(rec.codec(chk.rng, len(scs) + 1, 5, 10, arr=0.8, inv=0.4))
    for i in range(chk.n(4, 40)):
        scs.append(rec.codec(chk.rng, len(scs) + 1, 1, 2, arr=1, inv=0.5, huge=chk.rng.choice([128, 256, 257, 272])))
    for i in range(chk.n(12, 150)):
        scs.append(rec.raw(chk.rng, len(scs) + 1, 60, elem=0.8))
    rec.replay(chk, scs, 'array elements')
