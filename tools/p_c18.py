"""C18: invalidation bits mark exactly the samples declared invalid."""
import rec


def run(chk):
    rec.model(chk)
    scs = []
    for i in range(chk.n(160, 2000)):
        scs.append(rec.codec(chk.rng, len(scs) + 1, chk.rng.choice([3, 10, 20]), 14, arr=0.3, inv=0.85))
    rec.replay(chk, scs, 'invalidation marks')
