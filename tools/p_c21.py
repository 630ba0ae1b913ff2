"""C21: an unfinished file is read to what its bytes contain."""
import rd


def run(chk):
    rng = chk.rng
    scs = []
    for i in range(chk.n(2000, 30000)):
        cut = rng.random() < 0.6
        fl = rng.choice([1, 5, 5, 5, 0x25, 0x65, 0x21]) if cut else rng.choice([1, 4, 5, 0x25, 0x65])
        f = rd.mk4(rng, vl=0 if cut else 0.3, unfin=fl, cut=cut)
        s = rd.full(rng, i + 1, f)
        if rng.random() < 0.3:
            d = len(f[1])
            s['ops'].append({'op': 'part', 'dg': d, 'min': 1, 'max': rng.randrange(1, 9)})
        scs.append(s)
    rd.replay(chk, scs, 'unfinished files')
