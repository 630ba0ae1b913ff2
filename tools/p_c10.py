"""C10: partial reads are slices of the full read, whatever is observed and in whatever order."""
import rd, scale


def history(rng, sid, f):
    b, dgs = f
    ops = [{'op': 'open', 'mem': rng.random() < 0.3}]
    live, nxt = [], 1
    for _ in range(rng.randrange(3, 12)):
        r = rng.random()
        if r < 0.3 or not live:
            d = rng.randrange(len(dgs))
            g = rng.randrange(len(dgs[d]['cgs']))
            n = len(dgs[d]['cgs'][g]['chs'])
            if n == 0 or rng.random() < 0.2:
                ops.append({'op': 'attach', 'o': nxt, 'dg': d + 1, 'cg': 0, 'cn': 0, 'vl': True})
            else:
                ops.append({'op': 'attach', 'o': nxt, 'dg': d + 1, 'cg': g + 1, 'cn': rng.randrange(n) + 1, 'vl': rng.random() < 0.8})
            live.append(nxt)
            nxt += 1
        elif r < 0.4:
            o = rng.choice(live)
            live.remove(o)
            ops.append({'op': 'detach', 'o': o})
        elif r < 0.6:
            ops.append({'op': 'read', 'dg': rng.randrange(len(dgs)) + 1, 'cls': rng.random() < 0.2})
        else:
            d = rng.randrange(len(dgs))
            top = max([c['cyc'] for c in dgs[d]['cgs']] + [1])
            lo = rng.randrange(0, top + 3)
            hi = rng.choice([lo, lo + 1, rng.randrange(0, top + 4), lo + rng.randrange(0, 4)])
            ops.append({'op': 'part', 'dg': d + 1, 'min': lo, 'max': hi, 'cls': rng.random() < 0.2})
        if rng.random() < 0.1:
            ops.append({'op': 'look'})
    ops.append({'op': 'look'})
    return {'id': sid, 'hex': b.hex(), 'dgs': dgs, 'ops': ops}


def run(chk):
    scs = []
    for i in range(chk.n(2000, 30000)):
        f = rd.mk3(chk.rng) if i % 4 == 3 else rd.mk4(chk.rng, vl=chk.rng.choice([0, 0, 0.4]))
        scs.append(history(chk.rng, i + 1, f))
    rd.replay(chk, scs, 'partial reads')
    scale.run(chk, scale.files(chk), 'long, wide and many')
