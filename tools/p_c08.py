"""C08: channel values are coded bit-exactly in the record."""
import rec


def run(chk):
    rec.model(chk)
    grid = [(bits, bit) for bits in range(1, 65) for bit in range(8)]
    chk.rng.shuffle(grid)
    scs = []
    n = chk.n(24, 300)
    for i in range(n):
        step = grid[i * 40 % len(grid):] + grid
        scs.append(rec.raw(chk.rng, len(scs) + 1, 60, allpos=step if i < n // 2 else None))
    for i in range(chk.n(120, 1500)):
        scs.append(rec.codec(chk.rng, len(scs) + 1, 6, 12, arr=0.15, inv=0.3, m3=i % 4 == 3))
    rec.replay(chk, scs, 'record coding')
