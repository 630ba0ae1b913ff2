"""C02: pre-trigger keeps exactly the samples inside the window."""
import gen, wr


def run(chk):
    wr.model(chk, deep=chk.thorough(), invs='INVARIANT WindowExact\nINVARIANT NothingEarly\nINVARIANT QueueOnlyLive\n')
    ex = wr.build()
    n = chk.n(70, 1500)
    scs = []
    # every short single-group history (sample spacing, background passes, start time, window)
    hs = gen.enumerate_histories(chk, NB=4, NA=chk.n(0, 1), GAP=2, PRE=3)
    chk.cov['enumerated_histories'] = len(hs)
    if not chk.thorough():
        hs = chk.rng.sample(hs, 5000)
    for h in hs:
        w = chk.rng.choice(('mdf4', 'mdf4', 'mdf3', 'bus'))
        h[0]['w'] = w
        scs.append(gen.decorate(chk.rng, h, len(scs) + 1, w, maxch=1, kinds=['u8'], unit=1000000))
    for w in ('mdf4', 'mdf3', 'bus'):
        for pre in (2, 9):
            for h in gen.histories(chk, n // 2, GW=w, GPRE=pre, GORD=1, GOPS=chk.n(25, 60), depth=300):
                small = chk.rng.random() < 0.3
                scs.append(gen.decorate(chk.rng, h, len(scs) + 1, w, maxch=2, kinds=['u8', 'u32', 's64'], unit=chk.rng.choice([1000, 1000000, 1000000000]),
                                        t0=5000000000 if small else None))
    wr.replay(chk, ex, scs, 'pre-trigger')
