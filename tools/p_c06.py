"""C06: the file on disk is readable at every interruption point."""
import gen, wr


def run(chk):
    wr.model(chk, invs='INVARIANT NothingEarly\nINVARIANT QueueOnlyLive\nPROPERTY AppendOnly\n')
    ex = wr.build()
    n = chk.n(240, 2000)
    scs = []
    for w in ('mdf4', 'mdf3', 'bus'):
        for ses in (1, 2):
            for h in gen.histories(chk, n // 2, GW=w, GSES=ses, GOPS=chk.n(20, 40), GPRE=3, GORD=1, GSNAP=1, depth=400):
                # an interruption point after every call of a session
                ops = []
                for op in h:
                    if op['op'] == 'snap':
                        continue
                    ops.append(op)
                    if op['op'] in ('init', 'start', 'save', 'tick', 'stop', 'fin'):
                        ops.append({'op': 'snap'})
                scs.append(gen.decorate(chk.rng, ops, len(scs) + 1, w, inv=True, maxch=3))
    chk.cov['crash_points'] = sum(1 for s in scs for o in s['ops'] if o['op'] == 'snap')
    wr.replay(chk, ex, scs, 'interruption points')
