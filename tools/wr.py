"""Writer checks: the MdfWriter specification and its binding to the code."""
import vlib

INVS = 'INVARIANT WindowExact\nINVARIANT NothingEarly\nINVARIANT Relative\nINVARIANT QueueOnlyLive\nPROPERTY AppendOnly\nPROPERTY Sealed\nPROPERTY HeaderOnce\nPROPERTY GroupsOnlyGrow\n'
TCFG = 'SPECIFICATION TSpec\n'


def model(chk, deep=False, invs=INVS, batches=1):
    t, s = (3, 4) if chk.thorough() or deep else (2, 3)
    if batches > 1:
        t, s = (2, 3) if chk.thorough() or deep else (1, 2)
    cfg = 'SPECIFICATION MCSpec\nCONSTANTS\n MaxT = %d\n MaxSamples = %d\n MaxBatches = %d\n Writers = {"mdf4", "mdf3", "conv"}\n Pres = {0, 1, 2}\n%sCHECK_DEADLOCK FALSE\n' % (t, s, batches, invs)
    return chk.model('MdfWriterMC', cfg, 'writer design, MaxT=%d MaxSamples=%d MaxBatches=%d' % (t, s, batches), expect_states=1000)


def build():
    return vlib.build(['drv_writer'])['drv_writer']


def replay(chk, exe, scs, what, module='MdfWriterTrace'):
    by = {s['id']: s for s in scs}
    chk.scn = by
    tr = vlib.run_driver(exe, scs, chk.work + '/run')
    chk.sample({'scenario': scs[0]})
    chk.cov['scenarios'] = chk.cov.get('scenarios', 0) + len(scs)
    chk.validate(module, TCFG, [tr[s['id']] for s in scs], what,
                 rerun=lambda ids: [vlib.run_driver(exe, [by[i]], chk.work + '/again')[i] for i in ids])
