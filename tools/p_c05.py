"""C05: no schedule of writers and flusher loses, repeats or reorders."""
import copy
import vlib

TECH = 'TLA+ specification of the threads at lock granularity (MdfSched) checked exhaustively with TLC incl. termination; executions of the real writer under a controlled thread scheduler (all schedules with one deviation, sampled deeper ones, random and priority schedules) validated against it, a part of them with a vector-clock check of every memory access the library makes'


def plan(rng, n):
    t, r = rng.choice([0, 3, 8]), []
    for _ in range(n):
        r.append(t)
        t += rng.choice([0, 1, 1, 2, 5])
    return r


def base(rng, small):
    w = rng.choice(['mdf4', 'mdf4', 'bus', 'mdf3', 'conv'])
    ses = []
    for k in range(1 if small else rng.choice([1, 1, 2])):
        np = 2 if small else rng.choice([1, 2, 3])
        ses.append({'np': np, 'dgs': 1 if k or w == 'mdf3' and rng.random() < 0.5 else rng.choice([1, min(2, np)]), 'start': rng.choice([5, 10]), 'late': rng.random() < 0.15, 'wait': rng.random() < 0.6,
                    'plan': [plan(rng, rng.choice([1, 2]) if small else rng.choice([1, 2, 4, 7])) for _ in range(np)]})
    if w != 'mdf3' and rng.random() < 0.35:      # bus messages, one kind per thread
        w = rng.choice(['mdf4', 'bus', 'bus', 'conv'])
        return {'w': w, 'z': rng.random() < 0.3, 'per': rng.random() < 0.85, 'bus': rng.choice(['CAN', 'CAN', 'LIN', 'ETH', 'MOST', 'FLX']), 'store': rng.choice(['mlsd', 'vlsd', 'fixed']), 'ses': ses}
    return {'w': w, 'z': rng.random() < 0.3, 'per': rng.random() < 0.85, 'str': rng.random() < 0.4, 'ses': ses}


def build_race():
    """The same driver, the library compiled with thread instrumentation and linked with harness/race.cpp."""
    return vlib.build(['drv_sched'], extra_src=[vlib.HARN + '/race.cpp'], extra_flags=['-fsanitize=thread', '-O1', '-g1'], link=[])['drv_sched']


def run(chk):
    for np, ns, dg, per in ([(2, 2, 2, 'TRUE'), (2, 2, 1, 'TRUE'), (2, 2, 1, 'FALSE')] if not chk.thorough() else [(2, 3, 1, 'TRUE'), (3, 2, 2, 'TRUE'), (2, 3, 2, 'TRUE'), (2, 2, 1, 'FALSE')]):
        chk.model('MdfSched', 'SPECIFICATION Spec\nCONSTANTS\n Prod = {%s}\n MaxS = %d\n DG = %d\n Periodic = %s\nINVARIANT OnceInOrder\nINVARIANT Complete\nINVARIANT NothingStray\n' % (','.join(str(i + 1) for i in range(np)), ns, dg, per),
                  'threads, %d producers of %d samples, %d data groups' % (np, ns, dg), expect_states=1000)
    chk.model('MdfSched', 'SPECIFICATION FSpec\nCONSTANTS\n Prod = {1, 2}\n MaxS = 1\n DG = 1\n Periodic = TRUE\nPROPERTY Terminates\n', 'every call completes', expect_states=500)
    exe = vlib.build(['drv_sched'])['drv_sched']
    rng = chk.rng
    env = {'MALLOC_PERTURB_': '165'}
    # probe: the default schedule of small measurements, which also tells where decisions are taken
    probes = []
    for i in range(chk.n(12, 40)):
        s = base(rng, True)
        s.update(id=i + 1, mode='dev', dev=[], width=True)
        probes.append(s)
    tr = vlib.run_driver(exe, probes, chk.work + '/probe', env=env)
    scs = []

    def add(s, **kw):
        s = copy.deepcopy(s)
        s.pop('width', None)
        s.update(kw)
        s['id'] = len(scs) + 1
        scs.append(s)
    ndec = 0
    for s in probes:
        ev = tr[s['id']]['ev']
        width = ev[-1]['w'] if ev and ev[-1]['op'] == 'width' else []
        add(s)
        pts = [(k, a) for k, n in enumerate(width) for a in range(1, n)]
        ndec += len(pts)
        for p in pts:                       # every schedule that differs from the default in one decision
            add(s, dev=[list(p)])
        for _ in range(chk.n(200, 3000) if pts else 0):
            add(s, dev=sorted([list(rng.choice(pts)) for _ in range(rng.choice([2, 2, 3, 4]))]))
    for _ in range(chk.n(6000, 60000)):
        s = base(rng, rng.random() < 0.3)
        if rng.random() < 0.5:
            add(s, mode='rand', seed=rng.randrange(1 << 30))
        else:
            add(s, mode='pct', seed=rng.randrange(1 << 30), depth=rng.choice([1, 2, 3, 5, 10]), len=rng.choice([30, 100, 300, 600]))
    by = {s['id']: s for s in scs}
    chk.scn = by
    tr = vlib.run_driver(exe, scs, chk.work + '/run', env=env)
    chk.cov['schedules'] = len(scs)
    chk.cov['single_deviation_schedules'] = ndec
    chk.sample(scs[0])
    chk.validate('MdfSchedTrace', 'SPECIFICATION TSpec\n', [tr[s['id']] for s in scs], 'thread schedules',
                 rerun=lambda ids: [vlib.run_driver(exe, [by[i]], chk.work + '/again', env=env)[i] for i in ids])
    # the same kind of executions with every memory access checked against the order the locks impose
    rexe = build_race()
    rs = []
    for i in range(chk.n(1500, 30000)):
        s = base(rng, rng.random() < 0.3)
        s.update(id=100000 + i, mode=rng.choice(['rand', 'pct']), seed=rng.randrange(1 << 30), depth=rng.choice([1, 2, 3, 5]), len=rng.choice([30, 100, 300]))
        rs.append(s)
    for s in rs:
        by[s['id']] = s
    rt = vlib.run_driver(rexe, rs, chk.work + '/race', env=env)
    chk.cov['race_checked_schedules'] = len(rs)
    chk.validate('MdfSchedTrace', 'SPECIFICATION TSpec\n', [rt[s['id']] for s in rs], 'unordered accesses',
                 rerun=lambda ids: [vlib.run_driver(rexe, [by[i]], chk.work + '/again', env=env)[i] for i in ids])
