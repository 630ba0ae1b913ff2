"""C07: every file written is a well-formed MDF container, judged from its bytes."""
import gen, mdfparse, p_c01, p_c13, p_c14, p_c15, vlib


def run(chk):
    rng = chk.rng
    exes = vlib.build(['drv_writer', 'drv_meta', 'drv_attach', 'drv_bus'])
    jobs = {}
    n = chk.n(220, 3000)
    ws = []
    for w, per, kw in (('mdf4', n, dict(var=True, inv=True)), ('mdf3', n, {}), ('conv', n // 2, dict(var=True, inv=True)), ('bus', n // 2, dict(var=True))):
        for h in gen.histories(chk, per, GW=w, GOPS=chk.n(25, 60), depth=300):
            ws.append((w, gen.decorate(rng, h, 0, w, nomst=True, **kw)))
    for w in ('mdf4', 'conv'):
        for h in gen.histories(chk, chk.n(8, 60), seeds=2, GW=w, GOPS=30, GSHAPE='any', depth=300):
            h[0]['z'] = True
            ws.append((w, gen.decorate(rng, h, 0, w, kinds=['u8', 'blk'], maxch=2, blk=(99, 60000, 700000, 1300000))))
    # compressed blocks at every fill level
    for h, w in p_c01.fill(chk):
        if rng.random() < 0.6 or chk.thorough():
            ws.append((w, gen.decorate(rng, h, 0, w, kinds=['blk'], maxch=1, blk=h[0].pop('blk'))))
    # signal data beyond one block
    for w in ('mdf4', 'conv'):
        for h in gen.histories(chk, chk.n(5, 40), seeds=1, GW=w, GOPS=30, GSHAPE='any', depth=300):
            h[0]['z'] = rng.random() < 0.8
            ws.append((w, gen.decorate(rng, h, 0, w, kinds=['vblk'], maxch=1, blk=(700000, 2097148, 4194300, 4194304, 5000000))))
    for w, s in ws:
        # the file after every session that closes it
        cuts = [i for i, o in enumerate(s['ops']) if o['op'] == 'close']
        if len(cuts) > 1 and rng.random() < 0.4:
            s['ops'] = s['ops'][:rng.choice(cuts) + 1]
        jobs.setdefault('drv_writer', []).append(({'mdf3': 3}.get(w, 4), s))
    for i in range(chk.n(250, 4000)):
        w = rng.choice(['mdf4', 'mdf4', 'bus', 'mdf3', 'conv'])
        jobs.setdefault('drv_meta', []).append((3 if w == 'mdf3' else 4, p_c14.scenario(rng, 0, w)))
    for i in range(chk.n(120, 2000)):
        jobs.setdefault('drv_attach', []).append((4, p_c15.scenario(rng, i)))
    for i in range(chk.n(60, 1500)):
        jobs.setdefault('drv_bus', []).append((4, p_c13.scenario(rng, i)))
    sid = 0
    by, traces = {}, []
    for d, lst in jobs.items():
        scs = []
        for major, s in lst:
            sid += 1
            s = dict(s, id=sid, keep=True)
            by[sid] = (d, major, s)
            scs.append(s)

    def files(d, scs, work):
        got = {}

        def take(i, p):
            got[i] = mdfparse.dump(open(p, 'rb').read(), {'major': by[i][1]})
        tr = vlib.run_driver(exes[d], scs, work, onfile=take)
        out = []
        for s in scs:
            i = s['id']
            ev = tr[i]['ev']
            if tr[i].get('skipped'):
                continue
            if ev and ev[-1].get('op') == 'CRASH':
                out.append({'id': i, 'ev': [ev[-1]]})
                continue
            fin = [k for k, e in enumerate(ev) if e['op'] == 'fin' and e.get('res', e.get('ok'))]
            opn = [k for k, e in enumerate(ev) if e['op'] == 'open']
            if d == 'drv_writer' and (not fin or (opn and opn[-1] > fin[-1])):
                continue    # not finalized: nothing is promised
            out.append({'id': i, 'ev': [got[i]] if i in got else [{'op': 'nofile'}]})
        return out
    for d in jobs:
        traces += files(d, [by[i][2] for i in by if by[i][0] == d], chk.work + '/run_' + d)
    chk.scn = {i: {'driver': by[i][0], 'scenario': by[i][2]} for i in by}
    chk.cov['scenarios'] = len(by)
    chk.cov['files'] = len(traces)
    chk.cov['blocks'] = sum(len(t['ev'][0].get('blocks', [])) for t in traces)
    chk.sample({k: v for k, v in traces[0]['ev'][0].items() if k in ('id', 'size', 'groups')})
    chk.validate('MdfFileTrace', 'SPECIFICATION TSpec\n', traces, 'file', heap='4g',
                 rerun=lambda ids: [x for i in ids for x in files(by[i][0], [by[i][2]], chk.work + '/again')])
