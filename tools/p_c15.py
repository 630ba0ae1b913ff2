"""C15: attachments are exported byte for byte and described truthfully."""
import hashlib
import vlib


def make(c):
    out = bytearray(c['head'])
    s = c['seed']
    while len(out) < c['n']:
        s = (s * 1664525 + 1013904223) & 0xffffffff
        out.append((s >> 24) & c['mask'])
    return bytes(out[:c['n']])


def att(rng, k, big):
    n = rng.choice([0, 1, 2, 3, 7, 8, 9, 55, 56, 57, 63, 64, 65, 119, 120, 128, 9999, 10000, 10001, 16383, 16384, 16385, rng.randrange(0, 40), rng.randrange(0, 3000)])
    if big and rng.random() < 0.3:
        n = rng.choice([32768, 32769, 65536, 100000, 131073, rng.randrange(20000, 200000)])
    c = {'head': [rng.choice([0, 10, 13, 26, 35, 255, rng.randrange(256)]) for _ in range(min(n, 12))], 'n': n, 'seed': rng.randrange(1, 2 ** 31), 'mask': rng.choice([255, 255, 3, 0])}
    emb = rng.random() < 0.85
    return {'file': 's%d.bin' % k, 'c': c, 'emb': emb, 'comp': emb and rng.random() < 0.6, 'type': rng.choice(['text/plain', 'application/octet-stream', 'x', '']),
            'creator': rng.randrange(3), 'comment': rng.choice(['', 'a', 'some comment', 'B and C']), 'after': rng.choice(['gone', 'changed', 'keep']),
            'md5': hashlib.md5(make(c)).hexdigest().upper()}


def scenario(rng, i):
    k = 0
    ses = []
    for s in range(rng.choice([1, 1, 2, 3])):
        atts = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5]) if s else rng.choice([1, 1, 2, 3, 5])):
            atts.append(att(rng, k, i % 4 == 0))
            k += 1
        ses.append({'writer': rng.choice([1, 1, 2, 3]), 'atts': atts, 'data': s > 0 or rng.random() < 0.6})
    return {'id': i + 1, 'sessions': ses, 'sort': ses[0]['data'] and rng.random() < 0.5, 'zip': rng.random() < 0.5}


def run(chk):
    chk.model('MdfAttachMC', 'SPECIFICATION Spec\nCONSTANT Names = {"a", "b"}\nCONSTANT Contents = {"x", "y"}\nCONSTANT MaxAtt = %d\nINVARIANT EmbeddedKeeps\nPROPERTY OnlyGrows\nCHECK_DEADLOCK FALSE\n' % chk.n(3, 4), 'life of attachments', expect_states=1000)
    exe = vlib.build(['drv_attach'])['drv_attach']
    rng = chk.rng
    scs = []
    for i in range(chk.n(400, 8000)):
        scs.append(scenario(rng, i))
    for j in range(chk.n(1, 4)):
        # more attachments than open files allowed
        atts = [att(rng, k, False) for k in range(60)]
        scs.append({'id': len(scs) + 1, 'sessions': [{'writer': 1, 'atts': atts, 'data': True}]})
    by = {s['id']: s for s in scs}
    chk.scn = by
    tr = vlib.run_driver(exe, scs, chk.work + '/run')
    chk.cov['scenarios'] = len(scs)
    chk.sample(scs[0])
    chk.validate('MdfAttachTrace', 'SPECIFICATION TSpec\n', [tr[s['id']] for s in scs], 'attachments',
                 rerun=lambda ids: [vlib.run_driver(exe, [by[i]], chk.work + '/again')[i] for i in ids])
