"""C14: descriptive information survives a write and a read."""
import vlib

TEXT = ['a', 'Z9', 'x y', 'plain text', '<', '>', '&', '"', "'", '&amp;', '<TX>', '</TX>', '<![CDATA[x]]>', ']]>', 'a<b>c&d"e\'f', 'räksmörgås', 'Ω µ €', '日本語', 'a\nb', 'a\tb', 'a  b', '0', 'true', '-1',
        '%s', 'a;b', 'é', 'tab\tand\nline', '<?xml version="1.0"?>', '<HDcomment/>', 'A' * 300, 'ÅÄÖ' * 50, '\\', '/x/y', '#', '[V]', '{}', '&#65;', '&lt;']


def u(s):
    return s.encode('utf8').decode('latin1')


class Gen:
    def __init__(self, rng, m3):
        self.rng, self.m3 = rng, m3
        self.ops = []
        self.objs = []          # (kind, par)
        self.seq = 0
        self.arrays, self.shapes = [], {}

    def text(self, n=None, plain=False):
        r = self.rng
        if plain:
            s = ''.join(r.choice('abcXYZ 019_.-') for _ in range(r.randrange(1, (n or 20) + 1))).strip() or 'q'
            return s[:n] if n else s
        if r.random() < 0.6:
            s = r.choice(TEXT)
        else:
            s = ''.join(r.choice('ab <>&"\'\nåΩ1;/') for _ in range(r.randrange(1, 12))).strip() or 'w'
        return u(s)

    def new(self, kind, par):
        self.objs.append((kind, par))
        i = len(self.objs)
        self.ops.append({'op': 'new', 'kind': kind, 'par': par, 'id': i})
        return i

    def set(self, i, k, v):
        self.ops.append({'op': 'set', 'id': i, 'k': k, 'v': v})

    def ref(self, i, k, v):
        self.ops.append({'op': 'ref', 'id': i, 'k': k, 'v': v})

    def some(self, i, items):
        """items: list of (key, maker); a random subset in random order."""
        r = self.rng
        items = [x for x in items if r.random() < 0.5]
        r.shuffle(items)
        for k, mk in items:
            self.set(i, k, mk())

    def props(self, i, depth=0):
        r = self.rng
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            self.set(i, 'props', self.tag(0))

    def tag(self, depth):
        r = self.rng
        self.seq += 1
        name = r.choice(['p%d', 'A.b%d', 'n <%d>', 'x&%d']) % self.seq
        t = {'name': u(name), 'desc': self.text() if r.random() < 0.4 else '', 'unit': '', 'uref': '', 'type': '', 'lang': '', 'ro': False, 'ci': r.choice([-1, -1, 0, 3]), 'val': '', 'kids': []}
        if depth < 2 and r.random() < 0.25:
            t['kids'] = [self.tag(depth + 1) for _ in range(r.randrange(1, 4))]
        else:
            t['type'] = r.choice(['', 'string', 'integer', 'float', 'boolean', 'date', 'decimal'])
            t['val'] = self.text()
            t['unit'] = self.text() if r.random() < 0.3 else ''
            t['uref'] = 'ref' if r.random() < 0.1 else ''
            t['lang'] = r.choice(['', '', 'en', 'sv'])
            t['ro'] = r.random() < 0.2
        return t

    def dbl(self):
        r = self.rng
        x = r.choice([0.0, 1.0, -1.0, 0.5, 1e-9, 1e300, 123456789.125, 0.1, -2.5e-7, r.uniform(-1000, 1000), float(r.randrange(-10**9, 10**9))])
        return '%.17g' % x

    def pair(self):
        a, b = sorted([float(self.dbl()), float(self.dbl())])
        return '%.17g..%.17g' % (a, b if b > a else a + 1 + abs(a))

    def header(self):
        t = (lambda: self.text(31, plain=True)) if self.m3 else self.text
        it = [('author', t), ('dept', t), ('proj', t), ('subj', t), ('desc', (lambda: self.text(200, plain=True)) if self.m3 else self.text), ('prog', lambda: self.text(8, plain=True))]
        if not self.m3:
            it += [('measid', self.text), ('recid', self.text), ('recidx', lambda: str(self.rng.randrange(0, 10**6))), ('angle', self.dbl), ('dist', self.dbl)]
        self.some(1, it)
        if not self.m3:
            self.props(1)

    def fh(self):
        i = self.new('fh', 1)
        self.some(i, [('time', lambda: str(self.rng.choice([0, 1, 1600000000123456789, 2**62]))), ('desc', self.text), ('tool', self.text), ('vendor', self.text), ('version', self.text), ('user', self.text)])
        self.props(i)

    def at(self):
        i = self.new('at', 1)
        self.set(i, 'name', self.attfile)
        self.some(i, [('type', lambda: 'text/plain'), ('creator', lambda: str(self.rng.randrange(4)))])
        return i

    def ev(self):
        r = self.rng
        i = self.new('ev', 1)
        self.some(i, [('name', self.text), ('group', self.text), ('type', lambda: r.randrange(7)), ('sync', lambda: r.randrange(1, 5)), ('range', lambda: r.randrange(3)), ('cause', lambda: r.randrange(5)),
                      ('creator', lambda: str(r.randrange(5))), ('sval', lambda: str(r.choice([0, -1, 2**40, r.randrange(10**9)]))), ('sfac', self.dbl), ('desc', self.text), ('pre', lambda: r.choice(['0.5', '1', '0'])), ('post', lambda: r.choice(['2', '0.25']))])
        self.props(i)
        return i

    def ch(self, par):
        r = self.rng
        i = self.new('ch', par)
        self.some(i, [('name', self.text), ('type', lambda: r.randrange(9)), ('desc', self.text)])
        self.props(i)
        return i

    def si(self, par):
        r = self.rng
        i = self.new('si', par)
        self.some(i, [('name', self.text), ('path', self.text), ('desc', self.text), ('type', lambda: r.randrange(6)), ('bus', lambda: r.randrange(9)), ('flags', lambda: r.randrange(2))])
        self.props(i)

    def cc(self, par, depth=0):
        r = self.rng
        i = self.new('cc', par)
        ty = r.choice([0, 1, 2, 4, 5, 6, 7, 8, 3, 9, 10])
        if self.m3:
            ty = r.choice([0, 1, 2, 4])
        self.set(i, 'type', ty)
        n = {0: 0, 1: 2, 2: 6, 4: 4, 5: 4, 6: 7, 7: 2, 8: 4, 3: 0, 11: 2, 9: 3, 10: 0}[ty]
        if n:
            self.set(i, 'par', [str(r.randrange(1, 255)) for _ in range(n)] if ty == 11 else [str(j + 1) for j in range(n)] if ty in (4, 5, 6, 7, 8, 9) else [self.dbl() for _ in range(n)])
        m = {7: 3, 8: 3, 9: 2, 10: 3}.get(ty, 0)
        if m:
            self.set(i, 'txt', [self.text() for _ in range(m)])
        if ty == 3:
            self.set(i, 'formula', r.choice(['X + 1', 'X*2', u('X <b & "c"')]))
        if self.m3:
            self.some(i, [('unit', lambda: self.text(19, plain=True))])
        else:
            self.some(i, [('name', self.text), ('desc', self.text), ('unit', self.text), ('dec', lambda: str(r.randrange(0, 16))), ('range', self.pair)])
            self.props(i)
            if depth == 0 and r.random() < 0.2:
                self.cc(i, 1)

    def cn(self, par, master=False, depth=0):
        r = self.rng
        i = self.new('cn', par)
        dt = r.choice([(0, 1), (0, 2), (0, 4), (0, 8), (1, 2), (2, 4), (3, 8), (4, 4), (4, 8), (5, 8), (6, 10), (7, 20), (10, 5)])
        if master:
            dt = (4, 8)
        if self.m3 and dt[0] in (7,):
            dt = (6, 8)
        self.set(i, 'dtype', dt[0])
        self.set(i, 'bytes', str(dt[1]))
        self.set(i, 'type', 2 if master else 0)
        if master and not self.m3:
            self.set(i, 'sync', 1)
        t = (lambda: self.text(100, plain=True)) if self.m3 else self.text
        it = [('name', (lambda: self.text(60, plain=True)) if self.m3 else self.text), ('desc', t)]
        if self.m3:
            it += [('rate', self.dbl), ('dname', t)]
        else:
            if r.random() < 0.3:
                self.set(i, 'flags', r.choice([0, 0x40, 0x80, 0x100, 0x40 + 0x80, 0x800] + ([] if master else [2])))
            it += [('range', self.pair), ('unit', self.text), ('dec', lambda: str(r.randrange(0, 20))), ('limit', self.pair), ('elimit', self.pair)]
        self.some(i, it)
        if not self.m3:
            self.props(i)
            if r.random() < 0.25:
                self.si(i)
        if r.random() < 0.35 and not master:
            self.cc(i)
        if not self.m3 and not master and dt[0] < 6 and r.random() < 0.2:
            self.arrays.append((i, self.ca(i)))
        return i

    def ca(self, par):
        r = self.rng
        i = self.new('ca', par)
        shape = [r.randrange(1, 5) for _ in range(r.choice([1, 1, 2, 3]))]
        fl = sum(b for b in (1, 2, 4, 8, 0x10) if r.random() < 0.4)
        if fl & 0x10 and r.random() < 0.5:
            fl |= 0x20
        self.set(i, 'type', r.randrange(3))
        self.set(i, 'shape', shape)
        self.set(i, 'flags', fl)
        if fl & 0x20:
            self.set(i, 'axis', [self.dbl() for _ in range(sum(shape))])
        self.shapes[i] = (len(shape), fl)
        return i

    def carefs(self, i, cns, ccs):
        """references of an array, to channels before and after it"""
        r = self.rng
        n, fl = self.shapes[i]
        pick = lambda k: [x for _ in range(k) for x in r.choice(cns)]
        for b, k, m in ((1, 'dyn', n), (2, 'inq', n), (4, 'outq', 1), (8, 'cmpq', 1)):
            if fl & b:
                self.ref(i, k, pick(m))
        if fl & 0x10:
            self.ref(i, 'axc', [r.choice([0] + ccs) for _ in range(n)])
            if not fl & 0x20:
                self.ref(i, 'axq', pick(n))


def scenario(rng, sid, w):
    m3 = w == 'mdf3'
    g = Gen(rng, m3)
    g.attfile = 'att.bin'
    nses = rng.choice([1, 1, 2])
    for s in range(nses):
        g.ops.append({'op': 'open', 'w': w})
        if s == 0:
            g.objs = [('hd', 0)]
            if rng.random() < 0.8:
                g.header()
        jobs = []
        cgs, cns, chs, evs, ats, dgs = [], [], [], [], [], []
        if not m3:
            for _ in range(rng.choice([0, 1, 2])):
                g.fh()
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                ats.append(g.at())
        for _ in range(rng.choice([1, 1, 2, 3])):
            d = g.new('dg', 1)
            dgs.append(d)
            if not m3:
                g.some(d, [('desc', g.text)])
                g.props(d)
            for _ in range(rng.choice([1, 1, 2])):
                c = g.new('cg', d)
                cgs.append((d, c))
                if m3:
                    g.some(c, [('desc', lambda: g.text(100, plain=True))])
                else:
                    g.some(c, [('desc', g.text), ('name', g.text), ('flags', lambda: rng.choice([0, 2, 6, 16])), ('sep', lambda: rng.choice([0x2e, 0x2f, 0x20ac]))])
                    g.props(c)
                    if rng.random() < 0.3:
                        g.si(c)
                for k in range(rng.choice([1, 2, 3, 4])):
                    n = g.cn(c, master=k == 0)
                    cns.append((d, c, n))
        if not m3:
            for _ in range(rng.choice([0, 1, 2, 3])):
                evs.append(g.ev())
            for _ in range(rng.choice([0, 0, 1, 2])):
                par = rng.choice([1] + chs)
                chs.append(g.ch(par))
            for e in evs:
                if rng.random() < 0.4 and e != evs[0]:
                    g.ref(e, 'parent', [rng.choice([x for x in evs if x < e])])
                if rng.random() < 0.4 and len(evs) > 1:
                    g.ref(e, 'rangeev', [rng.choice([x for x in evs if x != e])])
                for _ in range(rng.choice([0, 0, 1, 2, 5])):
                    g.ref(e, 'scope', [rng.choice([x[1] for x in cgs] + [x[2] for x in cns])])
                for _ in range(rng.choice([0, 0, 1, 2, 3]) if ats else 0):
                    g.ref(e, 'atts', [rng.choice(ats)])
            for h in chs:
                for _ in range(rng.choice([0, 1, 2])):
                    d, c, n = rng.choice(cns)
                    g.ref(h, 'elem', rng.choice([[d, c, n], [d, c, 0]]))
            for d, c, n in cns:
                if ats and rng.random() < 0.15:
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        g.ref(n, 'atts', [rng.choice(ats)])
                if rng.random() < 0.1:
                    x = rng.choice(cns)
                    g.ref(n, 'defx', list(x))
            cn_ids = {x[2] for x in cns}
            ccs = [j + 1 for j, (k, p) in enumerate(g.objs) if k == 'cc' and p in cn_ids]
            for _, a in g.arrays:
                g.carefs(a, cns, ccs)
            g.arrays = []
        g.ops.append({'op': 'wlist'})
        g.ops.append({'op': 'start'})
        for _ in range(rng.choice([0, 0, 2, 5])):
            g.ops.append({'op': 'save', 'id': rng.choice(cgs)[1], 't': rng.randrange(0, 4000)})
        g.ops.append({'op': 'stop'})
        if not m3 and rng.random() < 0.4:
            g.ev()
        g.ops += [{'op': 'fin'}, {'op': 'close'}, {'op': 'read'}]
        # a file that is opened again numbers its objects depth first
        order = ['fh', 'at', 'ev', 'ch', 'dg', 'cg', 'si', 'cc', 'ca', 'cn']

        def dfs(o):
            r = [o]
            for k in order:
                for j, (kk, p) in enumerate(g.objs):
                    if kk == k and p == o:
                        r += dfs(j + 1)
            return r
        ds = dfs(1)
        pos = {o: i + 1 for i, o in enumerate(ds)}
        pos[0] = 0
        g.objs = [(g.objs[o - 1][0], pos[g.objs[o - 1][1]]) for o in ds]
    return {'id': sid, 'ops': g.ops}


def run(chk):
    exe = vlib.build(['drv_meta'])['drv_meta']
    rng = chk.rng
    scs = []
    for i in range(chk.n(500, 8000)):
        scs.append(scenario(rng, i + 1, rng.choice(['mdf4', 'mdf4', 'mdf4', 'bus', 'mdf3', 'conv'])))
    by = {s['id']: s for s in scs}
    chk.scn = by
    tr = vlib.run_driver(exe, scs, chk.work + '/run')
    chk.cov['scenarios'] = len(scs)
    chk.sample(scs[0])
    chk.validate('MdfMetaTrace', 'SPECIFICATION TSpec\n', [tr[s['id']] for s in scs], 'descriptive information',
                 rerun=lambda ids: [vlib.run_driver(exe, [by[i]], chk.work + '/again')[i] for i in ids])
