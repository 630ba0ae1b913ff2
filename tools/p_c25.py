"""C25: structured comments keep every entry."""
import vlib
from p_c14 import TEXT, u

KINDS = ['hd', 'fh', 'at', 'ev', 'ch', 'dg', 'cg', 'cn', 'cc', 'si', 'cnu', 'ccu']
HD = ['author', 'department', 'project', 'subject', 'Measurement.UUID', 'Recorder.UUID', 'Recorder.FileIndex']


class Gen:
    def __init__(self, rng):
        self.r, self.seq = rng, 0

    def p(self, x):
        return self.r.random() < x

    def text(self, empty=0.0):
        r = self.r
        if self.p(empty):
            return ''
        if self.p(0.5):
            return u(r.choice(TEXT))
        return u(''.join(r.choice('ab <>&"\'\nåΩ1;/=') for _ in range(r.randrange(1, 10))).strip() or 'w')

    def word(self):
        self.seq += 1
        return u(self.r.choice(['n%d', 'A.b%d', 'x <%d>', 'ö&%d', 'v"%d']) % self.seq)

    def at(self, d):
        r = self.r
        cust = [{'k': r.choice(['c1', 'c2', 'my.attr', 'x-y', '_z']), 'v': self.text()} for _ in range(r.choice([0, 0, 0, 1, 2, 3]))]
        d.update(ci=r.choice(['0', '0', '0', '1', '7', '4294967296']), lang=r.choice(['', '', '', 'en', 'sv-SE']), cust=cust)
        return d

    def s(self, t=None, empty=0.0):
        return self.at({'t': self.text(empty) if t is None else t})

    def some(self, f, ns=(0, 0, 1, 2, 3)):
        return [f() for _ in range(self.r.choice(ns))]

    def dbl(self):
        r = self.r
        v = r.choice([0.0, 1.0, -1.0, 0.5, 0.1, 1e-9, 3.14159265358979, -273.15, 1e300, 2.5e-300, 123456789.125, float(r.randrange(-1000, 1000)), r.uniform(-10, 10), r.random()])
        return '%.17g' % v

    def value(self, ty):
        r = self.r
        if ty in (2, 8):
            v = r.choice([0, 1, 255, 4294967295, 4294967296, 18446744073709551615, r.getrandbits(64), r.randrange(1000)])
            if ty == 2 and self.p(0.3):
                return str(-r.choice([1, 5, 2147483648, 9223372036854775808]))
            return str(v)
        if ty == 7:
            return str(r.choice([0, 1, 1600000000, 4102444800, r.randrange(0, 4000000000)]) * 1000000000 + r.choice([0, 0, 1000000, 500000000, 999000000]))
        if ty in (1, 3):
            return self.dbl()
        if ty == 4:
            return r.choice(['true', 'false'])
        if ty == 5:
            return r.choice(['2024-02-29', '1999-12-31'])
        if ty == 6:
            return r.choice(['12:00:00', '23:59:59.5'])
        return self.text(0.2)

    def prop(self, name):
        r = self.r
        ty = r.choice([0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8])
        return self.at({'name': name, 'desc': self.text(0.6), 'unit': self.text(0.7), 'uref': self.text(0.7), 'ro': self.p(0.2), 'type': ty, 'val': self.value(ty)})

    def adds(self, depth, hd=False, big=False):
        r = self.r
        pool, tpool = [self.word() for _ in range(4)], [self.word() for _ in range(2)]
        out = []
        for _ in range(r.choice([0, 1, 2, 3, 5] if not big else [3, 5, 8])):
            k = r.choice('pppptle' if depth < 3 else 'ppe')
            if k == 't':
                x = self.lst(r.choice(tpool) if self.p(0.6) else self.word(), depth + 1)
            else:
                name = r.choice(pool) if self.p(0.4) else self.word()
                if self.p(0.03):
                    name = ''
                x = self.prop(name) if k == 'p' else self.lst(name, depth + 1) if k == 'l' else self.enum(name)
            out.append({'k': k, 'x': x})
        if hd:
            for _ in range(r.choice([0, 1, 3, 8])):
                n = r.choice(HD)
                idx = n == HD[6]
                out.insert(r.randrange(len(out) + 1), {'k': 'hd', 'x': {'name': n, 'val': str(r.choice([0, 1, 77, 4000000000])) if idx else self.text(), 'type': 2 if idx else 0}})
        return out

    def lst(self, name, depth):
        return self.at({'name': name, 'desc': self.text(0.6), 'adds': self.adds(depth)})

    def enum(self, name):
        e = self.prop(name)
        e['vals'] = self.some(lambda: self.s())
        return e

    def names(self):
        d = {k: self.some(self.s) for k in ('names', 'disp', 'vend', 'desc')}
        d['def'] = self.text(0.5 if any(d.values()) else 0.0)  # names without any text are not written, whatever their attributes
        return self.at(d)

    def syn(self, src):
        d = self.s()
        d.update(ver=self.r.choice(['1.0', '2.1', 'x']), src=self.text(0.4) if src else '')
        return d

    def formula(self):
        r = self.r

        def var():
            d = self.s(r.choice(['X', 'X1', 'Y', 'Z&']))
            for k in ('cn', 'cs', 'cp', 'gn', 'gs', 'gp'):
                d[k] = self.text(0.5)
            d.update(idx=[r.choice([0, 1, 9, 10, 123]) for _ in range(r.choice([0, 0, 1, 2, 3]))], raw=self.p(0.4))
            return d
        return self.at({'syn': self.syn(False), 'custom': self.some(lambda: self.syn(True)), 'vars': self.some(var)})

    def num(self, hex):
        r = self.r

        def o(f):
            return [f()] if self.p(0.3) else []
        return self.at({'v': str(r.choice([0, 1, 4096, 4294967296, 18446744073709551615])) if hex else self.dbl(), 'bc': r.choice([8, 8, 1, 4]),
                        'mask': o(lambda: str(r.choice([0, 1, 255, 4294967295, 1 << 63]))), 'be': self.p(0.3), 'min': o(self.dbl), 'max': o(self.dbl), 'avg': o(self.dbl),
                        'unit': self.text(0.6), 'uref': self.text(0.7), 'trig': self.p(0.2)})

    def nd(self, short):
        return {'short': short, 'longs': self.some(self.s), 'descs': self.some(self.s)}

    def spec(self):
        r = self.r
        ids = [u(i) for i in ('m', 'km/h', 'a&b', 'ö')]

        def rev():
            return {'team': self.text(0.3), 'label': self.text(0.3), 'state': self.text(0.3), 'date': r.choice(['', '2024-01-02T03:04:05Z']),
                    'comp': self.some(lambda: {'ref': self.text(0.3), 'label': self.text(0.3), 'state': self.text(0.3)}),
                    'mods': self.some(lambda: {'c': self.text(), 'r': self.text(0.4)})}
        return {'revs': self.some(rev), 'dims': self.some(lambda: {'id': r.choice(ids), 'nd': self.nd(self.text(0.3)), 'ex': [r.choice(['0', '0', '1', '-2', '0.5']) for _ in range(7)]}),
                'groups': self.some(lambda: {'nd': self.nd(r.choice(ids)), 'cat': r.randrange(2), 'refs': self.some(lambda: r.choice(ids))}),
                'units': self.some(lambda: {'id': r.choice(ids), 'nd': self.nd(self.text(0.5)), 'disp': self.text(0.4), 'f': r.choice(['1', '1', self.dbl()]), 'o': r.choice(['0', '0', self.dbl()]),
                                            'dim': r.choice([''] + ids)})}

    def limit(self, x=0.6):
        return [{'v': self.dbl(), 'type': self.r.randrange(3)}] if self.p(x) else []

    def sc(self, val=True):
        lo = self.limit()
        up = self.limit(0.6 if lo else 1.0)
        return {'lo': lo, 'up': up, 'val': self.r.randrange(6) if val else 0}

    def compu(self):
        r = self.r

        def scale():
            return {'sc': self.sc(False), 'descs': self.some(self.s), 'cf': r.choice(['0', self.dbl()]), 'ct': self.text(0.5), 'num': self.some(self.dbl), 'den': self.some(self.dbl), 'math': self.text(0.6)}
        return {'nd': self.nd(self.text(0.2)), 'cat': r.randrange(6), 'uref': self.text(0.5), 'phys': self.some(self.sc), 'intern': self.some(self.sc), 'scales': self.some(scale),
                'df': r.choice(['0', self.dbl()]), 'dt': self.text(0.5)}

    def comment(self, kind):
        r = self.r

        def o(f, x=0.5):
            return [f()] if self.p(x) else []

        def sk(*ks, x=0.6):
            out = []
            for k in ks:
                if self.p(x):
                    s = self.s()
                    s['off'] = r.choice(['0', '1', '4096']) if k == 'linker_name' else '0'
                    out.append({'k': k, 's': s})
            return out

        def nk(*ks):
            return [{'k': k, 'n': self.num('address' in k)} for k in ks if self.p(0.6)]
        x = {'kind': kind, 'tx': self.s(empty=0.1), 'adds': self.adds(0, kind == 'hd', True), 'names': [], 'path': [], 'bus': [], 'formula': [], 'strs': [], 'nums': [], 'consts': [],
             'mono': [], 'spec': [], 'compu': [], 'ext': self.some(lambda: self.at({}), (0, 0, 1, 2)), 'twice': self.p(0.1)}
        if kind in ('cg', 'cn', 'cc', 'si'):
            x['names'] = o(self.names)
        if kind in ('cn', 'cc', 'ev'):
            x['formula'] = o(self.formula)
        if kind == 'hd':
            x['strs'] = sk('time_source')
            x['consts'] = self.some(lambda: {'s': self.s(), 'e': self.text(0.1)})
            x['spec'] = o(self.spec)
        if kind == 'fh':
            x['strs'] = sk('tool_id', 'tool_vendor', 'tool_version', 'user_name', x=1.0)  # these have defaults
        if kind == 'ev':
            x['nums'] = nk('pre', 'post', 'timeout')
        if kind == 'cn':
            x['strs'] = sk('linker_name')
            x['nums'] = nk('linker_address', 'raster', 'address')
            x['mono'] = o(lambda: r.randrange(7))
        if kind == 'cc':
            x['compu'] = o(self.compu)
        if kind == 'si':
            x['path'], x['bus'], x['strs'] = o(self.names), o(self.names), sk('protocol')
        if kind in ('cnu', 'ccu'):
            x['strs'] = sk('unit_ref')
        # names to look up: those in the comment, and one that is not there
        got = []

        def walk(adds):
            for a in adds:
                if a['k'] in ('p', 'e') and '/' not in a['x']['name'] and a['x']['name']:
                    got.append(a['x']['name'])
                elif a['k'] in ('t', 'l'):
                    walk(a['x']['adds'])
        walk(x['adds'])
        x['find'] = r.sample(sorted(set(got)), min(3, len(set(got)))) + ['not there']
        return x


def run(chk):
    chk.model('MdfCommentMC', 'SPECIFICATION Spec\nCONSTANT MaxAdd = %d\nINVARIANT Folded\nINVARIANT UniqueNames\nINVARIANT Present\nINVARIANT Merged\nINVARIANT Idempotent\nPROPERTY NothingLost\nCHECK_DEADLOCK FALSE\n' % chk.n(3, 4),
              'every short history of additions', expect_states=5000)
    exe = vlib.build(['drv_comment'])['drv_comment']
    scs = []
    for i in range(chk.n(500, 10000)):
        g = Gen(chk.rng)
        ks = chk.rng.sample(KINDS, chk.rng.choice([1, 2, 3]))
        scs.append({'id': i + 1, 'cs': [g.comment(k) for k in ks]})
    by = {s['id']: s for s in scs}
    chk.scn = by
    tr = vlib.run_driver(exe, scs, chk.work + '/run')
    chk.sample({'scenario': scs[0]})
    chk.cov['scenarios'] = len(scs)
    chk.cov['comments'] = sum(len(s['cs']) for s in scs)
    chk.validate('MdfCommentTrace', 'SPECIFICATION TSpec\n', [tr[s['id']] for s in scs], 'structured comments',
                 rerun=lambda ids: [vlib.run_driver(exe, [by[i]], chk.work + '/again')[i] for i in ids])
