"""C17: an instant is the same in every representation (ISO text, MDF 3 date and time, CANopen, headers, histories)."""
import datetime
import vlib
DAY = datetime.date(1970, 1, 1)


def dayno(y, m, d):
    return (datetime.date(y, m, d) - DAY).days


def instant(rng, top=2553):
    """boundaries of months, years, days, seconds; leap days; DST changes"""
    u = rng.random()
    y = rng.choice([1970, 1972, 1983, 1984, 1999, 2000, 2001, 2024, 2068, 2069, 2070, 2099, 2100, 2163, 2400, rng.randrange(1970, top), rng.randrange(2000, 2070), rng.randrange(2000, 2070)])
    if y > top:
        y = 2024
    if u < 0.3:
        d = dayno(y, rng.randrange(1, 13), 1) - rng.randrange(2)
    elif u < 0.5:
        d = dayno(y, 3, 1) - rng.randrange(3)
    elif u < 0.7:
        d = dayno(y, rng.choice([3, 10]), 31)
        while (d + 3) % 7 != 6:
            d -= 1
        if rng.random() < 0.3:
            d += rng.choice([-1, 1])
    else:
        d = dayno(y, 1, 1) + rng.randrange(365)
    m = rng.choice([0, 1, 86399999, 86399000, 3599999, 3600000, 7199999, 7200000, 999, 1000, 59999, 60000, 43200000,
                    rng.randrange(86400000), rng.randrange(86400000), rng.randrange(86400) * 1000, rng.randrange(86400) * 1000 + 50])
    n = rng.choice([0, 0, 1, 999999, 500000, 1000, rng.randrange(1000000)])
    return {'d': max(3, d), 'm': m, 'n': n}


def zone(rng, eu=True):
    if eu and rng.random() < 0.35:
        return {'k': 'eu', 'min': 60}
    return {'k': 'fix', 'min': rng.choice([0, 0, 60, -300, 330, -210, 345, 765, -720, 840, 30, -30])}


def shift(t, mins):
    x = t['d'] * 86400000 + t['m'] + mins * 60000
    return x // 86400000, x % 86400000


def iso_text(t, mins, fr, off, basic, sep):
    d, m = shift(t, mins)
    dt = DAY + datetime.timedelta(days=d)
    s = m // 1000
    a = ('%04d%02d%02d' if basic else '%04d-%02d-%02d') % (dt.year, dt.month, dt.day)
    b = ('%02d%02d%02d' if basic else '%02d:%02d:%02d') % (s // 3600, s // 60 % 60, s % 60)
    f = ('%03d%06d' % (m % 1000, t['n']))[:fr]
    sg, w = '-' if mins < 0 else '+', abs(mins)
    o = {'z': 'Z', 'none': '', 'hour': '%s%02d' % (sg, w // 60), 'plain': '%s%02d%02d' % (sg, w // 60, w % 60), 'colon': '%s%02d:%02d' % (sg, w // 60, w % 60)}[off]
    return a + chr(sep) + b + ('.' + f if fr else '') + o


def iso(rng):
    t = instant(rng)
    off = rng.choice(['z', 'none', 'colon', 'colon', 'colon', 'plain', 'hour'])
    mins = 0 if off in ('z', 'none') else rng.choice([60, -60, 330, -210, -30, 30, 345, -720, 840, 0]) if off != 'hour' else 60 * rng.randrange(-12, 15)
    fr = rng.randrange(0, 10)
    basic = rng.random() < 0.25
    sep = rng.choice([84, 84, 32])
    return {'op': 'iso', 'z': zone(rng), 't': t, 'min': mins, 'fr': fr, 'off': off, 'basic': basic, 'sep': sep,
            'text': list(iso_text(t, mins, fr, off, basic, sep).encode())}


def cal(rng):
    return {'op': 'cal', 't': instant(rng), 'z': zone(rng), 'tz': rng.choice([0, 60, -210, 330, 765, -720]), 'dst': rng.choice([0, 0, 60, 30])}


def hdr(rng):
    return {'op': 'hdr', 't': instant(rng, 2200), 'z': zone(rng, False), 'ver': rng.choice([3, 4]), 'k': rng.choice(['utc', 'ns', 'local', 'tz', 'tz']),
            'atz': rng.choice([0, 60, -210, 330, 765, -720]), 'adst': rng.choice([0, 60, 30]), 'how': rng.choice(['start', 'set'])}


def run(chk):
    chk.model('MdfTimeMC', 'SPECIFICATION Spec\nCONSTANT EndYear = %d\nINVARIANT CalendarAgrees\nINVARIANT ShiftBack\nINVARIANT Summer\nINVARIANT Sundays\nINVARIANT Texts\nCHECK_DEADLOCK FALSE\n' % chk.n(2105, 2553), 'every day of the calendar', expect_states=40000)
    exe = vlib.build(['drv_time'])['drv_time']
    n = chk.n(700, 20000)
    scs = []
    for i in range(n):
        scs.append({'id': i + 1, 'ops': [cal(chk.rng) for _ in range(6)] + [iso(chk.rng) for _ in range(6)] + [hdr(chk.rng)]})
    by = {s['id']: s for s in scs}
    chk.scn = by
    tr = vlib.run_driver(exe, scs, chk.work + '/run')
    chk.cov['scenarios'] = len(scs)
    chk.sample(scs[0]['ops'][0])
    chk.validate('MdfTimeTrace', 'SPECIFICATION TSpec\n', [tr[s['id']] for s in scs], 'time conversions',
                 rerun=lambda ids: [vlib.run_driver(exe, [by[i]], chk.work + '/again')[i] for i in ids])
