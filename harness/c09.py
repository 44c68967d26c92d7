"""C09: calendar arithmetic (Calendar, MC_Calendar, T_Calendar)."""
import calendar
import itertools
import qc
from rt import NONE, enc, encl, encr, call, dec, Raised


def month(v):
    y, m = v['y'], v['m']
    days = range(1, (29 if m == 2 and (y % 4 == 0 and y % 100 != 0 or y % 400 == 0) else
                     [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]) + 1)
    return {'mlen': encl(qc.get_month_lengths(y)),
            'doy': [encr(call(qc.dayinyear, y, m, d)) for d in days],
            'cday': [encr(call(qc.day_in_year, m, d)) for d in days],
            'pen': [encr(call(qc.which_pentad, m, d)) for d in days],
            'yes': [encl(qc.yesterday(y, m, d)) for d in days],
            'yesbad': encl(qc.yesterday(y, m, len(days) + 1)),
            'jul': [encr(call(qc.jul_day, y, m, d)) for d in days],
            'season': str(qc.season(m)).replace('None', 'none'),
            'prev': encl(qc.last_month_was(y, m)), 'next': encl(qc.next_month_is(y, m))}


def pentad(v):
    m, d = qc.pentad_to_month_day(v['p'])
    return {'m': enc(m), 'd': enc(d), 'back': enc(qc.which_pentad(m, d))}


def months(v):
    out = call(lambda: list(itertools.islice(qc.year_month_gen(v['y1'], v['m1'], v['y2'], v['m2']), 5000)))
    if isinstance(out, Raised):      # refused: no month
        out = []
    return {'seq': [encl(x) for x in out]}


def diff(v):
    a, b = list(v['a']), list(v['b'])
    a[3], b[3] = dec(a[3], 60), dec(b[3], 60)
    t = call(qc.time_difference, *(a + b))
    off = t * 60 - round(t * 60) if isinstance(t, float) else 0
    return {'t': encr(t, 60), 'off': enc(off, 1000), 'r': encr(call(qc.time_difference, *(b + a)), 60)}


def match(v):
    return {'x': enc(qc.month_match(v['y1'], v['m1'], v['y2'], v['m2']))}


def season(v):
    return {'s': str(qc.season(v['m'])).replace('None', 'none')}


KINDS = {'month': month, 'pentad': pentad, 'months': months, 'diff': diff, 'match': match, 'season': season}


def generate(g):
    rng = g.rng
    for y in range(1850, 2025):
        for m in range(1, 13):
            g.fixed('month', {'y': y, 'm': m})
    for y in (1600, 1700, 1800, 2100, 2400):
        for m in range(1, 13):
            g.fixed('month', {'y': y, 'm': m})
    for p in range(1, 74):
        g.fixed('pentad', {'p': p})
    for m in range(-3, 16):
        g.fixed('season', {'m': m})
    edge = [(1851, 1, 1), (1899, 12, 31), (1900, 1, 1), (1900, 2, 28), (1900, 3, 1), (1999, 12, 31), (2000, 1, 1), (2000, 2, 28),
            (2000, 2, 29), (2000, 3, 1), (2001, 1, 31), (2001, 2, 1), (2003, 12, 31), (2004, 2, 29), (2004, 12, 31), (2005, 1, 1)]
    for a in edge:
        for b in edge:
            for h1, h2 in ((0, 0), (1425, 0), (0, 1425), (615, 630)):
                g.fixed('diff', {'a': list(a) + [h1], 'b': list(b) + [h2]})
    def date():
        y = rng.randint(1850, 2024)
        m = rng.randint(1, 12)
        d = rng.randint(1, calendar.monthrange(y, m)[1])
        return [y, m, d, NONE if rng.random() < 0.04 else rng.choice([0, 1439, rng.randint(0, 1439)])]
    for _ in range(g.scale(4000)):
        a, b = date(), date()
        if rng.random() < 0.5:
            b[0] = a[0]
            if rng.random() < 0.5:
                b[1] = a[1]
            b[2] = min(b[2], 28)
            if rng.random() < 0.3:
                b[2] = a[2] = min(a[2], 28)
        g.case('diff', {'a': a, 'b': b})
    for _ in range(g.scale(600)):
        y, m = rng.randint(1850, 2020), rng.randint(1, 12)
        k = rng.choice([0, 1, 2, -1, -2, -11, -12, -13, 11, 12, 13, rng.randint(0, 60)])
        t = 12 * y + m - 1 + k
        g.case('months', {'y1': y, 'm1': m, 'y2': t // 12, 'm2': t % 12 + 1})
        g.case('match', {'y1': y, 'm1': m, 'y2': y + rng.choice([0, 0, 1, -1]), 'm2': rng.choice([m, m, 13 - m, 1, 12])})
