"""C32: the monthly programs (Monthly, T_Monthly)."""
from monthly import run
from rt import NONE

KINDS = {'run': run}
LIB = [['SST', 'mean'], ['AT', 'mean'], ['SLP2', 'mean'], ['SHU', 'mean'], ['CRH', 'mean'], ['CWB', 'mean'], ['DPD', 'mean'],
       ['DPT', 'mean'], ['AT2', 'mean'], ['SLP', 'mean'], ['DPT', 'stdev'], ['AT2', 'stdev'], ['SLP', 'stdev']]


def step(y, m, k):
    n = y * 12 + m - 1 + k
    return n // 12, n % 12 + 1


def params(rng):
    share = lambda: dict(rng.choice([{'num': 1, 'den': 2}, {'num': 3, 'den': 4}, {'num': 1, 'den': 4}, {'num': 5, 'den': 8}]), min=rng.randint(0, 3))
    return {'SST': {'fp': rng.choice([-14, 40, 110]), 'n': 16, 'max': rng.choice([32, 64]), 'hard': [-40, rng.choice([360, 120])]},
            'AT': {'max': rng.choice([40, 80]), 'hard': [rng.choice([-640, 40]), 520], 'minmax': [8, 32], 'maxsd': rng.choice([12, 44])},
            'DPT': {'minmax': [8, 32], 'maxsd': rng.choice([8, 44]), 'hard': [rng.choice([-640, 20]), 500]},
            'SLP': {'maxsd': rng.choice([1, 160]), 'low': rng.choice([8, 80])}, 'W': {'hard': [0, rng.choice([40, 400])], 'var': 40},
            'rep': share(), 'round': share(), 'sat': {'time': rng.choice([0, 1440, 4320]), 'short': rng.randint(0, 3)},
            'prior': rng.randint(0, 1)}


def fields(rng):
    """Norms on a lattice of eighths, no two alike; deviations 0 or 1000."""
    f = {}
    big = lambda: rng.choice([0, 8000])
    for k, (x, s) in enumerate(LIB):
        if s == 'mean':
            f['%s_%s' % (x, s)] = {'var': x.lower(), 'n': 73, 'base': {'SLP': 8000, 'SLP2': 7200}.get(x, 80) + 2 * k, 'step': 1, 'row': rng.choice([16, -16])}
        else:
            f['%s_%s' % (x, s)] = {'var': 'sd' + x.lower(), 'n': 73, 'base': 8 if x == 'AT2' else big(), 'step': 0, 'row': 0}
    f['SST_hires'] = {'var': 'temperature', 'n': 73, 'base': 90, 'step': 1, 'row': 24}
    f['pentad_sd'] = {'var': 'sst', 'n': 73, 'base': big(), 'step': 0, 'row': 0}
    for k in (1, 2, 3):
        f['sd%d' % k] = {'var': 'sst', 'n': 73, 'base': 8 * k, 'step': 0, 'row': 0}
    for k, s in enumerate(('DJF', 'MAM', 'JJA', 'SON')):
        f['bg_' + s] = {'var': 'bg_var', 'n': 1, 'base': 8 + k, 'step': 0, 'row': 16}
    return f


IDS = ['A        ', 'B/1      ', '62001    ', 'BADID    ', 'SHIP     ', '', 'Z*9      ', 'BAD      ', 'badid    ']


def plat(rng):
    i = rng.choice(IDS)
    return {'ID': i, 'PT': rng.choice([7, 7, 7, 5, 5, 5, 0, 6, 9, 14, 13, NONE]) if rng.random() < 0.9 else rng.randint(0, 15),
            'DCK': rng.choice([701, 780, 780, 927, 708, 732, 720, 874, 193, 992])}


def generate(g):
    rng = g.rng
    uid = [0]

    def rec(y, m, p, place, day):
        uid[0] += 1
        f = dict(p, YR=y, MO=m)
        f['DY'] = day if rng.random() < 0.93 else rng.choice([NONE, 29, 30, 31])
        f['HR'] = rng.choice([0, 720, 1440, 2160, 60 * rng.randint(0, 47)]) if rng.random() < 0.93 else NONE
        f['LAT'], f['LON'] = place[0] + rng.randint(1, 98), place[1] + rng.randint(1, 98)
        n = [80, 84, 88, 96, 104, 120, 136, 0]
        miss = lambda v, q=0.12: NONE if rng.random() < q else v
        f['SST'] = miss(rng.choice(n + [-20, 200, 400]))
        f['AT'] = miss(rng.choice(n + [200, 440]))
        f['DPT'] = miss(f['AT'] - rng.choice([0, 0, 4, 8, 16, 40, -8]) if f['AT'] != NONE else rng.choice(n))
        f['SLP'] = miss(8000 + 4 * rng.randint(-40, 40))
        f['W'] = miss(rng.choice([0, 16, 40, 80, 200]), 0.3)
        f['D'] = miss(rng.choice([10, 180, 360, 361, 362]), 0.3)
        form = 'ok' if rng.random() < 0.88 else rng.choice(['blank', 'junk', 'early', 'late', 'short'])
        return {'form': form if form != 'short' else 'junk', 'uid': 'U%05d' % uid[0], 'f': f}
    for k in range(g.scale(140)):
        prog = ['full', 'full', 'full', 'track', 'hires'][k % 5]
        y, m = rng.choice([(2004, 1), (2004, 2), (2003, 12), (2003, 11), (2005, 12), (1985, 1), (1999, rng.randint(1, 12)), (1900, 2), (1890, 6), (1859, 7)])
        n = rng.choice([0, 0, 1])
        turn = k % 14 == 6          # the first month with a background, and the month before it
        if turn:
            y, m = rng.choice([(1985, 1), (1984, 12)])
            prog = rng.choice(['full', 'track'])
        y2, m2 = step(y, m, n)
        places = [[lat, lon] for lat in rng.sample([1000, 1100, -1100, 4000, 4100], 2) for lon in rng.sample([1000, 1100, 35900, 0, 17900, 18000], 2)]
        if rng.random() < 0.3:
            places.append([rng.choice([6500, -6600]), rng.choice([2000, 20000])])
        ps = [plat(rng) for _ in range(rng.randint(1, 4))]
        arch = []
        for j in range(-1, n + 2):
            a = step(y, m, j)
            if rng.random() < 0.12:
                continue
            rs = []
            edge = [1, 2, 5, 6] if j == n + 1 else [20, 25, 26, 27, 28] if j < 0 else [1, 4, 8, 14, 27, 28]
            for d in sorted(rng.choice(edge) for _ in range(rng.choice([0, 1, 3, 5, 8]))):
                b = a if rng.random() < 0.95 else step(a[0], a[1], rng.choice([-1, 1]))
                rs.append(rec(b[0], b[1], rng.choice(ps), rng.choice(places), d))
            rs.sort(key=lambda r: (r['f']['DY'], r['f']['HR']))
            arch.append({'y': a[0], 'm': a[1], 'recs': rs})
        ostia = []
        for a in arch:
            for r in a['recs']:
                d = r['f']['DY']
                if d != NONE and rng.random() < 0.8:
                    from datetime import date, timedelta
                    try:
                        q = date(a['y'], a['m'], d) - timedelta(1)
                    except ValueError:
                        continue
                    o = [q.year, q.month, q.day]
                    if o not in [x['d'] for x in ostia]:
                        ostia.append({'d': o, 'sst': 8 * q.day + q.month, 'ice': q.day % 5})
        bad = rng.choice([['BADID'], ['BADID', 'A'], [], ['BADID', '', 'X']])
        g.case('run', {'program': prog, 'y1': y, 'm1': m, 'y2': y2, 'm2': m2, 'tracking': 1 if prog == 'track' or turn or rng.random() < 0.5 else 0,
                       'archive': arch, 'bad': bad, 'bad9': [x.ljust(9) for x in bad if x],
                       'safe': [{'id': x, 'safe': x.replace('/', '_').replace('*', '_')} for x in IDS if x], 'params': params(rng),
                       'fields': fields(rng), 'lib': LIB, 'ostia': ostia})
