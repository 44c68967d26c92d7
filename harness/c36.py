"""C36: the small record readers (Readers, T_Readers).  A line is given by its parts; it is put into text here."""
import Extended_IMMA as ex
import NRT
import TestIMMA
from rt import NONE, EXC, BAD, enc, call, Raised

IDS = ['', 'ABC', '4400123', 'X Y', 'x-1', '0']
F = [('id', 'ID', 0), ('yr', 'YR', 1), ('mo', 'MO', 1), ('dy', 'DY', 1), ('hr', 'HR', 60), ('lat', 'LAT', 100), ('lon', 'LON', 100), ('sst', 'SST', 100),
     ('dck', 'DCK', 1), ('pt', 'PT', 1), ('sid', 'SID', 1)]


def num(v, unit, form):
    f = v / float(unit)
    return ['%r' % f, '%.2f' % f, '%e' % f, ' %r' % f, '%+.3f' % f, '%.10g' % f][form % 6]


def date(l, form):
    d = '%04d-%02d-%02d' % (l['yr'], l['mo'], l['dy'])
    t = '%02d:%02d' % (l['hr'], l['mi'])
    return [d + 'T' + t + ':00Z', d + 'T' + t + ':59', d + ' ' + t + ':07', d + 'T' + t, d + 'T' + t + ':30+00:00'][form % 5]


def nrt_line(l):
    f = l['form']
    w = [IDS[l['id']], 'x', date(l, f), num(l['lat'], 100, f), num(l['lon'], 100, f + 1),
         'nan' if l['sst'] == NONE else num(l['sst'], 100, f + 2)]
    if l['bad']:
        w[3 + f % 3] = ['', 'abc', '1.2.3'][f % 3]
    w = (w + ['y', 'z'])[:l['cols']]
    return ','.join(w) + ('\n' if f % 2 else ''), 'NRT' + IDS[l['id']] + (w + [''] * 6)[2]


def row(l):
    f = l['form']
    h = l['hr']
    w = [IDS[l['id']], 'U%d' % f, num(l['lat'], 100, f), num(l['lon'], 100, f), num(l['yr'], 1, f), num(l['mo'], 1, f), num(l['dy'], 1, f),
         '-32768.' if h == NONE else '%r' % (h + l['mi'] / 60.0), 'a', 'b', 'c', '-32768' if l['sst'] == NONE else num(l['sst'], 100, f), 'more']
    if l['bad']:
        w[[2, 3, 4, 5, 6, 7, 11][f % 7]] = 'abc'
    return w[:l['cols']], 'U%d' % f


def one(k, unit, v):
    if isinstance(v, Raised):
        return EXC
    if k == 'id':
        return NONE if v is None else IDS.index(v) if v in IDS else BAD
    return enc(v, unit)


def read(v):
    rec = NRT.NRT() if v['kind'] == 'nrt' else TestIMMA.IMMA()
    obs = []
    for l in v['lines']:
        if l['cols'] == 0 and v['kind'] == 'nrt':
            text, uid = '', ''
        else:
            text, uid = nrt_line(l) if v['kind'] == 'nrt' else row(l)
        x = call(rec.readstr, text)
        get = lambda n: rec.data.get(n)
        o = {'refused': 1 if isinstance(x, Raised) else 0, 'rec': {k: one(k, u, get(n)) for k, n, u in F},
             'uid': int(get('UID') == uid) if l['cols'] else 1,
             'dummies': int(all(n in rec.data and rec.data[n] is None for n in ['AT', 'SIM', 'DS', 'VS', 'DPT', 'C1', 'SI']))}
        r = call(ex.MarineReport, rec)
        o['rep'] = {k: one(k, u, call(r.getvar, n) if not isinstance(r, Raised) else r) for k, n, u in F}
        obs.append(o)
    return {'obs': obs}


KINDS = {'read': read}


def generate(g):
    for k, h in enumerate(g.behaviours.get('nrt', [])):
        g.fixed('read', {'kind': 'nrt', 'lines': [dict(l, form=(k + j) % 30) for j, l in enumerate(h)]})
    rng = g.rng
    for _ in range(g.scale(400)):
        kind = rng.choice(['nrt', 'list'])
        lines = []
        for _ in range(rng.randint(1, 6)):
            l = {'cols': 6 if kind == 'nrt' else rng.choice([12, 13]), 'bad': 0, 'id': rng.randrange(6), 'yr': rng.choice([1, 1850, 1900, 1999, 2000, 2004, 2023, rng.randint(1850, 2024)]),
                 'mo': rng.randint(1, 12), 'dy': rng.choice([1, 28, 29, 30, 31, rng.randint(1, 28)]), 'hr': rng.choice([0, 23, rng.randint(0, 23)]), 'mi': rng.choice([0, 59, 30, rng.randint(0, 59)]),
                 'lat': rng.choice([-9000, 9000, 0, 19951, 19999, 20000, 20001, 9001, 9999, 99900, -20001, -25000, rng.randint(-9000, 9000)]), 'lon': rng.choice([-18000, 36000, 36001, 39901, 39951, 39999, 40000, 40001, 99900, -40001, -50000, rng.randint(-18000, 36000)]),
                 'sst': rng.choice([NONE, 0, -180, -3276750, rng.randint(-180, 4000)]), 'form': rng.randrange(30)}
            q = rng.random()
            if q < 0.1:
                l['cols'] = rng.choice([2, 5, 7, 8] if kind == 'nrt' else [8, 11])
            elif q < 0.2:
                l['bad'] = 1
            elif q < 0.25 and kind == 'nrt':
                l['cols'] = 0
            elif q < 0.3 and kind == 'nrt':
                l['mo'], l['dy'] = rng.choice([(13, 1), (2, 30), (4, 31), (0, 5), (1, 0), (1, 32)])
            elif q < 0.4 and kind != 'nrt':
                l['hr'], l['mi'] = rng.choice([(NONE, 0), (NONE, 0), (-1, 0), (-3, 30), (24, 0), (99, 0), (-32769, 0), (-40000, 0)])
            lines.append(l)
        g.case('read', {'kind': kind, 'lines': lines})
