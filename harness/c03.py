"""C03: the date-time of a report and the order of reports (ReportTime, T_ReportTime)."""
import Extended_IMMA as ex
from mk import report, IDS
from rt import NONE, EXC, BAD, enc, dec, call, Raised

N = ['YR', 'MO', 'DY', 'HR']


def val(n, v):
    if v == NONE:
        return None
    return v / 12000.0 if n == 'HR' else v


def dt(r):
    d = r.dt
    if d is None:
        return []
    return [d.year, d.month, d.day, d.hour, d.minute] + ([d.second] if d.second or d.microsecond else [])


def fields(r):
    return {n: enc(r.getvar(n), 12000 if n == 'HR' else 1) for n in N}


def b(x):
    return EXC if isinstance(x, Raised) else (1 if x is True else 0 if x is False else BAD)


def look(a, c, x, y):
    return {'p': dt(a), 'q': dt(c), 'fp': fields(a), 'fq': fields(c),
            'gt': b(call(lambda: a > c)), 'lt': b(call(lambda: a < c)),
            'eq': b(call(lambda: a == c)), 'ne': b(call(lambda: a != c)),
            'ge': b(call(lambda: a >= c)), 'le': b(call(lambda: a <= c))}


def mk(s, cls, order):
    import mk as m
    d = {'ID': IDS[s['id']], 'UID': 'u'}
    names = [N[k] for k in order]
    for n in names:
        d[n] = val(n, s['f'][n])
    d['LAT'] = 1.0
    d['LON'] = 2.0
    return cls(m.Rec(d))


def rtime(inp):
    cls = ex.MarineReportQC if inp.get('qc') else ex.MarineReport
    a, c = mk(inp['a'], cls, inp['order']), mk(inp['b'], cls, inp['order'])
    x, y = inp['a']['id'], inp['b']['id']
    obs = [look(a, c, x, y)]
    for o in inp['ops']:
        (a if o['w'] == 1 else c).setvar(o['n'], val(o['n'], o['v']))
        obs.append(look(a, c, x, y))
    return {'obs': obs}


KINDS = {'rtime': rtime}


def rv(rng, n):
    r = rng.random()
    if r < 0.07:
        return NONE
    if n == 'YR':
        return rng.choice([1849, 1850, 1900, 1999, 2000, 2004, 2023, 2024, 0, 9999, 10000]) if r < 0.6 else rng.randint(1850, 2024)
    if n == 'MO':
        return rng.randint(1, 12) if r < 0.9 else rng.choice([0, 13, -1, 99, 25])
    if n == 'DY':
        return rng.choice([1, 28, 29, 30, 31]) if r < 0.6 else rng.choice([0, -1, 32, 99]) if r < 0.7 else rng.randint(1, 28)
    if r < 0.2:
        return rng.choice([288000, -1, -200, 287999, 287900, 0, 999900, 300000])
    if r < 0.6:
        # anywhere within a minute, close to its ends as well
        return 200 * rng.randrange(0, 1440) + rng.choice([1, 20, 60, 99, 100, 101, 139, 160, 180, 199])
    return rng.choice([rng.randrange(100, 288000, 200), 3000 * rng.randrange(0, 96)])


def generate(g):
    base = {'YR': 2004, 'MO': 2, 'DY': 29, 'HR': 276000}
    for h in g.behaviours.get('rtime', []):
        g.fixed('rtime', {'a': {'id': 1, 'f': h[0]['f']}, 'b': {'id': 1, 'f': base}, 'order': [0, 1, 2, 3],
                          'ops': [{'w': 1, 'n': o['n'], 'v': o['v']} for o in h[1:]]})
    rng = g.rng
    for _ in range(g.scale(2500)):
        fa = {n: rv(rng, n) for n in N}
        fb = dict(fa) if rng.random() < 0.6 else {n: rv(rng, n) for n in N}
        ops = []
        if rng.random() < 0.3 and fa['HR'] != NONE:
            # the same day, one minute or less apart
            fb = dict(fa, HR=fa['HR'] - fa['HR'] % 200 + rng.choice([-100, 1, 100, 201, 300, 399]))
        for _ in range(rng.randint(1, 8)):
            n = rng.choice(N)
            ops.append({'w': rng.choice([1, 1, 2]), 'n': n, 'v': rv(rng, n)})
            if rng.random() < 0.3:
                ops.append({'w': 2 if ops[-1]['w'] == 1 else 1, 'n': n, 'v': ops[-1]['v']})
        order = [0, 1, 2, 3]
        rng.shuffle(order)
        ida = rng.randint(1, 5)
        g.case('rtime', {'a': {'id': ida, 'f': fa}, 'b': {'id': ida if rng.random() < 0.7 else rng.randint(1, 4), 'f': fb},
                         'order': order, 'ops': ops, 'qc': rng.randint(0, 1)})
