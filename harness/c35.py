"""C35: what a report holds and returns (ReportStore, T_ReportStore)."""
import Extended_IMMA as ex
from mk import Rec
from rt import NONE, EXC, BAD, enc_exact, enc, call, Raised

INTS = ['YR', 'MO', 'DY', 'DS', 'VS', 'DCK', 'PT', 'SID']
REAL = ['HR', 'LAT', 'LON', 'SLP', 'AT', 'AT2', 'SST', 'DPT', 'SHU', 'VAP', 'CRH', 'CWB', 'DPD', 'W', 'WI', 'D', 'DI', 'WW', 'DAT']
ODD = ['RH', 'speed', 'course', 'dsi', 'vsi', 'SIM', '', 'at', 'bg val']
IDS = ['', 'ABC', 'SHIP', '0', 'X/Y*']


def dec(n, v):
    if v == NONE:
        return None
    if n in ('ID', 'UID'):
        return IDS[v]
    return v // 4 if n in INTS else v / 4.0


def out(n, v, scale=4):
    if isinstance(v, Raised):
        return EXC
    if v is None:
        return NONE
    if isinstance(v, str):
        return IDS.index(v) if n in ('ID', 'UID') and v in IDS else BAD
    x = enc(v, scale)
    return x if x in (NONE, BAD) or float(v) * scale == x else BAD


def shows(r, voy, k, n, odd):
    return {'var': out(n, call(voy.getvar, k, n) if odd else call(r.getvar, n)),
            'ext': out(n, call(r.getext, n)),
            'clim': out(n, call(r.getnorm, n, 'clim') if odd else call(r.getnorm, n)), 'stdev': out(n, call(r.getnorm, n, 'stdev')),
            'odd': out(n, call(r.getnorm, n, 'mean')),
            'anom': out(n, call(r.getanom, n)), 'norm': out('', call(r.get_normalised_anom, n), 64)}


def look(reps, voy, inp, odd):
    return {'reps': [{'shows': [shows(r, voy, k, n, (odd + m) % 2) for m, n in enumerate(inp['watch'])],
                      'sat': enc(r.saturated()), 'lat': out('LAT', call(r.lat)), 'lon': out('LON', call(r.lon))}
                     for k, r in enumerate(reps)],
            'last': out('UID', voy.last_rep().getvar('UID'))}


def store(inp):
    reps = []
    same = None
    for k, d in enumerate(inp['recs']):
        rec = Rec({n: dec(n, v) for n, v in d.items()})
        if inp.get('twin') and k:
            rec = same
        reps.append((ex.MarineReportQC if (inp.get('qc', 0) + k) % 2 else ex.MarineReport)(rec))
        same = rec
        if not inp.get('twin'):
            for n in rec.data:            # the report does not depend on what becomes of the record
                rec.data[n] = IDS[4] if n in ('ID', 'UID') else 3
    voy = ex.Voyage()
    for r in reps:
        voy.reps.append(r)
    obs = [look(reps, voy, inp, 0)]
    for j, o in enumerate(inp['ops']):
        r = reps[o['u'] - 1]
        n = o.get('n')
        if o['op'] == 'set':
            x = call(voy.setvar, o['u'] - 1, n, dec(n, o['v'])) if o['via'] == 'voy' else call(r.setvar, n, dec(n, o['v']))
        elif o['op'] == 'ext':
            x = call(r.setext, n, dec(n, o['v']))
        elif o['op'] == 'norm':
            c, s = [None if v == NONE else v / 4.0 for v in (o['c'], o['s'])]
            x = call(r.add_climate_variable, n, c, s) if s is not None or j % 2 else call(r.add_climate_variable, n, c)
        elif o['op'] == 'half':
            x = call(lambda: r.climate_variables[n].setclim(o['v'] / 4.0, o['h']) if o['h'] != 'clim' or j % 2
                     else r.climate_variables[n].setclim(o['v'] / 4.0))
        else:
            x = call(r.reset_ext)
        b = look(reps, voy, inp, j)
        b['refused'] = 1 if isinstance(x, Raised) else 0
        obs.append(b)
    return {'obs': obs}


KINDS = {'store': store}
R0 = [{'ID': 1, 'UID': 1, 'YR': 7872, 'AT': 40, 'DPT': 40, 'LAT': 4, 'LON': 1000, 'DS': 8, 'VS': 8},
      {'ID': 1, 'UID': 2, 'YR': 7868, 'AT': 40, 'LAT': 4, 'LON': 720, 'DS': 36, 'VS': 4}]


def val(rng, n):
    if n in ('ID', 'UID'):
        return rng.randrange(5)
    if rng.random() < 0.12 and n != 'YR':
        return NONE
    if n == 'YR':
        return 4 * rng.choice([1850, 1899, 1966, 1967, 1968, 1969, 2000, 2024])
    if n == 'DS':
        return 4 * rng.randrange(10)
    if n in INTS:
        return 4 * rng.choice([0, 1, 2, 5, 9, 12])
    if n == 'LON':
        return rng.choice([720, 721, 719, -720, 0, 1439, 1440, -1, 722, rng.randint(-720, 1440)])
    if n in ('AT', 'DPT'):
        return rng.choice([0, 40, 41, -40, 1])
    return rng.choice([0, 0, 1, -1, 40, rng.randint(-4000, 4000)])


def generate(g):
    for h in g.behaviours.get('store', []):
        g.fixed('store', {'recs': R0, 'ops': h, 'watch': ['AT', 'DPT', 'DS', 'VS', 'dsi', 'vsi', 'RH']})
    rng = g.rng
    for q in range(g.scale(150)):
        names = sorted(set(rng.sample(INTS, 3) + rng.sample(REAL, 3) + rng.sample(ODD, 3) + rng.choice([['ID', 'UID'], ['AT', 'DPT'], ['YR', 'DS', 'VS', 'dsi', 'vsi']])))
        twin = rng.random() < 0.25
        recs = []
        for k in range(3):
            d = {'ID': rng.randrange(5), 'UID': rng.randrange(5), 'YR': val(rng, 'YR'), 'LAT': 4, 'LON': 8}
            for n in [n for n in names if n not in ODD] + rng.sample(INTS + REAL, 5) + (['SIM'] if rng.random() < 0.3 else []):
                d[n] = val(rng, n)
            recs.append(d)
        if twin:
            recs = [recs[0]] * 3
        ops = []
        for _ in range(rng.randint(4, 16)):
            u = rng.randint(1, 3)
            op = rng.choice(['set', 'set', 'set', 'ext', 'ext', 'norm', 'norm', 'half', 'reset'])
            n = rng.choice(names)
            if op == 'set':
                ops.append({'op': op, 'via': rng.choice(['rep', 'voy']), 'u': u, 'n': n, 'v': val(rng, n)})
            elif op == 'ext':
                ops.append({'op': op, 'u': u, 'n': n, 'v': val(rng, n)})
            elif op == 'norm' and n not in ('ID', 'UID'):
                ops.append({'op': op, 'u': u, 'n': n, 'c': rng.choice([NONE, 0, 40, rng.randint(-100, 100)]), 's': rng.choice([NONE, 0, 1, 2, 4, 8, 16])})
            elif op == 'half' and n not in ('ID', 'UID'):
                h = rng.choice(['clim', 'stdev', 'stdev', 'mean'])
                ops.append({'op': op, 'u': u, 'n': n, 'h': h, 'v': rng.choice([1, 2, 4, 16])})
            elif op == 'reset':
                ops.append({'op': op, 'u': u})
        g.case('store', {'recs': recs, 'ops': ops, 'watch': names, 'twin': 1 if twin else 0, 'qc': rng.randint(0, 1)})
