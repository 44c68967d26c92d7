"""C08: the base quality control of one report (BaseQC, T_BaseQC)."""
import qc
import Extended_IMMA as ex
from mk import Rec
from rt import NONE, enc, enc_exact, dec, deci

SCALE = {'LAT': 100, 'LON': 100, 'HR': 120}
INTS = ('DCK', 'PT', 'YR', 'MO', 'DY', 'D')
FIELDS = ['ID', 'DCK', 'PT', 'YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'SST', 'AT', 'DPT', 'SLP', 'W', 'D', 'SHU', 'CRH', 'DAT']
FLAGS = {'POS': 'isbuoy isdrifter isship is780 pos date time blklst day', 'DPT': 'hum_blacklist clim noval nonorm ssat hardlimit',
         'AT': 'mat_blacklist noval clim nonorm hardlimit', 'W': 'wind_blacklist noval hardlimit consistency',
         'SST': 'noval freez clim nonorm hardlimit', 'SLP': 'noval clim nonorm', 'AT2': 'clim noval nonorm hardlimit',
         'DAT': 'noval clim nonorm hardlimit'}


def value(n, v):
    if n == 'ID':
        return v
    if n in INTS:
        return deci(v)
    return dec(v, SCALE.get(n, 8))


def back(n, v):
    if n == 'ID':
        return v
    return enc_exact(v, 1 if n in INTS else SCALE.get(n, 8))


def d8(x):
    return dec(x, 8)


def params(p, since):
    def two(x):
        return [x[0] / 8.0, x[1] / 8.0]
    return {'base': {'time_since_sun_above_horizon': since},
            'SST': {'freezing_point': p['SST']['fp'] / 8.0, 'freeze_check_n_sigma': p['SST']['n'] / 8.0,
                    'maximum_anomaly': p['SST']['max'] / 8.0, 'hard_limits': two(p['SST']['hard'])},
            'AT': {'maximum_anomaly': p['AT']['max'] / 8.0, 'hard_limits': two(p['AT']['hard']),
                   'minmax_standard_deviation': two(p['AT']['minmax']), 'maximum_standardised_anomaly': p['AT']['maxsd'] / 8.0},
            'DPT': {'hard_limits': two(p['DPT']['hard']), 'minmax_standard_deviation': two(p['DPT']['minmax']),
                    'maximum_standardised_anomaly': p['DPT']['maxsd'] / 8.0},
            'SHU': {'hard_limits': two(p['SHU']['hard'])}, 'RH': {'hard_limits': two(p['RH']['hard'])},
            'CRH': {'hard_limits': two(p['RH']['hard'])},
            'SLP': {'maximum_anomaly': 10.0, 'maximum_standardised_anomaly': p['SLP']['maxsd'] / 8.0, 'lowbar': p['SLP']['low'] / 8.0},
            'W': {'hard_limits': two(p['W']['hard']), 'variable_limit': p['W']['var'] / 8.0},
            'DAT': {'maximum_anomaly': p['DAT']['max'] / 8.0, 'hard_limits': two(p['DAT']['hard'])}}


def base(v):
    f = v['f']
    r = ex.MarineReportQC(Rec(dict([('UID', 'u')] + [(n, value(n, f[n])) for n in FIELDS if n == 'ID' or f[n] != NONE])))

    def put(n, x):
        r.setvar(n, value(n, x))
        if n == 'AT':
            r.setvar('AT2', value(n, x))
    put('AT', f['AT'])
    n = v['n']
    r.add_climate_variable('SST', d8(n['SST']))
    r.add_climate_variable('AT', d8(n['AT']))
    if n['DAT'] != NONE:
        r.add_climate_variable('DAT', d8(n['DAT']))
    for k in ('DPT', 'AT2', 'SLP'):
        r.add_climate_variable(k, d8(n[k]), d8(n[k + 'sd']))
    p = params(v['p'], float(v['since']))
    runs = {'full': r.perform_base_qc, 'wind': r.perform_base_wind_qc, 'sst': r.perform_base_sst_qc,
            'slp': r.perform_base_slp_qc, 'dat': r.perform_base_dat_qc}
    obs = []
    for o in v['ops']:
        if o[0] == 'run':
            runs[o[1]](p)
        else:
            put(o[1], o[2])
        day = NONE
        if qc.position_check(r.lat(), r.lon()) + qc.date_check(r.getvar('YR'), r.getvar('MO'), r.getvar('DY')) + qc.time_check(r.getvar('HR')) == 0:
            day = enc(qc.day_test(r.getvar('YR'), r.getvar('MO'), r.getvar('DY'), r.getvar('HR'), r.lat(), r.lon(), float(v['since'])))
        obs.append({'fl': dict((t + '.' + x, enc(r.get_qc(t, x))) for t in FLAGS for x in FLAGS[t].split()),
                    'f': dict((m, back(m, r.getvar(m))) for m in FIELDS), 'day': day,
                    'dt': [] if r.dt is None else [r.dt.year, r.dt.month, r.dt.day, r.dt.hour, r.dt.minute]})
    return {'obs': obs}


KINDS = {'base': base}

F0 = {'ID': 'AA', 'DCK': 701, 'PT': 5, 'YR': 1855, 'MO': 6, 'DY': 15, 'HR': NONE, 'LAT': 1000, 'LON': 2000, 'SST': 80, 'AT': 96,
      'DPT': 88, 'SLP': 8080, 'W': 40, 'D': 361, 'SHU': 64, 'CRH': 640, 'DAT': 96}
N0 = {'SST': 84, 'AT': 90, 'DPT': 80, 'DPTsd': 8, 'AT2': 90, 'AT2sd': 8, 'SLP': 8100, 'SLPsd': 40, 'DAT': 100}
P0 = {'SST': {'fp': -14, 'n': 16, 'max': 64, 'hard': [-40, 360]}, 'AT': {'max': 80, 'hard': [-640, 520], 'minmax': [8, 32], 'maxsd': 44},
      'DPT': {'minmax': [8, 32], 'maxsd': 44, 'hard': [-640, 520]}, 'SHU': {'hard': [0, 320]}, 'RH': {'hard': [0, 1200]},
      'SLP': {'maxsd': 24, 'low': 80}, 'W': {'hard': [0, 400], 'var': 40}, 'DAT': {'max': 80, 'hard': [-640, 520]}}

MATBOX = [(-80, 40, 0, 55), (-10, 35, 30, 45), (15, -10, 45, 40), (15, -10, 95, 15), (95, -10, 105, 5)]


def generate(g):
    for h in g.behaviours.get('base', []):
        g.fixed('base', {'f': F0, 'n': N0, 'p': P0, 'ops': h, 'since': 1})
    def once(run='full', **k):
        g.fixed('base', {'f': dict(F0, **k), 'n': N0, 'p': P0, 'ops': [['run', run, 0]], 'since': 1})
    # what excludes a report by its source, whatever its values
    for w, s, e, n in MATBOX:
        for lat in (100 * s - 1, 100 * s, 50 * (s + n), 100 * n, 100 * n + 1):
            for lon in (100 * w - 1, 100 * w, 50 * (w + e), 100 * e, 100 * e + 1):
                for yr in (1880, 1892):
                    once(DCK=193, YR=yr, LAT=lat, LON=lon if (lat + yr) % 3 else lon % 36000, HR=720)
        for yr in (1879, 1880, 1886, 1892, 1893):
            once('dat', DCK=193, YR=yr, LAT=50 * (s + n), LON=50 * (w + e), HR=720)
    for run in ('full', 'wind', 'sst', 'slp', 'dat'):
        for pt in list(range(0, 18)) + [NONE]:
            for dck in (780, 708, 926):
                once(run, PT=pt, DCK=dck, YR=1995)
    for miss in ('AT', 'SST', 'DPT', 'SLP', 'W', 'D', 'SHU', 'CRH', 'DAT', 'DY', 'HR', 'DCK', 'PT'):
        for run in ('full', 'wind', 'sst', 'slp', 'dat'):
            for dck in (780, 708, 701):
                once(run, **dict({'DCK': dck, 'YR': 1859 if dck == 701 else 1995}, **{miss: NONE}))
    rng = g.rng

    def near(*xs):
        x = rng.choice(xs)
        return x + rng.choice([0, 0, -1, 1, 8, -8, 40, -40])
    for _ in range(g.scale(2500)):
        p = {'SST': {'fp': rng.choice([-14, -15, 0]), 'n': rng.choice([8, 16]), 'max': rng.choice([64, 80]), 'hard': [rng.choice([-40, 0]), rng.choice([320, 360])]},
             'AT': {'max': rng.choice([80, 60]), 'hard': [rng.choice([-640, -40]), 520], 'minmax': [rng.choice([4, 8]), rng.choice([16, 32])], 'maxsd': rng.choice([24, 44])},
             'DPT': {'minmax': [rng.choice([4, 8]), rng.choice([16, 32])], 'maxsd': rng.choice([16, 44]), 'hard': [-600, rng.choice([400, 480])]},
             'SHU': {'hard': [0, 320]}, 'RH': {'hard': [0, rng.choice([1200, 800])]},
             'SLP': {'maxsd': rng.choice([24, 16]), 'low': rng.choice([80, 40, 0])}, 'W': {'hard': [0, rng.choice([400, 240])], 'var': rng.choice([40, 24])},
             'DAT': {'max': rng.choice([80, 40]), 'hard': [-640, 520]}}

        def miss(x, q=0.06):
            return NONE if rng.random() < q else x
        at = rng.randint(-100, 300)
        n = {'SST': miss(rng.randint(-10, 250)), 'AT': miss(at + rng.randint(-100, 100)), 'DPT': miss(rng.randint(-100, 250)), 'DPTsd': miss(rng.choice([2, 8, 16, 24, 40])),
             'AT2': miss(at + rng.randint(-60, 60)), 'AT2sd': miss(rng.choice([2, 8, 16, 40])), 'SLP': miss(8100), 'SLPsd': miss(rng.choice([8, 16, 40])), 'DAT': miss(at)}

        def field(k):
            if k == 'ID':
                return rng.choice(['AA', 'SUPERIGORINA', '53521    '])
            if k == 'DCK':
                return miss(rng.choice([701, 701, 708, 780, 193, 732, 874, 926, 700]))
            if k == 'PT':
                return miss(rng.choice(list(range(0, 18))))
            if k == 'YR':
                return rng.choice([1855, 1859, 1860, 1885, 1880, 1892, 1893, 1960, 2005, 2030, 2000])
            if k == 'MO':
                return rng.choice([1, 2, 6, 11, 12, 12, 13])
            if k == 'DY':
                return miss(rng.choice([1, 15, 28, 29, 30, 31]))
            if k == 'HR':
                return miss(rng.choice([0, 1440, 2879, 2880, 720]), 0.25)
            if k == 'LAT':
                return rng.choice([0, 4500, -1000, 9000, 9100, 4200])
            if k == 'LON':
                return rng.choice([0, -4500, 2000, 35999, 36100, -17200])
            if k == 'SST':
                return miss(near(p['SST']['fp'], p['SST']['hard'][0], p['SST']['hard'][1], n['SST'] + p['SST']['max'], n['SST'] - p['SST']['max'], n['SST'])) if n['SST'] != NONE else rng.randint(-50, 370)
            if k == 'AT':
                return miss(near(at, p['AT']['hard'][0], p['AT']['hard'][1], n['AT'] + p['AT']['max'], n['AT2'] + p['AT']['maxsd']))if NONE not in (n['AT'], n['AT2']) else at
            if k == 'DPT':
                return miss(near(at, n['DPT'] + p['DPT']['maxsd'], n['DPT'])) if n['DPT'] != NONE else miss(at)
            if k == 'SLP':
                return miss(near(8100, 8100 + p['SLP']['low'], 8100 - p['SLP']['low'], 8160, 8200))
            if k == 'W':
                return miss(rng.choice([0, 0, 8, p['W']['var'], p['W']['var'] + 1, p['W']['hard'][1], p['W']['hard'][1] + 1]))
            if k == 'D':
                return miss(rng.choice([361, 362, 180, 0]))
            if k == 'SHU':
                return miss(near(0, 320, 64, 64, 64))
            if k == 'CRH':
                return miss(near(0, p['RH']['hard'][1], 640, 640, 640))
            if k == 'DAT':
                return miss(near(at, at + p['DAT']['max'], -640, 520))
        f = dict((k, field(k)) for k in FIELDS)
        ops = []
        for _ in range(rng.randint(1, 5)):
            if rng.random() < 0.7:
                ops.append(['run', rng.choice(['full', 'full', 'wind', 'sst', 'slp', 'dat']), 0])
            else:
                k = rng.choice([k for k in FIELDS if k != 'ID'])
                ops.append(['set', k, field(k)])
        ops.append(['run', 'full', 0])
        g.case('base', {'f': f, 'n': n, 'p': p, 'ops': ops, 'since': rng.choice([0, 1, 1, 6])})
