"""C18: the ship track check (Track, T_Track).  Positions in 1/1000 degree, times in minutes, reported speeds in knots."""
import Extended_IMMA as ex
import track_check as tc
from mk import report, earlier
from removal import when
from rt import NONE, enc

SCALARS = ['ID', 'LAT', 'LON', 'YR', 'MO', 'DY', 'HR', 'SST', 'PT', 'DS', 'VS']
DS = {45: 1, 90: 2, 135: 3, 180: 4, 225: 5, 270: 6, 315: 7, 360: 8, NONE: None}


def vcode(kn, yr):
    if kn == NONE:
        return None
    if kn == 0:
        return 0
    return (kn + 2) // 5 if yr >= 1968 else (kn + 1) // 3


def voyage(v):
    voy = ex.Voyage()
    reps = []
    for k, r in enumerate(v['reps']):
        f = when(r['t'], v['yr'])
        if v['line']:
            f.update(LAT=0.0, LON=(r['x'] + (360000 if v['off'] and r['x'] < 0 else 0)) / 1000.0)
        else:
            f.update(LAT=r['lat'] / 1000.0, LON=r['lon'] / 1000.0)
        rep = report(UID='U%d' % k, ID=None if v['id'] == '<none>' else v['id'], PT=v['pt'] if k == 0 else v['pt2'], DCK=v['dck'] if k == 0 else v.get('dck2', v['dck']),
                     DS=DS[r['ds']], VS=vcode(r['vs'], f['YR']), **f)
        reps.append(rep)
        voy.add_report(rep)
    return voy, reps


def m(x):
    return enc(x, 1000)


def check(v):
    voy, reps = voyage(v)
    trk, few = ('trk', 'few') if v['how'] == 'track' else ('bad_track', 'fewsome_check')
    if v['old'] and v['how'] == 'track':
        earlier(reps, ['LAT'], lambda: voy.track_check({'max_direction_change': 60.0, 'max_speed_change': 10.0, 'max_absolute_speed': 40.0, 'max_midpoint_discrepancy': 150.0}))
    for r in reps:
        if v['old']:
            r.set_qc('POS', trk, 1)
        r.set_qc('POS', 'iquam_track', 1)

    def see():
        return [[r.getvar(s) for s in SCALARS] + [r.get_qc('POS', x) for x in ('iquam_track', 'date', 'pos')] for r in reps]
    before = see()
    p = v['p']
    if v['how'] == 'track':
        voy.track_check({'max_direction_change': float(p['dir']), 'max_speed_change': float(p['spd']), 'max_absolute_speed': float(p['abs']), 'max_midpoint_discrepancy': float(p['mid'])})
    elif v['how'] == 'mds':
        ret = tc.mds_track_check(voy)
        if len(reps) > 1 and ret != [1 if r.get_qc('POS', trk) == 1 and len(reps) > 2 else 0 for r in reps]:
            return {'ret': ret}
        if len(reps) < 3:
            for r in reps:
                r.set_qc('POS', trk, 0)
    else:
        tc.mds_full_track_check(voy)
    out = {'trk': [enc(r.get_qc('POS', trk)) for r in reps], 'few': [enc(r.get_qc('POS', few)) for r in reps], 'rest': int(see() == before), 'c': []}
    if v['how'] == 'full' and len(reps) < 3:
        pass
    voy, reps = voyage(v)
    if len(reps) >= 3:
        voy.calc_alternate_speeds()
        for fw, rv, md in ((voy.distr1(), voy.distr2(), voy.midpt()), (tc.distr1(voy), tc.distr2(voy), tc.midpt(voy)))[v['off']:][:1]:
            for k, r in enumerate(reps):
                g = r.getvar
                out['c'].append({'sp': m(g('speed')), 'alt': m(g('alt_speed')), 'crs': enc(g('course'), 100), 'el': enc(g('time_diff'), 60), 'vs': enc(g('vsi')), 'ds': enc(g('dsi')),
                                 'fwd': m(fw[k]), 'rev': m(rv[k]), 'mid': m(md[k])})
    return out


KN = 0.539957


def mode(v):
    a = tc.modesp([None if k == 0 else x / 8.0 / KN + 1e-9 for k, x in enumerate(v['s'])])
    lims = tc.set_speed_limits(a)
    return {'mode': NONE if a is None else enc(a * KN, 100), 'lim': [enc(x * KN - 1e-6, 100) for x in lims]}


def test(v):
    kn = lambda x: None if x == NONE else x / 16.0 / KN
    d = lambda x: None if x == NONE else float(x)
    k16 = lambda x: None if x == NONE else x / 16.0
    return {'dir': enc(tc.direction_continuity(d(v['d1']), d(v['d2']), d(v['c']), float(v['pd']))),
            'spd': enc(tc.speed_continuity(k16(v['v1']), k16(v['v2']), kn(v['s']), v['ps'] / 16.0)),
            'est': enc(tc.check_distance_from_estimate(k16(v['v1']), k16(v['v2']), k16(v['t'] * 16), kn(v['f']), kn(v['r'])))}


KINDS = {'test': test, 'track': check, 'mode': mode}
# tracks of which each further pass flags one report more, seven times and more
CASCADES = [
    [(0, -19000, 0, 270), (180, -61400, 8, 270), (360, -43400, 0, 90), (540, -7400, 13, 90), (900, -5400, 0, 90), (1080, -4900, NONE, 90), (1260, 45100, NONE, 270), (1620, 40100, 23, 90), (1980, 37100, 8, 270), (2340, 38100, 8, 270), (2700, 35100, 13, 90), (3060, 37100, 13, 90), (3120, -154400, 23, 270), (3180, 110600, 8, 90), (3540, 111600, NONE, 270), (3720, -6400, 13, 270), (4080, 42100, 8, 270), (4260, 64600, 8, 90)],
    [(0, -160500, NONE, 270), (60, -85000, 0, 270), (240, -146000, NONE, 270), (600, 23500, 23, 90), (960, 36000, 13, 90), (1320, -121000, 23, 270), (1500, -33000, 23, 90), (1680, -14000, 0, 90), (1740, -8500, 23, 270), (1920, 7500, 13, 270), (2280, 44500, 13, 90), (2460, 65500, 0, 90), (2640, 87500, 23, 270), (3000, 125000, 23, 90), (3180, -37000, 0, 270), (3540, 57500, 0, 270), (3900, -80000, 23, 90), (4080, -135000, 23, 270)],
    [(0, -29500, 8, 90), (180, -26000, 23, 90), (540, -20000, 8, 270), (900, -14000, NONE, 90), (1260, -3500, 8, 270), (1620, 4000, 13, 270), (1980, 1000, 8, 90), (2340, -1900, 23, 270), (2520, -38400, NONE, 90), (2880, 37600, 13, 270), (3060, -56900, 13, 270), (3240, -7800, 0, 90), (3420, -27800, 8, 270), (3780, -2300, 23, 270), (4140, -3800, 0, 270), (4500, 70700, NONE, 270), (4680, -75800, 0, 90), (5040, -7300, 0, 270)],
    [(0, -13000, 23, 270), (60, -500, 13, 270), (120, -7400, NONE, 90), (480, -51400, 13, 90), (840, 36600, 0, 90), (900, -53800, 23, 270), (960, 37200, 23, 270), (1020, 51700, NONE, 90), (1080, 49200, 13, 90), (1440, 45200, 0, 90), (1620, 46700, 13, 90), (1680, 144700, 0, 90), (2040, 48700, 23, 90), (2400, 46200, 0, 270), (2460, 94200, 8, 270), (2520, 101800, 23, 90), (2880, 143800, 23, 90), (3240, 178300, 0, 270)],
    [(0, -22000, 0, 270), (360, 57000, 8, 270), (540, 161500, 13, 90), (600, 126100, NONE, 270), (660, 80100, 23, 90), (1020, 1600, 0, 270), (1200, 14600, 0, 270), (1260, 16700, 23, 90), (1320, 21200, 13, 270), (1380, 26200, 13, 270), (1560, 57200, 23, 90), (1620, 46700, 8, 90), (1680, 39200, 8, 270), (1740, 35700, 8, 270), (1920, 24700, 23, 270), (2280, 55700, 13, 90), (2460, 45700, 0, 90), (2520, -32800, NONE, 90)]]
P = {'dir': 60, 'spd': 10, 'abs': 40, 'mid': 150}


def path(rng, v, n):
    line, reps = v['line'], []
    new = v['yr'] >= 1968
    sp = [NONE, 0, 3, 8, 13, 18, 23, 28, 33] if new else [NONE, 0, 2, 5, 8, 11, 14, 17, 20, 26]
    x = rng.choice([0, 179500, -179000, rng.randint(-180000, 179999)])
    lat, lon = rng.randint(-60000, 60000), rng.randint(-180000, 180000)
    t = rng.randrange(0, 2880, 60)
    if (v['id'] != 'AB12     ' or v['dck'] == 720 and v['yr'] in (1890, 1967)) and rng.random() < .5:
        t = rng.randrange(5040, 5760, 60)      # over the turn of the year
    head = rng.choice([90, 270])
    gd = rng.choice([45, 90, 135, 180, 225, 270, 315, 360])
    kn = rng.choice(sp[2:])
    rep = rng.random() < .7
    for k in range(n):
        bad = rng.random() < .25
        j = rng.choice([1, -1]) * rng.choice([1500, 3000, 6000, 12000, 30000]) if bad else rng.randint(-100, 100)
        vs = kn if rng.random() < .8 else rng.choice(sp)
        if not rep or rng.random() < .1:
            vs = NONE
        r = {'t': t, 'vs': vs}
        if line:
            r['x'] = (x + j + 180000) % 360000 - 180000
            r['ds'] = head if rng.random() < .8 else rng.choice([90, 270, NONE])
        else:
            r['lat'] = max(-89000, min(89000, lat + j))
            r['lon'] = (lon + rng.choice([0, j, -j]) + 180000) % 360000 - 180000
            r['ds'] = gd if rng.random() < .7 else rng.choice([45, 90, 135, 180, 225, 270, 315, 360, NONE])
        if rep is False:
            r['ds'] = NONE
        reps.append(r)
        dt = rng.choice([0, 60, 180, 360, 360, 360, 720, 1440])
        t += dt
        step = int(dt / 60.0 * kn * 1000 / 60.04)
        x += step if head == 90 else -step
        if gd in (360, 45, 315):
            lat += step
        if gd in (180, 135, 225):
            lat -= step
        if gd in (45, 90, 135):
            lon += step
        if gd in (225, 270, 315):
            lon -= step
        if abs(lat) > 80000:
            lat = 0
    return reps


def generate(g):
    rng = g.rng
    for k, h in enumerate(g.behaviours.get('sail', [])):
        if not g.thorough and k % 4 != 0:
            continue
        g.fixed('track', {'how': ['track', 'track', 'mds', 'full'][k // 4 % 4], 'line': 1, 'off': k // 16 % 2, 'id': 'AB12     ', 'yr': 2003, 'pt': 5, 'pt2': 5, 'dck': 700,
                          'old': k % 3 // 2, 'p': P, 'reps': h})
    for _ in range(g.scale(60, 1500)):
        reps = [dict(zip(('t', 'x', 'vs', 'ds'), r)) for r in rng.choice(CASCADES)]
        if _ < len(CASCADES):
            reps = [dict(zip(('t', 'x', 'vs', 'ds'), r)) for r in CASCADES[_]]
        for _k in range(rng.choice([0, 1, 1, 2]) if _ >= len(CASCADES) else 0):
            r = rng.choice(reps)
            r['x'] = rng.choice([r['x'], (r['x'] + rng.choice([1, -1]) * rng.choice([500, 2000, 10000]) + 180000) % 360000 - 180000])
            r['ds'] = rng.choice([90, 270, r['ds']])
        g.case('track', {'how': 'full', 'line': 1, 'off': rng.randint(0, 1), 'id': 'AB12     ', 'yr': 2003, 'pt': 5, 'pt2': 5, 'dck': 700, 'old': rng.randint(0, 1), 'p': P, 'reps': reps})
    for _ in range(g.scale(1200, 20000)):
        line = int(rng.random() < .6)
        v = {'how': rng.choice(['track', 'track', 'track', 'mds', 'full'] if line else ['track', 'track', 'mds']), 'line': line, 'off': rng.randint(0, 1), 'id': 'AB12     ', 'yr': rng.choice([2003, 2003, 1966, 1890, 1891, 1967, 1968]),
             'pt': 5, 'pt2': 5, 'dck': rng.choice([700, 720]), 'old': int(rng.random() < .4), 'p': P}
        if rng.random() < .3:
            v['dck2'] = 1420 - v['dck']
        if rng.random() < .1:
            v['id'] = rng.choice(['SHIP     ', '         ', '2        ', '00007    ', '58       ', '<none>', 'PLAT     '])
            v['yr'] = rng.choice([1920, 1921, 1941, 1942, 1933, 1934, 1954, 1955, 1890, 1891])
        if v['how'] == 'track':
            if rng.random() < .4:
                v['p'] = {'dir': rng.choice([30, 45, 60, 90, 100, 135]), 'spd': rng.randint(3, 20), 'abs': rng.randint(16, 60), 'mid': rng.randint(10, 300)}
            if rng.random() < .1:
                v['pt'], v['pt2'] = rng.choice([(6, 5), (7, 7), (5, 6), (4, 5), (8, 7)])
        v['reps'] = path(rng, v, rng.choice([0, 1, 2, 2, 3, 4, 5, 6, 8, 12]) if rng.random() < .98 else rng.randint(20, 50))
        for r in v['reps']:
            # speeds that the code of the year can tell (it changed with 1968)
            if r['vs'] != NONE:
                yr = v['yr'] + (1 if r['t'] >= 5760 else 0)
                c = vcode(r['vs'], yr)
                r['vs'] = 0 if c == 0 else 5 * c - 2 if yr >= 1968 else 3 * c - 1
        g.case('track', v)
    for _ in range(g.scale(300, 3000)):
        n = rng.randint(0, 12)
        c = rng.randint(0, 330)
        g.case('mode', {'s': [rng.choice([c, c + 12, rng.randint(0, 340), 24 * rng.randint(0, 13)]) for _ in range(n)]})
    for _ in range(g.scale(1500, 20000)):
        v = {'d1': rng.choice([0, 45, 90, 135, 180, 225, 270, 315, 360, NONE]), 'd2': rng.choice([0, 45, 90, 135, 180, 225, 270, 315, 360, NONE]), 'c': rng.choice([rng.randint(0, 360), 45 * rng.randint(0, 8), NONE]),
             'pd': rng.choice([60, 60, 45, 90, 20]), 'v1': 2 * rng.randint(0, 200), 'v2': 2 * rng.randint(0, 200), 's': 2 * rng.randint(0, 300) + 1, 'ps': 2 * rng.randint(16, 100),
             't': rng.choice([0, 1, 3, 6, 12])}
        if rng.random() < .3 and v['d1'] != NONE:
            c = v['d1'] + rng.choice([v['pd'], -v['pd'], 360 - v['pd'], v['pd'] - 360]) + rng.randint(-1, 1)
            if 0 <= c <= 360:      # a turn on and about the largest let pass
                v['c'] = c
                if rng.random() < .7:
                    v['d2'] = v['d1']
        if rng.random() < .5:
            v['s'] = rng.choice([v['v1'], v['v2']]) + rng.choice([-1, 1]) * (v['ps'] + rng.choice([-1, 1]))
            if v['s'] < 0:
                v['s'] = 1
        far = (v['v1'] + v['v2']) * v['t'] // 2
        v['f'], v['r'] = [rng.choice([far + 1, max(0, far - 1), rng.randint(0, 6000), NONE]) for _ in 'ab']
        if v['f'] == far:
            v['f'] += 1
        if v['r'] == far:
            v['r'] += 1
        if rng.random() < .1:
            v[rng.choice(['v1', 'v2', 's'])] = NONE
        g.case('test', v)
