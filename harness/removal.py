"""C16, C17: the IQUAM track check and the spike check (Removal, T_Removal).
Positions in 1/1000 degree, times in minutes, values in 1/8 K."""
import Extended_IMMA as ex
from mk import report, earlier
from rt import NONE, enc

SCALARS = ['ID', 'LAT', 'LON', 'YR', 'MO', 'DY', 'HR', 'SST', 'AT', 'PT']


def when(t, yr=2003):
    from datetime import datetime, timedelta
    d = datetime(yr, 12, 28) + timedelta(minutes=t)
    return dict(YR=d.year, MO=d.month, DY=d.day, HR=(d.hour * 60 + d.minute) / 60.0)


def voyage(v):
    voy = ex.Voyage()
    reps = []
    for k, r in enumerate(v['reps']):
        f = when(0 if r['t'] == NONE else r['t'], v['yr'])
        if r['t'] == NONE:
            f['HR'] = None
        if v['line']:
            f.update(LAT=0.0, LON=(r['x'] + (360000 if v['off'] and r['x'] < 0 else 0)) / 1000.0)
        else:
            f.update(LAT=r['lat'] / 1000.0, LON=r['lon'] / 1000.0)
        rep = report(UID='U%d' % k, ID=None if v['id'] == '<none>' else v['id'], PT=v['pt'] if k == 0 else v['pt2'],
                     SST=None if r['v'] == NONE else r['v'] / 8.0, AT=None if r['v'] == NONE else 1 - r['v'] / 8.0, **f)
        rep.set_qc('POS', 'trk', k % 2)
        reps.append(rep)
        voy.add_report(rep)
    return voy, reps


def check(v):
    voy, reps = voyage(v)
    p = v['p']
    var, name = ('POS', 'iquam_track') if v['what'] == 'iquam' else (v['var'], 'spike')

    def run():
        if v['what'] == 'iquam':
            voy.iquam_track_check({'buoy_speed_limit': float(p['buoy']), 'ship_speed_limit': float(p['ship']), 'delta_d': p['dd'] / 1000.0,
                                   'delta_t': p['dth'] / 1000.0, 'number_of_neighbours': p['w']})
        else:
            voy.spike_check({'max_gradient_space': p['gs'] / 8.0, 'max_gradient_time': p['gt'] / 8.0, 'ship_delta_t': p['st'] / 8.0,
                             'buoy_delta_t': p['bt'] / 8.0, 'number_of_neighbours': p['w']}, intype=var)
    if v['old']:
        earlier(reps, ['LAT', 'SST', 'AT'], run)
        for k, r in enumerate(reps):
            r.set_qc(var, name, 1)

    def see():
        return [[r.getvar(s) for s in SCALARS] + [r.get_qc(*w) for w in (('POS', 'trk'), ('POS', 'iquam_track'), ('SST', 'spike'), ('AT', 'spike')) if w != (var, name)] for r in reps]
    before = see()
    run()
    out = {'f': [enc(r.get_qc(var, name)) for r in reps], 'rest': int(see() == before and list(voy.rep_feed()) == reps)}
    if not v['line']:
        out['d'] = [[enc((b - a)[1], 1000) for b in reps] for a in reps]
    return out


PI = {'buoy': 15, 'ship': 60, 'dd': 1110, 'dth': 10, 'w': 5}
PS = {'gs': 4, 'gt': 8, 'st': 16, 'bt': 8, 'w': 5}


def base(rng, what, line):
    v = {'what': what, 'line': line, 'off': rng.randint(0, 1), 'id': 'AB12     ', 'yr': 2003, 'pt': rng.choice([5, 5, 5, 6, 7, 4, NONE]), 'old': int(rng.random() < .4),
         'pt2': rng.choice([5, 7]), 'var': rng.choice(['SST', 'SST', 'AT'])}
    if v['pt'] == NONE:
        v['pt'] = 8
    if rng.random() < .1:
        v['id'] = rng.choice(['SHIP     ', '         ', 'MASKSTID ', '2        ', '00007    ', '3        ', '7        ', '00002    ', '58       ', '<none>', 'SHIP', '2', 'RIGG     ', 'PLAT     ', '/////    '])
        v['yr'] = rng.choice([1920, 1921, 1929, 1930, 1933, 1935, 1937, 1938, 1941, 1942, 1950, 1954, 1955, 2003])
    if what == 'iquam':
        v['p'] = dict(PI) if rng.random() < .5 else {'buoy': rng.randint(2, 30), 'ship': rng.randint(20, 90), 'dd': rng.choice([0, 1110, 5000]), 'dth': rng.choice([10, 50, 100]), 'w': rng.randint(1, 6)}
    else:
        v['p'] = dict(PS) if rng.random() < .5 else {'gs': rng.choice([1, 2, 4, 8]), 'gt': rng.choice([1, 4, 8]), 'st': rng.randint(8, 24), 'bt': rng.randint(1, 12), 'w': rng.randint(1, 6)}
    return v


def track(rng, v, n):
    """A ship going along, with bad positions, bad times and bad values in between."""
    line, reps = v['line'], []
    x = rng.choice([0, 179900, -179000, 359000, rng.randint(-180000, 179999)])
    lat, lon = rng.randint(-70000, 70000), rng.randint(-180000, 180000)
    t, val = rng.randrange(0, 2880, 15), rng.randint(0, 240)
    slow = rng.choice([1, 1, .3])
    if v['id'] != 'AB12     ' and rng.random() < .5:
        t = rng.randrange(4800, 5760, 15)      # over the turn of the year
    burst = rng.random() < .15                 # many bad values close together
    if burst:
        slow = .1
    for k in range(n):
        b = rng.random()
        jump = rng.choice([rng.randint(-3000, 3000), rng.randint(-30000, 30000), rng.randint(-300, 300)]) if b < .2 else 0
        jt = rng.choice([-60, 60, 1440, -1440]) if .2 < b < .25 else 0
        r = {'t': max(0, t + jt), 'v': val + (rng.choice([-1, 1]) * rng.choice([8, 9, 16, 17, 24, 40, 80]) if rng.random() < .25 else rng.randint(-6, 6))}
        if burst:
            r['v'] = val + (rng.choice([-1, 1]) * rng.randint(10, 200) if rng.random() < .6 else rng.randint(-2, 2))
        if rng.random() < .08:
            r['v'] = NONE
        if line:
            r['x'] = (x + jump + 180000) % 360000 - 180000
        else:
            r['lat'] = max(-90000, min(90000, lat + jump))
            r['lon'] = (lon + rng.choice([0, jump]) + 180000) % 360000 - 180000
            if v['off'] and r['lon'] < 0:
                r['lon'] += 360000
        reps.append(r)
        dt = rng.choice([0, 15, 60] if burst else [0, 15, 60, 60, 180, 360, 720, 4320])
        t += dt
        step = int(dt / 60.0 * rng.randint(50, 700) * slow)
        x += step
        lat += step // 2
        lon += step // 2
        if abs(lat) > 89000:
            lat = 60000
        val += rng.randint(-4, 4)
    if rng.random() < .1:
        rng.shuffle(reps)
    return reps


def generate(g, what):
    rng = g.rng
    for k, h in enumerate(g.behaviours.get('track', [])):
        if not g.thorough and k % 4 != 0:
            continue
        v = {'what': what, 'line': 1, 'off': k // 4 % 2, 'id': 'AB12     ', 'yr': 2003, 'pt': [5, 7][k // 8 % 2], 'pt2': 5, 'old': k % 3 // 2, 'var': 'SST', 'p': PI if what == 'iquam' else PS}
        v['reps'] = h
        g.fixed(what, v)
    for _ in range(g.scale(1200, 20000)):
        v = base(rng, what, int(rng.random() < .5))
        v['reps'] = track(rng, v, rng.choice([0, 1, 2, 3, 4, 6, 9, 14, 20]) if rng.random() < .98 else rng.randint(30, 60))
        g.case(what, v)
