"""C21, C22: aground and speed checks of drifters (Drifter, T_Drifter).
Positions in 1/100 degree, times in 1/32 day."""
import Extended_IMMA as ex
import trackqc as tqc
from mk import report
from rt import NONE, enc
from removal import when

SCALARS = ['ID', 'LAT', 'LON', 'YR', 'MO', 'DY', 'HR', 'SST', 'PT']
DRF = {'agr': 'drf_agr', 'spd': 'drf_spd'}


def drift(v):
    voy = ex.Voyage()
    reps = []
    p = v['p']
    name = DRF[v['what']]
    order = v['shuffle'] or range(len(v['reps']))
    for k, r in enumerate(v['reps']):
        lon = r['x'] + (36000 if v['off'] and r['x'] < 0 else 0)
        rep = report(UID='U%d' % k, ID=v['id'], PT=v['pt'], SST=k / 8.0, LAT=None if r['y'] == NONE else r['y'] / 100.0,
                     LON=None if r['x'] == NONE else lon / 100.0, **when(45 * r['t'], v['yr']))
        if v['old'][k] != 9:
            rep.set_qc('POS', name, v['old'][k])
        rep.set_qc('POS', 'iquam_track', k % 2)
        rep.set_qc('POS', 'trk', k % 3 // 2)
        reps.append(rep)
    # a report without a position cannot be added to a voyage: it loses it afterwards
    bad = [(r, c) for r in reps for c in ('LAT', 'LON') if r.getvar(c) is None]
    for r, c in bad:
        r.setvar(c, 0.0)
    for k in order:
        voy.add_report(reps[k])
    for r, c in bad:
        r.setvar(c, None)

    def see():
        return [[r.getvar(s) for s in SCALARS] + [r.get_qc('POS', q) for q in ('trk', 'iquam_track', 'drf_agr', 'drf_spd') if q != name] for r in reps]
    before = see()
    exc = 0
    sort = bool(v['shuffle'])
    minw = p['minw'] // 32 if v['what'] == 'agr' and p['minw'] % 32 == 0 else p['minw'] / 32.0
    maxw = p['maxw'] // 32 if v['what'] == 'agr' and p['maxw'] % 32 == 0 else p['maxw'] / 32.0
    iq = {'buoy_speed_limit': 15.0, 'ship_speed_limit': float(v['iq']['ship']), 'delta_d': v['iq']['dd'] / 1000.0,
          'delta_t': v['iq']['dth'] / 1000.0, 'number_of_neighbours': v['iq']['w']}
    try:
        if v['what'] == 'agr':
            q = {'smooth_win': p['sw'], 'min_win_period': minw, 'max_win_period': maxw}
            if v['direct']:
                (tqc.new_aground_check(voy.reps, p['sw'], minw) if p['new'] else tqc.aground_check(voy.reps, p['sw'], minw, maxw))
            else:
                (voy.new_buoy_aground_check if p['new'] else voy.buoy_aground_check)(q, sort)
        else:
            q = {'speed_limit': p['lim'] / 10.0, 'min_win_period': minw, 'max_win_period': maxw}
            if v['direct']:
                (tqc.new_speed_check(voy.reps, iq, p['lim'] / 10.0, minw) if p['new'] else tqc.speed_check(voy.reps, p['lim'] / 10.0, minw, maxw))
            elif p['new']:
                voy.new_buoy_speed_check(iq, q, sort)
            else:
                voy.buoy_speed_check(q, sort)
    except (AssertionError, ValueError, UserWarning):
        exc = 1
    out = {'exc': exc, 'f': [enc(r.get_qc('POS', name)) for r in reps],
           'rest': int(see() == before and (list(voy.rep_feed()) == reps if sort else True))}
    if v['line'] == 'X' and not bad:
        out['d'] = [[enc((b - a)[1], 1000) for b in reps] for a in reps]
    return out


IQ = {'ship': 60, 'dd': 1110, 'dth': 10, 'w': 5}


def base(rng, what):
    return {'what': what, 'line': 'X', 'off': rng.randint(0, 1), 'id': 'AB12     ', 'yr': 2003, 'pt': 7, 'direct': 0, 'shuffle': [], 'refuse': 0, 'iq': dict(IQ), 'old': []}


def finish(rng, v):
    n = len(v['reps'])
    v['old'] = [rng.choice([9, 9, 0, 1]) for _ in range(n)]
    ts = [r['t'] for r in v['reps']]
    if not v['refuse'] and not v['direct'] and n > 1 and len(set(ts)) == n and rng.random() < .3:
        v['shuffle'] = list(range(n))
        rng.shuffle(v['shuffle'])
    return v


def track(rng, v, n):
    """A drifter with jitter that now and then stands still, or is carried off by a ship."""
    x0 = rng.choice([0, 17998, -17995, rng.randint(-18000, 17999)])
    y0 = rng.choice([-1, 1]) * rng.randint(500, 6900)
    if v['line'] == 'E':
        y0 = 0
    if v['line'] == 'M':
        y0 = rng.randint(-6000, 6000)
    x, y, t = x0, y0, rng.randint(0, 32)
    reps = []
    mode = rng.choice(['still', 'drift', 'drift', 'ship'])
    steps = rng.choice([[4, 8], [8], [8, 16, 32], [1, 4, 40, 8], [0, 4, 8, 16, 100]])
    far = rng.choice([2, 3, 4]) if v['line'] == 'X' and n > 6 and rng.random() < .12 else 0
    if far:
        mode, y = 'still', rng.choice([-1, 1]) * rng.randint(500, 3000)
    for k in range(n):
        if 0 < k <= far:       # half-way round the world, and aground there
            x += 16500 if far == 2 and k == 1 else 1500 if far == 2 else 18000 // far
        jx, jy = (rng.randint(-1, 1), rng.randint(-1, 1)) if rng.random() < .3 else (0, 0)
        if rng.random() < .04:
            jx = rng.randint(-120, 120)
        rx = 0 if v['line'] == 'M' else jx
        ry = 0 if v['line'] == 'E' else (jx if v['line'] == 'M' else jy)
        reps.append({'t': t, 'x': (x + rx + 18000) % 36000 - 18000, 'y': y + ry})
        dt = rng.choice(steps)
        t += dt
        if rng.random() < .12:
            mode = rng.choice(['still', 'drift', 'ship'])
        s = {'still': 0, 'drift': rng.randint(-1, 2), 'ship': int(dt * rng.uniform(3, 13))}[mode]
        if v['line'] != 'M':
            x += s
        if v['line'] != 'E':
            y += s // 2 if v['line'] == 'X' else s
        if abs(y) > 6900 or v['line'] == 'X' and abs(y) < 300:
            y = y0
    return reps


def params(rng, what):
    if what == 'agr':
        d = rng.choice([1, 1, 2, 3, 8])
        return {'new': rng.randint(0, 1), 'sw': rng.choice([1, 1, 3, 5, 7, 9]), 'minw': 32 * d, 'maxw': 32 * (d + rng.choice([0, 1, 2]))}
    m = rng.choice([8, 12, 16, 24, 32, 64])
    return {'new': rng.randint(0, 1), 'lim': rng.choice([25, 30, rng.randint(1, 60), rng.randint(0, 60) * (rng.random() < .6)]), 'minw': m, 'maxw': m + rng.choice([0, 8, 32])}


def generate(g, what):
    rng = g.rng
    for k, h in enumerate(g.behaviours.get('drift', [])):
        if not g.thorough and k % 6 != 0:
            continue
        v = base(rng, what)
        v['reps'] = h['tr']
        v['p'] = h['p'] if what == 'agr' else {'new': h['p']['new'], 'lim': 1, 'minw': h['p']['minw'], 'maxw': h['p']['maxw']}
        v['direct'] = k // 6 % 2
        g.fixed(what, finish(rng, v))
    # ashore after a while, or from the first on, smoothed over wide windows
    for k in range(g.scale(150, 1500) if what == 'agr' else 0):
        v = base(rng, what)
        sw = rng.choice([5, 7, 9, 11])
        n = rng.randint(sw - 1, sw + 12)
        moves = rng.choice([0, 0, 1, 2, rng.randint(0, n)])
        x, y = rng.choice([0, 17990, rng.randint(-18000, 17900)]), rng.choice([-1, 1]) * rng.randint(300, 6900)
        v['reps'] = [{'t': 8 * j, 'x': (x + rng.choice([9, 30]) * min(j, moves) + rng.randint(-1, 1) * (rng.random() < .2) + 18000) % 36000 - 18000, 'y': y} for j in range(n)]
        v['p'] = {'new': rng.randint(0, 1), 'sw': sw, 'minw': 32, 'maxw': rng.choice([32, 64, 96])}
        v['direct'] = rng.randint(0, 1)
        g.case(what, finish(rng, v))
    for k in range(g.scale(1500, 20000)):
        v = base(rng, what)
        v['line'] = rng.choice('XXXEM') if what == 'spd' else 'X'
        v['reps'] = track(rng, v, rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 30]))
        v['p'] = params(rng, what)
        v['direct'] = int(rng.random() < .5)
        if what == 'spd' and rng.random() < .3:
            v['iq'] = {'ship': rng.choice([5, 20, 60]), 'dd': rng.choice([0, 1110, 5000]), 'dth': rng.choice([10, 100]), 'w': rng.randint(1, 5)}
            if rng.random() < .3:
                v['id'] = rng.choice(['SHIP     ', 'PLAT     '])
        n = len(v['reps'])
        if rng.random() < .05 and not v['direct']:
            v['pt'] = rng.choice([5, 6, 8])
        elif rng.random() < .12:
            bad = rng.choice(['pos', 'order', 'win'])
            v['refuse'] = 1
            sw = v['p'].get('sw', 1)
            if bad == 'pos' and n > sw:
                v['reps'][rng.randrange(n)][rng.choice('xy')] = NONE
            elif bad == 'order' and n > max(1, sw):
                a = rng.randrange(n - 1)
                v['reps'][a]['t'] = v['reps'][a + 1]['t'] + rng.randint(1, 20)
            elif n > 0:
                w = rng.choice(['min', 'max', 'other'])
                if w == 'min':
                    v['p']['minw'] = -32 if what == 'spd' else rng.choice([0, -32, 31])
                elif w == 'max' and not v['p']['new']:
                    v['p']['maxw'] = v['p']['minw'] - 32
                elif what == 'agr':
                    v['p']['sw'] = rng.choice([0, 2, 4, -1])
                else:
                    v['p']['lim'] = -10
            else:
                v['refuse'] = 0
        g.case(what, finish(rng, v))
