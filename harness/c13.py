"""C13: the buddy grid (Buddy, BuddyParams, T_Buddy).  Anomalies in 1/8, positions in 1/1000 degree."""
import numpy as np
import qc
import Climatology as cl
import Extended_IMMA as ex
from mk import report
from rt import enc, enc_exact

CACHE = {}


def sdfield(k, n):
    if (k, n) not in CACHE:
        t, y, x = np.ogrid[0:n, 0:180, 0:360]
        val = (1 + ((t + y + x + k) % 4)) / 2.0
        val = np.where((t + y + x + 2 * k) % 13 == 0, 0.0, val)
        val = np.where((t + y + x + k) % 11 == 0, -3.0, val)
        CACHE[(k, n)] = cl.Climatology(np.ma.array(val, mask=np.broadcast_to((t + y * 3 + x + k) % 7 == 0, val.shape)))
    return CACHE[(k, n)]


def limits(p):
    return [list(x) for x in p['lims']], [list(x) for x in p['thr']], [[m / 2.0 for m in x] for x in p['mult']]


def rep_of(r, **k):
    return report(LAT=r['lat'] / 1000.0, LON=r['lon'] / 1000.0, YR=2001, MO=r['mo'], DY=r['dy'], **k)


def make(v):
    g = ex.Np_Super_Ob()
    for r in v['reps']:
        rep = rep_of(r)
        g.add_rep(rep.lat(), rep.lon(), 2001, r['mo'], r['dy'], r['an'] / 8.0)
    g.take_average()
    return g


def grid(v):
    g = make(v)
    out = {'cell': [], 'n': [], 'av': [], 'nb': [], 'bm': [], 'bl': [], 'ym': [], 'y2': [], 'nocc': int(np.count_nonzero(g.nobs))}
    occ = np.transpose(np.nonzero(g.nobs))
    seen = {}
    for r in v['reps']:
        # which occupied cell holds this report: the one an otherwise empty grid has
        one = ex.Np_Super_Ob() if not v.get('fast') else None
        rep = rep_of(r)
        if one is not None:
            one.add_rep(rep.lat(), rep.lon(), 2001, r['mo'], r['dy'], 1.0)
            c = [int(a[0]) for a in np.nonzero(one.nobs)]
            out['cell'].append(c)
        else:
            c = [qc.mds_lon_to_xindex(rep.lon()), qc.mds_lat_to_yindex(rep.lat()), qc.which_pentad(r['mo'], r['dy']) - 1]
            out['cell'].append([int(a) for a in c])
        out['n'].append(enc(g.nobs[c[0]][c[1]][c[2]]))
        out['av'].append(enc(g.grid[c[0]][c[1]][c[2]], 800))
        nb = []
        for rad in v['rads']:
            a, n = g.get_neighbour_anomalies(rad, c[0], c[1], c[2])
            nb.append([[enc(x, 800), enc(y)] for x, y in zip(a, n)])
        out['nb'].append(nb)
    p = v['p']
    if v['old']:
        g.get_buddy_limits(sdfield(0, p['n']))
    else:
        lims, thr, mult = limits(p)
        g.get_buddy_limits_with_parameters(sdfield(0, p['n']), lims, thr, mult)
    for r in v['reps']:
        rep = rep_of(r)
        out['bm'].append(enc(g.get_buddy_mean(rep.lat(), rep.lon(), r['mo'], r['dy']), 800))
        out['bl'].append(enc_exact(g.get_buddy_stdev(rep.lat(), rep.lon(), r['mo'], r['dy']), 4))
    if v['bayes']:
        g.get_new_buddy_limits(sdfield(1, p['n']), sdfield(2, p['n']), sdfield(3, p['n']), p['blim'], p['sm'] / 2.0, float(p['ns']))
        for r in v['reps']:
            rep = rep_of(r)
            out['ym'].append(enc(g.get_buddy_mean(rep.lat(), rep.lon(), r['mo'], r['dy']), 800))
            s = g.get_buddy_stdev(rep.lat(), rep.lon(), r['mo'], r['dy'])
            out['y2'].append(enc(s * s, 1000))
    return out


def mult(v):
    return {'m': enc_exact(ex.get_threshold_multiplier(v['n'], v['thr'], [m / 2.0 for m in v['mult']]), 2)}


KINDS = {'grid': grid, 'mult': mult}
ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
P0 = {'lims': [[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]], 'thr': [[0, 5, 15, 100], [0], [0, 5, 15, 100], [0]],
      'mult': [[8, 7, 6, 5], [8], [8, 7, 6, 5], [8]], 'n': 1, 'blim': [2, 2, 4], 'sm': 2, 'ns': 3}


def date_of(p, k=0):
    day = 5 * p + 1 + k
    for m in range(12):
        if day <= ML[m]:
            return m + 1, day
        day -= ML[m]


def at(c, an, k=0):
    """A position inside cell c."""
    m, d = date_of(c[2], k % 5)
    lon = c[0] * 1000 - 180000 + 100 + 97 * (k % 8)
    if k % 3 == 0 and lon < 0:
        lon += 360000
    return {'lat': 90000 - c[1] * 1000 - 100 - 89 * (k % 9), 'lon': lon, 'mo': m, 'dy': d, 'an': an}


def random_params(rng):
    if rng.random() < 0.4:
        p = dict(P0)
    else:
        k = rng.randint(1, 3)
        lims = sorted([rng.randint(1, 3), rng.randint(0, 2), rng.randint(0, 4)] for _ in range(k))
        thr = [[0] + sorted(rng.sample(range(1, 12), rng.randint(0, 3))) for _ in range(k)]
        p = dict(P0, lims=lims, thr=thr, mult=[[rng.randint(4, 9) for _ in t] for t in thr],
                 blim=[rng.randint(1, 3), rng.randint(0, 2), rng.randint(0, 4)], sm=rng.randint(0, 3), ns=rng.choice([1, 2, 3, 3, 4, 6]))
    p['n'] = rng.choice([1, 1, 73])
    return p


def random_reps(rng, nmax=14, maxper=12):
    """A cluster of reports around one of the awkward places."""
    bx = rng.choice([0, 359, 180, 179, 10, rng.randint(0, 359)])
    by = rng.choice([0, 1, 2, 5, 30, 60, 89, 90, 120, 177, 178, 179, rng.randint(0, 179)])
    bp = rng.choice([0, 72, 1, 71, 36, 11, 12, rng.randint(0, 72)])
    reps, per = [], {}
    spread = rng.choice([1, 2, 3])
    far = 180 if by < 2 or by > 177 else 1
    if rng.random() < 0.1:
        # many reports in a few cells
        for j in range(rng.randint(2, 3)):
            c = ((bx + j * rng.choice([1, -1])) % 360, by, (bp + j) % 73)
            if c not in per:
                per[c] = rng.choice([9, 10, 11, 12])
                reps += [at(c, rng.randint(-64, 64), rng.randint(0, 200)) for _ in range(per[c])]
        return reps
    for k in range(rng.randint(1, nmax)):
        c = ((bx + rng.randint(-spread, spread) * rng.choice([1, 1, far])) % 360, max(0, min(179, by + rng.randint(-spread, spread))), (bp + rng.randint(-5, 5)) % 73)
        if rng.random() < 0.4 and reps:
            c = rng.choice(sorted(per))
        if rng.random() < 0.05:
            c = (c[0], 179 - c[1], c[2])
        if per.get(c, 0) >= maxper:
            continue
        per[c] = per.get(c, 0) + 1
        r = at(c, rng.randint(-64, 64) if rng.random() < .8 else rng.choice([0, 80, -80]), rng.randint(0, 200))
        if c[2] == 11 and rng.random() < .3:
            r['mo'], r['dy'] = rng.choice([(2, 25), (3, 1)])
            if (r['mo'], r['dy']) == (2, 25):
                r['mo'], r['dy'] = 2, 28
        if rng.random() < 0.15:
            # on a border or at the edge of the world
            r['lat'] = rng.choice([-90000, 90000, 0, 1000 * (r['lat'] // 1000)])
            r['lon'] = rng.choice([-180000, 180000, 0, 360000, 1000 * (r['lon'] // 1000)])
        reps.append(r)
    return reps


def crowd(rng, kind):
    """A cell with more reports than fit in a byte, or more neighbouring cells than usual."""
    bx, by, bp = rng.choice([0, 359, 180, rng.randint(0, 359)]), rng.choice([60, 90, rng.randint(20, 160)]), rng.choice([0, 72, 36, 12])
    if kind == 'cell':
        reps = [at((bx, by, bp), rng.randint(-16, 16), k) for k in range(rng.choice([128, 130, 256, 260]))]
        return reps + [at(((bx + j) % 360, by, (bp + j) % 73), rng.randint(-64, 64)) for j in (-1, 1)]
    cells = [((bx + i) % 360, by + j, (bp + k) % 73) for i in range(-3, 4) for j in (-2, -1, 0, 1, 2) for k in (-1, 0, 1)]
    return [at(c, rng.randint(-64, 64), k) for k, c in enumerate(rng.sample(cells, rng.randint(55, 62)))]


def generate(g):
    rng = g.rng
    for k in range(g.scale(4, 24)):
        cell = k % 2 == 0
        p = dict(P0, n=rng.choice([1, 73]), blim=[2, 2, 2] if cell else [3, 2, 1], sm=rng.randint(1, 2), ns=rng.randint(1, 2))
        g.case('grid', {'reps': crowd(rng, 'cell' if cell else 'many'), 'rads': [[1, 1, 2]], 'p': p, 'old': k // 2 % 2, 'bayes': 1, 'fast': 1})
    hs = g.behaviours.get('buddy', [])
    for k, h in enumerate(hs):
        if not g.thorough and k % 3 != 0:
            continue
        g.fixed('grid', {'reps': [at(x['c'], x['an'], k + j) for j, x in enumerate(h)], 'rads': [[1, 1, 2], [2, 2, 4], [3, 1, 1]], 'p': P0,
                         'old': k % 2, 'bayes': 1, 'fast': 1})
    for thr, mu in (([0, 5, 15, 100], [8, 7, 6, 5]), ([0], [8]), ([0, 1], [3, 9]), ([0, 2, 3, 4, 10], [9, 8, 7, 6, 5])):
        for n in list(range(0, 20)) + [99, 100, 101, 1000]:
            g.fixed('mult', {'n': n, 'thr': thr, 'mult': mu})
    for _ in range(g.scale(12, 200)):
        # spans about as wide as the world: 11 columns are 180 in the fourth row from a pole
        bx, by, bp = rng.randint(0, 359), rng.choice([3, 176]), rng.choice([0, 72, 30])
        w = rng.choice([11, 11, 11, 10, 12])
        reps = [at(((bx + d) % 360, by + rng.randint(-1, 1), (bp + rng.randint(-1, 1)) % 73), rng.randint(-64, 64), k)
                for k, d in enumerate([0, 180, rng.choice([179, 181]), rng.choice([160, 170, 190, 200])])] + [at((bx, by, bp), 8), at(((bx + 180) % 360, by, bp), 24)]
        p = dict(P0, lims=[[w, 1, 1]], thr=[[0, 3]], mult=[[8, 6]], n=rng.choice([1, 73]), blim=[w, 1, 1], sm=2, ns=rng.randint(1, 5))
        g.case('grid', {'reps': reps, 'rads': [[w, 1, 1], [w, 0, 0]], 'p': p, 'old': 0, 'bayes': 1, 'fast': 1})
    for _ in range(g.scale(240, 4000)):
        reps = random_reps(rng)
        if not reps:
            continue
        g.case('grid', {'reps': reps, 'rads': [[1, 1, 2], [2, 2, 4], [rng.randint(0, 4), rng.randint(0, 3), rng.randint(0, 5)]], 'p': random_params(rng),
                        'old': 1 if rng.random() < .3 else 0, 'bayes': 1, 'fast': 1 if rng.random() < .7 else 0})
