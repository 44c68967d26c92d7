"""C37: where a platform will be (Prediction, T_Prediction)."""
import Extended_IMMA as ex
import spherical_geometry as s
from datetime import datetime, timedelta
from mk import report
from rt import NONE, BAD, enc, call, Raised


def when(t, u):
    if t == NONE:
        return [dict(HR=None), dict(DY=None), dict(HR=24.5), dict(MO=2, DY=30)][u % 4]
    d = datetime(2003, 12, 30) + timedelta(minutes=t)
    return dict(YR=d.year, MO=d.month, DY=d.day, HR=(d.hour * 60 + d.minute) / 60.0)


def m(a, b):
    return enc(s.sphere_distance(*(a + b)), 1000)


def track(inp):
    v = ex.Voyage()
    pl = []
    obs = []
    for u, (p, t) in enumerate(inp['track']):
        lat, lon = p[0] / 1000., p[1] / 1000.
        if inp['turn'] and lon < 0:
            lon += 360.
        pl.append((lat, lon))
        r = report(LAT=lat, LON=lon, UID=str(u))
        for n, x in when(t, u).items():
            r.setvar(n, x)
        v.add_report(r)
        if inp['sort'] and u:
            v.sort()
        row = []
        for a in inp['after']:
            x = call(v.predict_next_point, a / 60.0)
            if isinstance(x, Raised):
                row.append({'refused': 1, 'lat': 0, 'lon': 0, 'leg': 0, 'far': 0, 'whole': 0})
                continue
            q = (float(x[0]), float(x[1]))
            row.append({'refused': 0, 'lat': enc(q[0], 1000), 'lon': enc(q[1], 1000),
                        'leg': m(pl[-2], pl[-1]) if u else 0, 'far': m(pl[-1], q), 'whole': m(pl[-2], q) if u else 0})
        obs.append(row)
    return {'obs': obs}


KINDS = {'track': track}


def generate(g):
    for k, h in enumerate(g.behaviours.get('track', [])):
        g.fixed('track', {'track': h, 'after': [0, 60, 180, 360, -60], 'turn': k % 2, 'sort': (k // 2) % 2})
    rng = g.rng
    for _ in range(g.scale(500)):
        n = rng.randint(1, 5)
        t = 15 * rng.randint(0, 200)
        miss = rng.random() < 0.15
        kind = rng.choice('EMGG')
        quick = rng.random() < 0.25          # reports minutes apart
        p = [0 if kind == 'E' else rng.randint(-88000, 88000), rng.choice([0, 179000, -179500, rng.randint(-180, 179) * 1000])]
        tr = []
        for k in range(n):
            tr.append([list(p), NONE if miss and rng.random() < 0.4 else t])
            st = rng.choice([0, 10, 100, 1000]) if quick else rng.choice([0, 100, 1000, 5000, 20000])
            if kind in 'EG':
                p[1] += rng.randint(-st, st)
                p[1] = (p[1] + 180000) % 360000 - 180000
            if kind in 'MG':
                p[0] = max(-89000, min(89000, p[0] + rng.randint(-st, st)))
            t += rng.choice([0, 1, 1, 2, 5, 15]) if quick else rng.choice([0, 15, 45, 60, 60, 240, 720, 1440, 4320])
        g.case('track', {'track': tr, 'after': [0, rng.choice([15, 30, 60, 90]), rng.choice([240, 720, 1440, 7]), rng.choice([0, -15, -1440, 2880])],
                         'turn': rng.randint(0, 1), 'sort': 0 if miss else rng.randint(0, 1)})
