"""C04: derived values along a voyage (Voyage, T_Voyage)."""
import math
import Extended_IMMA as ex
from mk import report
from rt import NONE, BAD, enc

KM = 6371.0088 * math.pi / 180.0   # one degree of arc


def when(t):
    """minutes from 2003-12-30 00:00 -> fields"""
    from datetime import datetime, timedelta
    d = datetime(2003, 12, 30) + timedelta(minutes=t)
    hr = (d.hour * 60 + d.minute) / 60.0
    while math.floor(60 * (hr - d.hour)) < d.minute:     # the hour of this very minute
        hr += 1e-12
    return dict(YR=d.year, MO=d.month, DY=d.day, HR=hr)


def make(r, axis, off):
    kw = dict(UID=str(r['u']))
    if axis == 'E':
        x = r['x'] / 100.0
        kw.update(LAT=0.0, LON=x + 360 if off and x < 0 else x)
    else:
        kw.update(LAT=r['x'] / 100.0, LON=off / 100.0)
    if r['t'] == NONE:
        kw.update(when(0))
        kw.update([dict(HR=None), dict(DY=None), dict(HR=24.5), dict(MO=2, DY=30), dict(DY=None, HR=None)][r['u'] % 5])
    else:
        kw.update(when(r['t']))
    return report(**kw)


def km(v):
    return NONE if v is None else enc(v / KM, 1000)


def course(c):
    if c is None:
        return NONE
    v = enc(c, 1000)
    if v < -360000 or v > 360000:
        return BAD
    v %= 360000
    return (v // 1000) % 360 if v % 1000 == 0 else ((v + 20) // 1000) % 360 if (v + 20) % 1000 <= 40 else BAD


def leg(r, a, b, p=''):
    """what r carries, and the course which the code gives from a to b afresh"""
    return {'fc': NONE if a is None else course((b - a)[2]),
            'd': km(r.getext(p + 'distance')), 'el': enc(r.getext(p + 'time_diff'), 60),
            'c': course(r.getext(p + 'course')), 's': km(r.getext(p + 'speed'))}


def voy(inp):
    v = ex.Voyage()
    obs = []
    for o in inp['ops']:
        alt = []
        if o['op'] == 'add':
            v.add_report(make(o['r'], inp['axis'], inp['off']))
        elif o['op'] == 'sort':
            v.sort()
        else:
            v.calc_alternate_speeds()
            rs = list(v.rep_feed())
            alt = [leg(r, None if k in (0, len(rs) - 1) else rs[k - 1], rs[min(k + 1, len(rs) - 1)], 'alt_') for k, r in enumerate(rs)]
        rs = list(v.rep_feed())
        obs.append({'reps': [int(r.getvar('UID')) for r in rs], 'legs': [leg(r, rs[k - 1] if k else None, r) for k, r in enumerate(rs)],
                    'mean': km(v.meansp()), 'speeds': [km(s) for s in v.get_speed()], 'alt': alt})
    return {'obs': obs}


KINDS = {'voy': voy}


def generate(g):
    rng = g.rng
    for h in g.behaviours.get('voy', []):
        g.fixed('voy', {'axis': 'E', 'off': 0, 'ops': h + [{'op': 'alt'}]})
    for _ in range(g.scale(700)):
        ax = rng.choice('EM')
        off = rng.randint(0, 1) if ax == 'E' else rng.choice([0, 4550, 18000, -18000, -12000, 27000, 35950])
        n = rng.randint(1, 9) if rng.random() < 0.97 else rng.randint(30, 90)
        ops = []
        x = rng.randint(-18000, 18000) if ax == 'E' else rng.randint(-8000, 8000)
        t = rng.choice([15 * rng.randint(0, 300), rng.randint(0, 4000)])
        miss = rng.random() < 0.15
        for k in range(n):
            ops.append({'op': 'add', 'r': {'u': k + 1, 'x': x, 't': NONE if miss and rng.random() < 0.3 else t}})
            st = rng.choice([0, 1, 2, 10, 50, 300, 3000])
            x += rng.randint(-st, st)
            x = (x + 18000) % 36000 - 18000 if ax == 'E' else max(-8800, min(8800, x))
            t = max(0, t + rng.choice([0, 1, 2, 7, 15, 45, 60, 240, 1440, -1, -60, -1500, 4320]))
            if rng.random() < 0.2:
                ops.append({'op': rng.choice(['sort', 'alt'])})
        ops += rng.choice([[{'op': 'alt'}], [{'op': 'sort'}, {'op': 'alt'}], [{'op': 'sort'}]])
        g.case('voy', {'axis': ax, 'off': off, 'ops': ops})
