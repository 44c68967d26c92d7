"""C12: interpolation (Interp, T_Interp)."""
import numpy as np
import qc
import Climatology as cl
from mk import report
from rt import NONE, enc, enc_exact, encl, dec, deci

CACHE = {}


def get(n):
    if n not in CACHE:
        t, y, x = np.ogrid[0:n, 0:180, 0:360]
        val = 2 * ((t * 7 + y * 131 + x * 17) % 499)
        gone = (t + y * y + 2 * x * x + x * y) % 5 <= 2
        CACHE[n] = np.ma.array(val.astype(float), mask=gone)
    return CACHE[n]


def fill(v):
    q = [[dec(x) for x in c] for c in v['q']]
    a = qc.fill_missing_vals(q[0][0], q[0][1], q[1][0], q[1][1])
    e = [enc_exact(x) for x in a]
    return {'q': [[e[0], e[1]], [e[2], e[3]]]}


def box(v):
    q = [[float(x) for x in c] for c in v['q']]
    x1, y1 = v['x1'] / 8.0, v['y1'] / 8.0
    r = qc.bilinear_interp(x1, x1 + v['w'] / 8.0, y1, y1 + v['h'] / 8.0, x1 + v['u'] / 8.0, y1 + v['v'] / 8.0, q[0][0], q[0][1], q[1][0], q[1][1])
    return {'v': enc_exact(r, v['w'] * v['h'])}


def mean(v):
    r = qc.missing_mean([dec(x) for x in v['xs']])
    return {'v': enc_exact(r, 60)}


def clim(v):
    lat, lon, mo, dy = v['lat'] / 1000.0, v['lon'] / 1000.0, v['mo'], deci(v['dy'])
    f = get(v['n'])
    if v['via'] == 'qc':
        r = qc.get_clim_interpolated(report(LAT=lat, LON=lon, MO=mo, DY=dy), f)
    else:
        r = cl.Climatology(f).get_interpolated_value(lat, lon, mo, dy)
    return {'v': enc_exact(r, 64)}


KINDS = {'fill': fill, 'box': box, 'mean': mean, 'clim': clim}


def generate(g):
    rng = g.rng
    for s in g.behaviours.get('fill', []):
        if s['u'] == 0 and s['v'] == 0:
            g.fixed('fill', {'q': s['q']})
        if NONE not in s['q'][0] + s['q'][1]:
            g.fixed('box', {'q': s['q'], 'u': s['u'], 'v': s['v'], 'w': 8, 'h': 8, 'x1': -4, 'y1': 4})
    for n in (1, 73):
        for via in ('qc', 'clim'):
            for lat in (-90000, -89875, -89500, -89625, -500, 0, 500, 1000, 125, 89500, 89625, 89375, 89875, 90000):
                for lon in (-180000, -179875, -179500, -179625, -500, 0, 125, 500, 179375, 179500, 179625, 179875, 180000):
                    g.fixed('clim', {'n': n, 'via': via, 'lat': lat, 'lon': lon, 'mo': 5, 'dy': 17})
    for m, d in ((2, 29), (2, 28), (3, 1), (12, 31), (1, 1), (2, 30), (4, 31), (13, 1), (0, 1), (6, 0), (6, NONE)):
        for via in ('clim',) if not 1 <= m <= 12 or d in (0, NONE) else ('qc', 'clim'):
            if (m, d) in ((2, 30), (4, 31)) and via == 'qc':
                continue
            for k in range(12):
                g.fixed('clim', {'n': 73, 'via': via, 'lat': 125 * (k * 61 - 300), 'lon': 125 * (k * 211 - 1200), 'mo': m, 'dy': d})
    for _ in range(g.scale(4000)):
        q = rng.choice([125, 500, 1000])
        g.case('clim', {'n': rng.choice([1, 73]), 'via': rng.choice(['qc', 'clim']), 'lat': q * rng.randint(-90000 // q, 90000 // q),
                        'lon': q * rng.randint(-180000 // q, 180000 // q), 'mo': rng.randint(1, 12), 'dy': rng.randint(1, 28)})
        w, h = rng.randint(1, 40), rng.randint(1, 40)
        g.case('box', {'q': [[rng.randint(-500, 500), rng.randint(-500, 500)], [rng.randint(-500, 500), rng.randint(-500, 500)]],
                       'u': rng.randint(0, w), 'v': rng.randint(0, h), 'w': w, 'h': h, 'x1': rng.randint(-1400, 1400), 'y1': rng.randint(-700, 700)})
    for _ in range(g.scale(600)):
        xs = [NONE if rng.random() < .3 else rng.randint(-50, 50) for _ in range(rng.randint(0, 6))]
        g.case('mean', {'xs': xs})
