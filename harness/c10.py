"""C10: grid cells (Grid, T_Grid).  Positions in 1/1000 degree."""
import qc
from rt import NONE, enc, enc_exact

RES = [1000, 500, 250, 2000, 5000, 10000, 50]


def res_of(r):
    return r // 1000 if r % 1000 == 0 else r / 1000.0


NUDGE = {0: 0.0, 1: 1e-11, 2: 1e-8, 3: 1e-5, -1: -1e-11, -2: -1e-8, -3: -1e-5}


def cell(v):
    ey, ex = NUDGE[v.get('ey', 0)], NUDGE[v.get('ex', 0)]
    lat, lon, res = v['lat'] / 1000.0 + ey, v['lon'] / 1000.0 + ex, res_of(v['r'])
    other = v['lon'] - 360000 if v['lon'] >= 180000 else v['lon'] + 360000 if v['lon'] <= 0 else v['lon']
    fr = float(res)
    return {'y': enc_exact(qc.lat_to_yindex(lat, res)), 'ym': enc_exact(qc.mds_lat_to_yindex(lat, fr)),
            'x': enc_exact(qc.lon_to_xindex(lon, res)),
            'x2': enc_exact(qc.lon_to_xindex(other / 1000.0 + ex, res)),
            'xm': enc_exact(qc.mds_lon_to_xindex(lon, fr)) if -180 <= lon <= 180 else NONE}


def centre(v):
    res = res_of(v['r'])
    lat, lon = qc.yindex_to_lat(v['y'], res), qc.xindex_to_lon(v['x'], res)
    return {'lat2': enc_exact(lat, 2000), 'lon2': enc_exact(lon, 2000), 'y': enc_exact(qc.lat_to_yindex(lat, res)),
            'ym': enc_exact(qc.mds_lat_to_yindex(lat, float(res))), 'x': enc_exact(qc.lon_to_xindex(lon, res)),
            'xm': enc_exact(qc.mds_lon_to_xindex(lon, float(res)))}


def box(v):
    lat, lon = v['lat'] / 1000.0 + NUDGE[v.get('ey', 0)], v['lon'] / 1000.0 + NUDGE[v.get('ex', 0)]
    a = qc.get_four_surrounding_points(lat, lon, 0)
    b = qc.get_four_surrounding_points(lat, lon, 1)
    n = dict(zip(('x1', 'x2', 'y1', 'y2'), [enc_exact(x, 10) for x in a]))
    n.update(zip(('cx1', 'cx2', 'cy1', 'cy2'), [enc_exact(x, 10) for x in b]))
    return n


KINDS = {'cell': cell, 'centre': centre, 'box': box}


def generate(g):
    rng = g.rng
    # every whole and half degree, and its neighbours, at 1 degree
    for k in range(-180, 181):
        for d in (0, 1, -1, 250):
            lat = 500 * k + d
            if -90000 <= lat <= 90000:
                g.fixed('cell', {'lat': lat, 'lon': (lat * 2 + 500) % 360000, 'r': 1000})
                g.fixed('box', {'lat': lat, 'lon': (lat * 2 + 359500) % 360000 - 180000})
    for k in range(-360, 721):
        for d in (0, 1, -1, 250):
            lon = 500 * k + d
            if -180000 <= lon <= 360000:
                g.fixed('cell', {'lat': lon // 4, 'lon': lon, 'r': 1000})
            if -180000 <= lon <= 180000:
                g.fixed('box', {'lat': lon // 2, 'lon': lon})
    for r in RES:
        for lat in (-90000, -89999, -89500, -r, -r + 1, -1, 0, 1, r, r - 1, 89999, 90000, 90000 - r, r - 90000, 89500):
            for lon in (-180000, -179999, -r, -1, 0, 1, r, 179999, 180000, 180001, 180000 - r, 180000 + r, 359999, 360000, 360000 - r, 270000):
                g.fixed('cell', {'lat': lat, 'lon': lon, 'r': r})
        ny, nx = 180000 // r, 360000 // r
        if r == 50:
            for y in range(0, ny, 37):
                g.fixed('centre', {'y': y, 'x': (y * 2 + 11) % nx, 'r': r})
        else:
            for y in range(ny):
                g.fixed('centre', {'y': y, 'x': (2 * y + 1) % nx, 'r': r})
            for x in range(0, nx, 2):
                g.fixed('centre', {'y': x % ny, 'x': x, 'r': r})
    for lat in (-90000, -89999, -89501, -89500, -89499, 89499, 89500, 89501, 90000, 0, 500, -500):
        for lon in (-180000, -179999, -179501, -179500, -179499, -500, 0, 500, 179499, 179500, 179501, 179999, 180000):
            g.fixed('box', {'lat': lat, 'lon': lon})
    # a hair beside the borders, and longitudes further round the world
    for r in RES[:-1]:
        for k in (-90000 // r, 1 - 90000 // r, -1, 0, 1, 90000 // r - 1, 90000 // r):
            for ey in (-3, -2, -1, 1, 2, 3):
                if abs(k * r) == 90000 and k * ey > 0:
                    continue
                for lon in (-180000, -r, 0, r, 180000 - r, 180000, 180000 + r, 360000 - r, 360000):
                    ex = (3 * k + ey + lon // r) % 7 - 3
                    g.fixed('cell', {'lat': k * r, 'lon': lon, 'r': r, 'ey': ey, 'ex': ex})
        for lon in range(-540000, 720001, 45000):
            for d in (0, 1, -1, r, -r, 500):
                for ex in (0, -1, 1, 3, -3):
                    g.fixed('cell', {'lat': lon // 8, 'lon': max(-540000, lon + d), 'r': r, 'ey': 0, 'ex': ex if lon > -540000 and lon < 720000 else 0})
    for k in (-89500, -500, 500, 89500, 0, 30500):
        for l in (-179500, -500, 500, 179500, 0, 100500):
            for ey in (-1, 0, 1, 3):
                for ex in (-3, -1, 0, 1):
                    g.fixed('box', {'lat': k, 'lon': l, 'ey': ey, 'ex': ex})
    for _ in range(g.scale(4000)):
        r = rng.choice(RES[:-1])
        lat = r * rng.randint(1 - 90000 // r, 90000 // r - 1)
        lon = r * rng.randint(1 - 540000 // r, 720000 // r - 1)
        g.case('cell', {'lat': lat, 'lon': lon, 'r': r, 'ey': rng.randint(-3, 3), 'ex': rng.randint(-3, 3)})
        lat, lon = 500 * rng.randint(-179, 179), 500 * rng.randint(-359, 359)
        g.case('box', {'lat': lat, 'lon': lon, 'ey': rng.randint(-3, 3), 'ex': rng.randint(-3, 3)})
    for _ in range(g.scale(12000)):
        r = rng.choice(RES)
        q = rng.choice([1, 5, 250, 500, r])
        lat = max(-90000, min(90000, q * rng.randint(-90000 // q, 90000 // q) + rng.choice([0, 0, 1, -1])))
        lon = max(-180000, min(360000, q * rng.randint(-180000 // q, 360000 // q) + rng.choice([0, 0, 1, -1])))
        g.case('cell', {'lat': lat, 'lon': lon, 'r': r})
        if lon <= 180000:
            g.case('box', {'lat': lat, 'lon': lon})
