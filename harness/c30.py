"""C30: great-circle geometry (Sphere, MC_Sphere, T_Sphere)."""
import math
import spherical_geometry as s
from rt import enc, encr, call

R = 6371.0088


def deg(p):
    return p[0] / 1000., p[1] / 1000.


def other(p):
    return p[0], p[1] + (360. if p[1] < 0 else -360.)


def m(x):
    return enc(x, 1000)


def pair(v):
    p, q, r = deg(v['p']), deg(v['q']), deg(v['r'])
    d = s.sphere_distance(*(p + q))
    c = s.course_between_points(*(p + q))
    f = v['f'] / 8.
    mid = s.intermediate_point(*(p + q + (f,)))
    nan = any(math.isnan(x) for x in mid)
    there = s.lat_lon_from_course_and_distance(p[0], p[1], c, d)
    return {'d': m(d), 'ds': m(s.sphere_distance(*(q + p))), 'dc': m(s.sphere_distance(*(other(p) + q))),
            'dw': m(s.sphere_distance(*(p + other(q)))), 'zero': int(d == 0.0),
            'ang': enc(math.degrees(s.angular_distance(*(p + q))), 1000),
            'dr': m(s.sphere_distance(*(p + r))), 'rd': m(s.sphere_distance(*(r + q))),
            'c': enc(c, 1000), 'cc': enc(s.course_between_points(*(p + other(q))), 1000),
            'arr': m(s.sphere_distance(*(tuple(there) + q))),
            'm1': -1 if nan else m(s.sphere_distance(*(p + tuple(mid)))), 'm2': -1 if nan else m(s.sphere_distance(*(tuple(mid) + q))),
            'mlat': enc(mid[0], 1000), 'mlon': enc(mid[1], 1000)}


def go(v):
    p, c, d = deg(v['p']), v['c'] / 1000., math.radians(v['a'] / 1000.) * R
    q = tuple(s.lat_lon_from_course_and_distance(p[0], p[1], c, d))
    w = s.lat_lon_from_course_and_distance(other(p)[0], other(p)[1], c - 360. if c > 0 else c + 360., d)
    home = s.lat_lon_from_course_and_distance(q[0], q[1], s.course_between_points(*(q + p)), d)
    return {'lat': enc(q[0], 1000), 'lon': enc(q[1], 1000), 'lat2': enc(w[0], 1000), 'lon2': enc(w[1], 1000),
            'd': m(s.sphere_distance(*(p + q))), 'c': enc(s.course_between_points(*(p + q)), 1000),
            'home': m(s.sphere_distance(*(tuple(home) + p)))}


def near(v):
    p = deg(v['p'])
    q = (p[0] + v['dy'] / 1e6, p[1] + v['dx'] / 1e6)
    return {'d': enc(s.sphere_distance(*(p + q)), 1e6), 'ds': enc(s.sphere_distance(*(q + p)), 1e6)}


def refuse(v):
    x = {'none': None, 'nan': float('nan')}
    a = [x.get(y, y) for y in v['a']]
    return {'r': encr(call(getattr(s, v['fn']), *a))}


KINDS = {'pair': pair, 'go': go, 'near': near, 'refuse': refuse}


def generate(g):
    rng = g.rng

    def place():
        return [rng.choice([0, 90000, -90000, rng.randint(-90000, 90000), rng.randint(-90000, 90000), rng.randint(-60000, 60000), rng.choice([-1, 1]) * rng.choice([rng.randint(88000, 89999), rng.randint(89900, 89999)])]),
                rng.choice([0, 180000, -180000, 90000, rng.randint(-180000, 180000), rng.randint(-180000, 180000), rng.choice([-1, 1]) * rng.randint(179000, 179999)])]

    def other_place(p):
        x = rng.random()
        la, lo = p
        if x < 0.15:
            return list(p)
        if x < 0.35:        # same or opposite meridian
            return [rng.choice([-la, rng.randint(-90000, 90000), rng.randint(-90000, 90000)]), lo + rng.choice([0, 0, 180000, -180000])]
        if x < 0.5:
            w = rng.choice([1, 10, 100, 1000])
            return [la + rng.randint(-w, w), lo + rng.randint(-w, w)]
        if x < 0.6:         # near the antipodes
            return [-la + rng.randint(-2, 2) * 500, lo + 180000 + rng.randint(-2, 2) * 500]
        return place()

    def fit(q):
        return [max(-90000, min(90000, q[0])), (q[1] + 180000) % 360000 - 180000 if abs(q[1]) > 180000 else q[1]]
    seen = set()
    for b in g.behaviours['pair']:
        k = (tuple(b['p']), tuple(b['q']))
        if k in seen:
            continue
        seen.add(k)
        b['r'], b['f'] = [[0, 0], [45000, 45000], [-90000, 0], [0, 180000]][len(seen) % 4], len(seen) % 9
        g.fixed('pair', b)
    for b in g.behaviours['leg']:
        g.fixed('go', {'p': b['p'], 'c': b['dir'], 'a': b['a']})
    for _ in range(g.scale(5000, 80000)):
        p = place()
        if rng.random() < 0.1:
            p[0] = 0
        q = fit(other_place(p))
        if p[0] == 0 and rng.random() < 0.3:
            q[0] = 0
        g.case('pair', {'p': p, 'q': q, 'r': place() if rng.random() < 0.7 else fit(other_place(p)), 'f': rng.randint(0, 8)})
    for _ in range(g.scale(4000, 60000)):
        p = place()
        c = rng.choice([0, 90000, 180000, 270000, 360000, rng.randint(0, 360000), rng.randint(0, 360000)])
        a = rng.choice([0, 180000, 90000, rng.randint(0, 180000), rng.randint(0, 3000)])
        g.case('go', {'p': p, 'c': c, 'a': a})
    for k in range(g.scale(400, 4000)):        # as far as a pole, straight on, and past the other one
        la = rng.choice([rng.randint(-89999, 89999), rng.randint(-360, 360) * 250, 87500, -87500])
        c = rng.choice([0, 180000, 360000])
        a = 90000 + (la if c == 180000 else -la)
        g.case('go', {'p': [la, rng.choice([0, rng.randint(-180000, 180000)])], 'c': c, 'a': a})
        g.case('pair', {'p': [la, rng.randint(-180000, 180000)], 'q': [rng.choice([90000, -90000]), rng.randint(-180000, 180000)], 'r': place(), 'f': rng.randint(0, 8)})
    for _ in range(g.scale(1200, 20000)):
        p = [rng.randint(-89900, 89900), rng.randint(-180000, 180000)]
        w = rng.choice([1, 3, 30, 300])
        g.case('near', {'p': p, 'dy': rng.randint(-w, w), 'dx': rng.randint(-w, w)})
    ok = [10., 20., 30., 40.]
    for fn in ('angular_distance', 'sphere_distance', 'course_between_points'):
        for k in range(4):
            for x in ('none', 'nan'):
                g.fixed('refuse', {'fn': fn, 'a': ok[:k] + [x] + ok[k + 1:]})
    for f in (1.01, 2., 'nan'):
        g.fixed('refuse', {'fn': 'intermediate_point', 'a': ok + [f]})
