"""C20: the sun and the day tests (Sun, MC_Sun, T_Sun)."""
import calendar
import datetime
import qc
import trackqc
import Extended_IMMA as ex
from mk import report
from rt import enc, encr, call, NONE, deci, dec


def doy(y, m, d):
    return (datetime.date(y, m, d) - datetime.date(y, 1, 1)).days + 1


def angles(y, dy, mi, lat, lon):
    return qc.sunangle(y, dy, mi // 60, mi % 60, 0, 0, 0, lat, lon)


def other(lon):
    return lon + 360. if lon < 0 else lon - 360.


def sun(v):
    dy = doy(v['y'], v['m'], v['d'])
    lat, lon = v['lat'] / 100., v['lon'] / 100.
    a = angles(v['y'], dy, v['mi'], lat, lon)
    b = angles(v['y'], dy, v['mi'], lat, {0.: 360., 180.: -180.}.get(lon, lon + 360. if lon < 0 else lon))
    return {'az': enc(a[0], 1000), 'el': enc(a[1], 1000), 'dec': enc(a[5], 1000), 'el2': enc(b[1], 1000)}


def day(v):
    lat, lon = v['lat'] / 100., v['lon'] / 100.
    hr, t = v['mi'] / 60., v['t'] / 60.
    e = v['e']
    rep = report(ex.MarineReportQC, YR=v['y'], MO=v['m'], DY=v['d'], HR=hr, LAT=lat, LON=lon)
    rep.do_position_check()
    rep.do_date_check()
    rep.do_time_check()
    rep.do_day_check(t)
    el = angles(e[0], e[1], e[2], lat, lon)[1]
    r = qc.day_test(v['y'], v['m'], v['d'], hr, lat, lon, t)
    if v['t'] == 60:      # an hour is the default
        assert qc.day_test(v['y'], v['m'], v['d'], hr, lat, lon) == r, 'default'
    return {'r': enc(r), 'r2': enc(qc.day_test(v['y'], v['m'], v['d'], hr, lat, {0.: 360., 180.: -180.}.get(lon, lon + 360. if lon < 0 else lon), t)),
            'el': enc(el, 1000), 'flag': enc(rep.get_qc('POS', 'day'))}


def track(v):
    a = (v['y'], v['m'], v['d'], v['mi'] / 60., v['lat'] / 100., v['lon'] / 100.)
    return {'r': enc(trackqc.track_day_test(*(a + (v['lim'] / 10.,)))), 'dflt': enc(trackqc.track_day_test(*a)),
            'el': enc(angles(v['y'], doy(v['y'], v['m'], v['d']), v['mi'], a[4], a[5])[1], 1000)}


def refuse(v):
    return {'r': encr(call(trackqc.track_day_test, deci(v['y']), deci(v['m']), deci(v['d']), dec(v['mi'], 60.), dec(v['lat'], 100.), dec(v['lon'], 100.)))}


KINDS = {'sun': sun, 'day': day, 'track': track, 'refuse': refuse}


def earlier(y, m, d, mi, t):
    x = datetime.datetime(y, m, d) + datetime.timedelta(minutes=mi - t)
    return [x.year, doy(x.year, x.month, x.day), x.hour * 60 + x.minute]


def generate(g):
    rng = g.rng

    def date():
        y = rng.choice([rng.randint(1851, 2024), 1899, 1900, 1901, 1976, 1979, 1980, 2000, 2024])
        m = rng.randint(1, 12)
        n = calendar.monthrange(y, m)[1]
        return y, m, rng.choice([1, n, rng.randint(1, n)])

    def place():
        return (rng.choice([0, 9000, -9000, rng.randint(-9000, 9000), rng.randint(-6000, 6000)]),
                rng.choice([0, 18000, -18000, rng.randint(-18000, 18000)]))

    def horizon(y, m, d, mi, t, lat, want=0.):
        """a longitude at which the sun stands at the wanted elevation t minutes earlier, if any"""
        e = earlier(y, m, d, mi, t)
        f = lambda k: angles(e[0], e[1], e[2], lat / 100., k / 100. if k else 0.0001)[1] - want
        a = rng.randint(-18000, 17000)
        for b in range(a + 1500, 18001, 1500):
            if f(a) * f(b) < 0:
                while b - a > 1:
                    c = (a + b) // 2
                    a, b = (c, b) if f(a) * f(c) > 0 else (a, c)
                return rng.choice([a, b, max(-18000, a - 5), min(18000, b + 5)])
            a = b
        return rng.randint(-18000, 18000)

    for b in g.behaviours['day']:
        for _ in range(2):
            b = dict(b)
            b['lat'], b['lon'] = place()
            if rng.random() < 0.5:
                b['lon'] = horizon(b['y'], b['m'], b['d'], b['mi'], b['t'], b['lat'])
            b['e'] = earlier(b['y'], b['m'], b['d'], b['mi'], b['t'])
            g.fixed('day', b)
    for _ in range(g.scale(3000, 60000)):
        y, m, d = date()
        lat, lon = place()
        g.case('sun', {'y': y, 'm': m, 'd': d, 'mi': rng.choice([0, 1439, 720, rng.randint(0, 1439)]), 'lat': lat, 'lon': lon})
    for _ in range(g.scale(2500, 40000)):
        y, m, d = date()
        mi = rng.choice([0, 30, 1425, 15 * rng.randint(0, 95), 15 * rng.randint(0, 8)])
        t = rng.choice([60, 60, 60, 0, 120, 180, 720, 1380, 1440, 30 * rng.randint(0, 48)])
        lat, lon = place()
        if rng.random() < 0.6:
            lon = horizon(y, m, d, mi, t, lat)
        g.case('day', {'y': y, 'm': m, 'd': d, 'mi': mi, 't': t, 'lat': lat, 'lon': lon, 'e': earlier(y, m, d, mi, t)})
    for _ in range(g.scale(400, 4000)):      # the sun at the horizon across a border of a year or of February
        y = rng.choice([1853, 1880, 1900, 1901, 1904, 1957, 1979, 1980, 1981, 2000, 2001, 2005, 2013, 2024])
        m = rng.choice([1, 1, 1, 3])
        mi, t = rng.choice([(0, 60), (30, 60), (15, 120), (60, 720)])
        lat = 100 * rng.randint(-65, 65)
        g.case('day', {'y': y, 'm': m, 'd': 1, 'mi': mi, 't': t, 'lat': lat, 'lon': horizon(y, m, 1, mi, t, lat), 'e': earlier(y, m, 1, mi, t)})
    for _ in range(g.scale(2000, 30000)):
        y, m, d = date()
        mi = 15 * rng.randint(0, 95)
        lim = rng.choice([-25, -25, 0, -60, 100, rng.randint(-300, 300)])
        lat, lon = place()
        if rng.random() < 0.6:
            lon = horizon(y, m, d, mi, 0, lat, lim / 10.)
        g.case('track', {'y': y, 'm': m, 'd': d, 'mi': mi, 'lim': lim, 'lat': lat, 'lon': lon})
    ok = {'y': 2003, 'm': 6, 'd': 10, 'mi': 600, 'lat': 1000, 'lon': 2000}
    for k in ok:
        g.fixed('refuse', dict(ok, **{k: NONE}))
    for k, x in (('m', 0), ('m', 13), ('d', 0), ('d', 32), ('mi', -15), ('mi', 1500), ('lat', 9001), ('lat', -9001), ('d', 31)):
        if (k, x) != ('d', 31):
            g.fixed('refuse', dict(ok, **{k: x}))
