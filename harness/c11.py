"""C11: climatology lookup (ClimField, T_ClimField)."""
import os
import numpy as np
import qc
import Climatology as cl
import Extended_IMMA as ex
from mk import report
from rt import NONE, enc, encr, call, deci

CACHE = {}


def field(n, ny, dtype=np.float64):
    """The test field of the specification: rows from the north, columns from 180W."""
    nx = 2 * ny
    t, y, x = np.ogrid[0:n, 0:ny, 0:nx]
    val = ((t * ny + y) * nx + x) % 1000003 - 500
    mask = (t + 2 * y + 3 * x) % 7 == 0
    return np.ma.array(val.astype(dtype), mask=np.broadcast_to(mask, val.shape))


def get(n, ny):
    if (n, ny) not in CACHE:
        CACHE[(n, ny)] = field(n, ny)
    return CACHE[(n, ny)]


class Lazy(object):
    """A quarter degree daily field, computed on demand."""
    def __getitem__(self, k):
        d, z, y, x = k
        assert z == 0
        if not (0 <= d < 365 and 0 <= y < 720 and 0 <= x < 1440):
            raise IndexError(k)
        if (d + 2 * y + 3 * x) % 7 == 0:
            return -999
        return np.float64(((d * 720 + y) * 1440 + x) % 1000003 - 500)


def look(v):
    lat, lon, mo, dy = v['lat'] / 1000.0, v['lon'] / 1000.0, v['mo'], deci(v['dy'])
    via, how = v['via'], v['how']
    if via == 'hires':
        return {'v': enc(qc.get_hires_clim(report(LAT=lat, LON=lon, MO=mo, DY=dy), Lazy()))}
    f = get(v['n'], v['ny'])
    if via == 'qc':
        return {'v': enc(qc.get_clim(report(LAT=lat, LON=lon, MO=mo, DY=dy), f))}
    if via == 'daily':
        return {'v': enc(qc.get_sst_daily(lat, lon, mo, dy, f))}
    c = cl.Climatology(f)
    if via == 'ostia':
        return {'v': enc(c.get_value_ostia(lat, lon))}
    if how == 'mds':
        return {'v': enc(c.get_value_mds_style(lat, lon, mo, dy))}
    return {'v': enc(c.get_value(lat, lon, mo, dy))}


def looks(v):
    """One climatology asked again and again."""
    c = cl.Climatology(get(v['n'], v['ny']))
    out = []
    for q in v['seq']:
        f = c.get_value_mds_style if q['how'] == 'mds' else c.get_value
        out.append(enc(f(q['lat'] / 1000.0, q['lon'] / 1000.0, q['mo'], q['dy'])))
    return {'v': out}


def file(v):
    from netCDF4 import Dataset
    n, ny = v['n'], v['ny']
    nx = 2 * ny
    r = 180.0 / ny
    lat = 90.0 - (np.arange(ny) + 0.5) * r
    lon = -180.0 + (np.arange(nx) + 0.5) * r
    f = field(n, ny)
    if v['south']:
        f, lat = f[:, ::-1, :], lat[::-1]
    if v['east']:
        lon = np.concatenate([lon[nx // 2:], lon[:nx // 2] + 360.0])
        f = np.ma.concatenate([f[:, :, nx // 2:], f[:, :, :nx // 2]], axis=2)
    fn = os.path.join(os.environ['SCRATCH'], 'clim.nc')
    if os.path.exists(fn):
        os.unlink(fn)
    d = Dataset(fn, 'w', format='NETCDF4' if v['nc4'] else 'NETCDF3_CLASSIC')
    d.createDimension('time', n)
    d.createDimension('lat', ny)
    d.createDimension('lon', nx)
    d.createDimension('lev', 1)
    d.createVariable(v['latname'], 'f8', ('lat',))[:] = lat
    d.createVariable(v['lonname'], 'f8', ('lon',))[:] = lon
    dims, data = ('time', 'lat', 'lon'), f
    if v['transposed']:
        dims, data = ('time', 'lon', 'lat'), f.transpose(0, 2, 1)
    if v['lev']:
        dims, data = (dims[0], 'lev') + dims[1:], data[:, None, :, :]
    for name, add in (('sst', 0), ('other', 1)):
        x = d.createVariable(name, v['type'], dims, fill_value=-32768 if v['type'] == 'f4' else -1e30)
        x[:] = data + add
    d.close()
    c = cl.Climatology.from_filename(fn, 'sst')
    os.unlink(fn)
    out = []
    for p in v['probe']:
        # a date of the time slice
        mo, dy = 1, 1
        if n == 73:
            mo, dy = qc.pentad_to_month_day(p['t'] + 1)
        elif n == 365:
            left = p['t'] + 1
            for mo, ln in enumerate([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31], 1):
                if left <= [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]:
                    break
                left -= [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]
            dy = left
        out.append(enc(c.get_value(p['lat'] / 1000.0, p['lon'] / 1000.0, mo, dy)))
    return {'n': enc(c.n), 'ny': enc(c.field.shape[1]), 'v': out}


def absent(v):
    if 'none' not in CACHE:
        CACHE['none'] = cl.Climatology.from_filename(None, 'sst')
    c = CACHE['none']
    lat, lon = v['lat'] / 1000.0, v['lon'] / 1000.0
    return {'v': enc(c.get_value_ostia(lat, lon) if v['how'] == 'ostia' else c.get_value(lat, lon, v['mo'], v['dy']))}


def lib(v):
    L = ex.ClimatologyLibrary()
    for a, s, x in v['ops']:
        L.add_field(a, s, x)
    return {'got': [[a, s, encr(call(L.get_field, a, s))] for a in ('SST', 'AT', 'DPT') for s in ('mean', 'stdev', 'bg')]}


KINDS = {'look': look, 'looks': looks, 'file': file, 'absent': absent, 'lib': lib}
ML = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def generate(g):
    rng = g.rng
    for h in g.behaviours.get('lib', []):
        g.fixed('lib', {'ops': h})
    # every day of the year, and impossible ones
    days = [(m, d) for m in range(1, 13) for d in range(1, ML[m - 1] + 1)]
    days += [(m, d) for m in range(1, 13) for d in (0, ML[m - 1] + 1, 32, -1, NONE)] + [(0, 1), (13, 1), (-1, 5)]
    for k, (m, d) in enumerate(days):
        for n, ny in ((365, 36), (73, 36), (1, 36)):
            lat, lon = (k * 4999) % 180001 - 90000, (k * 7001) % 360001 - 180000
            g.fixed('look', {'via': 'clim', 'how': 'get', 'n': n, 'ny': ny, 'lat': lat, 'lon': lon, 'mo': m, 'dy': d})
        g.fixed('look', {'via': 'clim', 'how': 'mds', 'n': 73, 'ny': 180, 'lat': (k * 4999) % 180001 - 90000, 'lon': (k * 7001) % 360001 - 180000, 'mo': m, 'dy': d})
        g.fixed('look', {'via': 'hires', 'how': 'get', 'n': 365, 'ny': 720, 'lat': (k * 4999) % 180001 - 90000, 'lon': (k * 7001) % 360001 - 180000, 'mo': m, 'dy': d})
        g.fixed('look', {'via': 'qc', 'how': 'get', 'n': 73, 'ny': 180, 'lat': (k * 4999) % 180001 - 90000, 'lon': (k * 7001) % 360001 - 180000, 'mo': m, 'dy': d})
    lats = [-90000, -89999, -89500, -45000, -1000, -500, -1, 0, 1, 500, 1000, 45000, 89500, 89999, 90000]
    lons = [-180000, -179999, -179500, -1000, -500, -1, 0, 1, 500, 1000, 179500, 179999, 180000]
    for a in lats:
        for o in lons:
            for via, how, n, ny in (('clim', 'get', 1, 180), ('clim', 'mds', 1, 180), ('clim', 'mds', 73, 180), ('clim', 'get', 1, 720), ('qc', 'get', 1, 180), ('qc', 'get', 73, 180)):
                g.fixed('look', {'via': via, 'how': how, 'n': n, 'ny': ny, 'lat': a, 'lon': o, 'mo': 7, 'dy': 4})
    for o in (180001, 180500, 270000, 359000, 359999, 360000):
        for a in lats[::3]:
            for n, ny in ((1, 180), (73, 36), (1, 720)):
                g.fixed('look', {'via': 'clim', 'how': 'get', 'n': n, 'ny': ny, 'lat': a, 'lon': o, 'mo': 2, 'dy': 29})
    # values that could be taken for missing ones
    for k in list(range(0, 60)) + list(range(380, 420)) + list(range(490, 510)):
        g.fixed('look', {'via': 'hires', 'how': 'get', 'n': 365, 'ny': 720, 'lat': 89900, 'lon': 250 * k + 100 - 180000, 'mo': 1, 'dy': 1})
        for via, how, n, ny in (('clim', 'get', 1, 36), ('clim', 'get', 365, 36), ('clim', 'mds', 73, 180), ('clim', 'get', 1, 720), ('qc', 'get', 73, 180)):
            y, x = k // (2 * ny), k % (2 * ny)
            c = 180000 // ny
            g.fixed('look', {'via': via, 'how': how, 'n': n, 'ny': ny, 'lat': 90000 - y * c - c // 3, 'lon': x * c + c // 3 - 180000, 'mo': 1, 'dy': 1})
    # file layouts
    for south in (0, 1):
        for east in (0, 1):
            for lev in (0, 1):
                for n, ny, tr in ((1, 180, 0), (1, 180, 1), (73, 180, 0), (365, 90, 0), (1, 90, 0), (73, 360, 0)) if g.thorough else ((1, 180, 0), (1, 180, 1), (73, 90, 0), (1, 90, 0)):
                    if east and ny < 180:
                        # cell centres from 1E: not a layout that starts next to zero
                        continue
                    probe = [{'t': rng.randint(0, n - 1), 'lat': 500 * rng.randint(-179, 179) + 250, 'lon': 500 * rng.randint(-359, 359) + 250} for _ in range(40)]
                    g.fixed('file', {'n': n, 'ny': ny, 'south': south, 'east': east, 'lev': lev, 'transposed': tr, 'type': 'f8' if rng.random() < .5 else 'f4',
                                     'nc4': rng.randint(0, 1), 'latname': rng.choice(['lat', 'lats', 'latitude', 'latitudes']),
                                     'lonname': rng.choice(['lon', 'lons', 'long', 'longs', 'longitude', 'longitudes']), 'probe': probe})
    if g.shard == 0:
        for a in lats:
            for how in ('ostia', 'get'):
                g.case('absent', {'lat': a + (25 if a % 1000 == 0 and abs(a) < 90000 else 0), 'lon': 2 * a, 'mo': 3, 'dy': 9, 'how': how})
    for _ in range(g.scale(2000)):
        m = rng.randint(1, 12)
        n, ny = rng.choice([(1, 36), (73, 36), (365, 36), (1, 180), (73, 180), (1, 720)])
        via, how = 'clim', 'get'
        if ny == 180:
            how = rng.choice(['get', 'mds'])
            via = rng.choice(['clim', 'qc']) if how == 'get' else 'clim'
        q = rng.choice([1, 250, 500, 1000])
        g.case('look', {'via': via, 'how': how, 'n': n, 'ny': ny, 'lat': q * rng.randint(-90000 // q, 90000 // q), 'lon': q * rng.randint(-180000 // q, 180000 // q),
                        'mo': m, 'dy': rng.randint(1, ML[m - 1])})
    for k in range(g.scale(240)):
        n, ny = rng.choice([(1, 36), (73, 36), (365, 36), (365, 36), (73, 180)])
        lats = [250 * rng.randint(-360, 360) for _ in range(rng.choice([1, 1, 2]))]
        lons = [250 * rng.randint(-720, 720) for _ in range(rng.choice([1, 1, 2]))]
        m, d = rng.randint(1, 12), rng.randint(1, 31)
        seq = []
        for _ in range(rng.randint(2, 12)):
            x = rng.random()
            if x < 0.5:
                d = (d + rng.choice([1, 1, -1, 2, 5]) - 1) % 31 + 1
            elif x < 0.75:
                m = (m + rng.choice([1, -1, 6]) - 1) % 12 + 1
            elif x < 0.85:
                m, d = rng.choice([(2, 28), (2, 29), (3, 1), (12, 31), (1, 1)])
            seq.append({'how': rng.choice(['get', 'mds']) if ny == 180 else 'get', 'lat': rng.choice(lats), 'lon': rng.choice(lons), 'mo': m, 'dy': d})
        g.case('looks', {'n': n, 'ny': ny, 'seq': seq})
    if g.shard == g.nshards - 1:
        CACHE.clear()
        for m, d in [(2, 28), (2, 29), (3, 1), (12, 31), (1, 1)]:
            for _ in range(4):
                g.case('look', {'via': 'clim', 'how': 'mds', 'n': 365, 'ny': 180, 'lat': 250 * rng.randint(-360, 360), 'lon': 250 * rng.randint(-720, 720), 'mo': m, 'dy': d})
        for _ in range(300):
            m = rng.randint(1, 12)
            g.case('look', {'via': 'daily', 'how': 'mds', 'n': 365, 'ny': 180, 'lat': 250 * rng.randint(-360, 360), 'lon': 250 * rng.randint(-720, 720), 'mo': m, 'dy': rng.randint(1, ML[m - 1])})
    if g.shard == 1 % g.nshards:
        CACHE.clear()
        for _ in range(300):
            # not on the borders of the 0.05 degree cells
            g.case('look', {'via': 'ostia', 'how': 'mds', 'n': 1, 'ny': 3600, 'lat': 50 * rng.randint(-1800, 1799) + rng.randint(1, 49),
                            'lon': 50 * rng.randint(-3600, 3599) + rng.randint(1, 49), 'mo': 1, 'dy': 1})
