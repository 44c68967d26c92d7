"""C05: position, date and time checks (BasicChecks, T_BasicChecks)."""
import numpy as np
import qc
import Extended_IMMA as ex
from mk import Rec
from rt import NONE, enc, encr, call


def nudge(x, e, k):
    """x, or the least bit (or a very little) beside it"""
    if e == 0 or x is None:
        return x
    return float(np.nextafter(x, e * np.inf)) if k == 0 else x + e * [1e-9, 1e-5][k - 1]


def basic(v):
    k = v.get('size', 0)
    lat, lon = nudge(v['lat'] / 100.0, v.get('elat', 0), k), nudge(v['lon'] / 100.0, v.get('elon', 0), k)
    dy = None if v['dy'] == NONE else v['dy']
    hr = nudge(None if v['hr'] == NONE else v['hr'] / 120.0, v.get('ehr', 0), k)
    out = {'p': encr(call(qc.position_check, lat, lon)), 'd': encr(call(qc.date_check, v['yr'], v['mo'], dy)),
           't': encr(call(qc.time_check, hr))}
    r = ex.MarineReportQC(Rec({'ID': 'A', 'UID': 'u', 'LAT': lat, 'LON': lon, 'YR': v['yr'], 'MO': v['mo'], 'DY': dy, 'HR': hr}))
    r.do_position_check()
    r.do_date_check()
    r.do_time_check()
    since = v.get('since', 1)
    r.do_day_check(float(since))
    out.update({'fp': enc(r.get_qc('POS', 'pos')), 'fd': enc(r.get_qc('POS', 'date')),
                'ft': enc(r.get_qc('POS', 'time')), 'day': enc(r.get_qc('POS', 'day'))})
    out['daytest'] = NONE
    if out['p'] == 0 and out['d'] == 0 and out['t'] == 0:
        out['daytest'] = encr(call(qc.day_test, v['yr'], v['mo'], dy, hr, r.lat(), r.lon(), float(since)))
    return out


KINDS = {'basic': basic}


def generate(g):
    for v in g.behaviours.get('basic', []):
        g.fixed('basic', v)
    # every day-of-month from -1 to 33 of every month from -13 to 25 of some years
    for y in [1849, 1850, 1851, 1852, 1896, 1900, 1904, 1999, 2000, 2001, 2020, 2023, 2024, 2025, 2100, 1600]:
        for m in list(range(-13, 26)) if y in (1900, 2000, 2001) else list(range(0, 14)):
            for d in list(range(-1, 34)) + [NONE]:
                g.fixed('basic', {'lat': -500, 'lon': 20000, 'yr': y, 'mo': m, 'dy': d, 'hr': 1320})
    for k in range(3):
        for e in (-1, 0, 1):
            for lat in (-9000, 9000, 0):
                for lon in (-18000, 36000, 18000, 0):
                    g.fixed('basic', {'lat': lat, 'elat': e, 'lon': lon, 'elon': -e, 'size': k, 'yr': 2004, 'mo': 2, 'dy': 29, 'hr': 1320})
                    g.fixed('basic', {'lat': lat, 'elat': 0, 'lon': lon, 'elon': e, 'size': k, 'yr': 2004, 'mo': 2, 'dy': 29, 'hr': 1320})
                    g.fixed('basic', {'lat': lat, 'elat': e, 'lon': lon, 'elon': 0, 'size': k, 'yr': 2004, 'mo': 2, 'dy': 29, 'hr': 1320})
            for hr in (0, 2880, 120):
                g.fixed('basic', {'lat': -500, 'lon': 20000, 'yr': 2004, 'mo': 2, 'dy': 29, 'hr': hr, 'ehr': e, 'size': k})
    rng = g.rng
    for _ in range(g.scale(4000)):
        g.case('basic', {
            'lat': rng.choice([-9000, 9000, 8999, -8999, 9001, -9001, 0, 12000, -20000]) if rng.random() < 0.4 else rng.randint(-9000, 9000),
            'lon': rng.choice([-18000, 36000, -18001, 36001, 18000, 18001, 0, 40000, -36000]) if rng.random() < 0.4 else rng.randint(-18000, 36000),
            'yr': rng.randint(1845, 2030), 'mo': rng.choice([0, 13, 12, 1, 2, 2]) if rng.random() < 0.3 else rng.randint(1, 12),
            'dy': rng.choice([0, 28, 29, 30, 31, 32, NONE]) if rng.random() < 0.4 else rng.randint(1, 28),
            'hr': rng.choice([0, -1, 2880, 2879, NONE, 5000, -2880]) if rng.random() < 0.3 else rng.randint(0, 2879),
            'since': rng.choice([0, 1, 1, 2, 5])})
