"""C31: humidity variables (Humidity, MC_Humidity, T_Humidity)."""
import CalcHums as c
import Extended_IMMA as ex
from mk import report
from rt import enc, encr, call, NONE, dec

FIVE = ['SHU', 'VAP', 'CRH', 'CWB', 'DPD']


def air(v):
    td, t, p = v['td'] / 10., v['t'] / 10., v['p'] / 10.
    e, q = c.vap(td, t, p, False), c.sh(td, t, p, False)
    return {'vap': enc(e, 1e6), 'sh': enc(q, 1e4), 'rh': enc(c.rh(td, t, p, False), 1e4), 'wb': enc(c.wb(td, t, p, False), 1e3),
            'dpd': enc(c.dpd(td, t, False), 1e3),
            'vap1': enc(c.vap(td, t, p), 10), 'sh1': enc(c.sh(td, t, p), 10), 'rh1': enc(c.rh(td, t, p), 10),
            'wb1': enc(c.wb(td, t, p), 10), 'dpd1': enc(c.dpd(td, t), 10),
            'vap2': enc(c.vap_from_sh(q, p, False), 1e6), 'sh2': enc(c.sh_from_vap(e, p, False), 1e4),
            'vap3': enc(c.vap_from_sh(q, p), 10), 'sh3': enc(c.sh_from_vap(e, p), 10),
            'td': enc(c.td_from_vap(e, p, t, False), 1e3), 'td1': enc(c.td_from_vap(e, p, t), 10)}


def missing(v):
    td, t, p = dec(v['td'], 10.), dec(v['t'], 10.), dec(v['p'], 10.)
    return {'vap': enc(c.vap(td, t, p)), 'sh': enc(c.sh(td, t, p)), 'rh': enc(c.rh(td, t, p)), 'wb': enc(c.wb(td, t, p)), 'dpd': enc(c.dpd(td, t))}


def rep(v):
    r = report(ex.MarineReport if v['cls'] else ex.MarineReportQC, AT=dec(v['t'], 10.), DPT=dec(v['td'], 10.))
    r.add_climate_variable('SLP', dec(v['p'], 10.))
    if v['before']:
        for x in FIVE:
            r.setvar(x, 7.)
    r.calculate_humidity_variables([FIVE[(k + v['rot']) % 5] for k in range(5)])
    return {x: enc(r.getvar(x), 10) for x in FIVE}


def refuse(v):
    r = report(ex.MarineReport, AT=5., DPT=4.)
    r.add_climate_variable('SLP', 1000.)
    return {'r': encr(call(r.calculate_humidity_variables, v['names']))}


KINDS = {'air': air, 'missing': missing, 'report': rep, 'refuse': refuse}


def generate(g):
    rng = g.rng
    for b in g.behaviours['air']:
        g.fixed('air', b)
    for _ in range(g.scale(4000, 60000)):
        t = rng.choice([rng.randint(-400, 450), rng.randint(-60, 60), rng.randint(-800, 650), 0])
        td = max(-800, t - rng.choice([0, 1, rng.randint(0, 30), rng.randint(0, 300), -rng.randint(1, 20)]))
        td = min(td, 650)
        g.case('air', {'td': td, 't': t, 'p': rng.choice([10130, 10000, rng.randint(8700, 10700)])})
    for k in range(1, 8):
        for td, t, p in ((50, 100, 10130), (-50, -20, 9900), (0, 0, 10130)):
            g.fixed('missing', {'td': NONE if k & 1 else td, 't': NONE if k & 2 else t, 'p': NONE if k & 4 else p})
    for _ in range(g.scale(1500, 20000)):
        t = rng.choice([rng.randint(-400, 450), rng.randint(-60, 60)])
        td = t - rng.choice([0, rng.randint(0, 30), rng.randint(0, 300), -rng.randint(1, 60), -rng.randint(1, 150)])
        td = max(-800, min(td, 650))
        v = {'td': td, 't': t, 'p': rng.choice([10130, rng.randint(8700, 10700)])}
        if rng.random() < 0.3:      # look for a relative humidity next to the limit
            f = lambda d: c.rh(d / 10., t / 10., v['p'] / 10., False)
            td = t
            while f(td) < 150. and td < 640:
                td += 1
            v['td'] = td - rng.choice([0, 1])
        for x in ('td', 't', 'p'):
            if rng.random() < 0.1:
                v[x] = NONE
        v['before'], v['rot'], v['cls'] = rng.randint(0, 1), rng.randint(0, 4), rng.randint(0, 1)
        g.case('report', v)
    for n in (['AT'], FIVE + ['SST'], ['SHU', 'shu'], ['RH']):
        g.fixed('refuse', {'names': n})
