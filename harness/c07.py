"""C07: checks of single values (ValueChecks, T_ValueChecks).  Units of 1/8."""
import qc
from rt import NONE, enc, dec, deci


def d8(x):
    return dec(x, 8)


def val(v):
    x, c, sd = d8(v['v']), d8(v['c']), d8(v['sd'])
    if x is not None:
        x += v.get('e', 0) * 1e-9
    a, b, lim = d8(v['a']), d8(v['b']), d8(v['lim'])
    return {'noval': enc(qc.value_check(x)), 'nonorm': enc(qc.no_normal_check(c)),
            'hard': enc(qc.hard_limit(x, [a, b])), 'clim': enc(qc.climatology_check(x, c, lim)),
            'std': enc(qc.climatology_plus_stdev_check(x, c, sd, [a + 0.125, b + 0.125], lim)),
            'low': enc(qc.climatology_plus_stdev_with_lowbar(x, c, sd, lim, a)) if sd != 0 else NONE,
            'ssat': enc(qc.supersat_check(x, c))}


def freez(v):
    return {'f': enc(qc.sst_freeze_check(d8(v['v']) if v['v'] == NONE else d8(v['v']) + v['e'] * 1e-9, d8(v['unc']), d8(v['fp']), d8(v['n']))),
            'fd': enc(qc.sst_freeze_check(dec(v['c'], 100)))}


def wind(v):
    return {'w': enc(qc.wind_consistency(d8(v['w']), deci(v['d']), d8(v['lim'])))}


KINDS = {'val': val, 'freez': freez, 'wind': wind}


def generate(g):
    for v in g.behaviours.get('val', []):
        g.fixed('val', v)
    for d in [NONE, 0, 1, 90, 180, 359, 360, 361, 362, 363]:
        for w in [NONE, 0, 1, 8, 39, 40, 41, 80, 400]:
            for lim in (8, 40):
                g.fixed('wind', {'w': w, 'd': d, 'lim': lim})
    for x in [NONE] + list(range(-40, 20, 1)):
        for unc, fp, n in ((0, -14, 16), (8, -14, 16), (2, -15, 8), (4, 0, 24), (3, -16, 4)):
            for e in (-1, 0, 1):
                g.fixed('freez', {'e': e, 'v': x, 'unc': unc, 'fp': fp, 'n': n, 'c': x if x == NONE else -180 + x // 2})
    rng = g.rng
    for _ in range(g.scale(6000)):
        a = rng.randint(0, 60)
        c = rng.randint(-400, 400)
        lim = rng.randint(1, 80)
        sd = rng.choice([0, 1, 2, 4, 8, 12, 16, 20, 24, 40])
        off = rng.choice([lim, lim + 1, lim - 1, lim * sd // 8, lim * sd // 8 + 1, lim * sd // 8 - 1, a, a + 1, rng.randint(0, 400)])
        x = c + rng.choice([-1, 1]) * off
        v = {'v': x, 'e': rng.choice([0, 0, -1, 1]), 'c': c, 'sd': sd, 'lim': lim, 'a': a, 'b': a + rng.randint(1, 40)}
        for k in ('v', 'c', 'sd'):
            if rng.random() < 0.05:
                v[k] = NONE
        g.case('val', v)
