"""C14, C15: the buddy checks of a Deck (BuddyCheck, T_BuddyCheck).  Values and norms in 1/8."""
import Extended_IMMA as ex
from c13 import sdfield, limits, rep_of, at, random_params, random_reps, P0
from rt import enc, NONE

TARGET = {'mds': 'bud', 'bayes': 'bbud'}
SCALARS = ['ID', 'LAT', 'LON', 'YR', 'MO', 'DY', 'HR', 'SST', 'AT', 'DPT', 'SLP']


def build(v):
    reps = []
    for k, r in enumerate(v['reps']):
        rep = rep_of(r, ID='S%d' % (k % 3), UID='U%d' % k)
        if r['val'] != NONE:
            rep.setvar(v['var'], r['val'] / 8.0)
        if r['norm'] != NONE:
            rep.add_climate_variable(v['var'], r['norm'] / 8.0)
        else:
            rep.add_climate_variable(v['var'], None)
        for t, n, x in r['fl']:
            rep.set_qc(t, n, x)
        reps.append(rep)
    return reps


def state(rep, var):
    return [rep.getvar(s) for s in SCALARS] + [rep.getnorm(var), sorted((k, x) for k, x in rep.qc.items() if not k.endswith(('bud',))) if isinstance(rep.qc, dict) else 0]


def run(v, order, name):
    reps = build(v)
    d = ex.Deck()
    for k in order:
        d.append(reps[k])
    f = ex.QC_filter()
    for t, n, x in v['filt']:
        f.add_qc_filter(t, n, x)
    d.add_filter(f)
    p = v['p']
    watch = sorted({(t, n) for r in v['reps'] for t, n, x in r['fl']} - {(v['var'], name)})

    def see():
        return [[r.getvar(s) for s in SCALARS] + [r.getnorm(v['var'])] + [r.get_qc(*w) for w in watch] for r in reps]

    def check():
        if name == 'bud':
            lims, thr, mult = limits(p)
            d.mds_buddy_check(v['var'], sdfield(0, p['n']), {'limits': lims, 'number_of_obs_thresholds': thr, 'multipliers': mult})
        else:
            d.bayesian_buddy_check(v['var'], sdfield(1, p['n']), sdfield(2, p['n']), sdfield(3, p['n']),
                                   {'bayesian_buddy_check': {'prior_probability_of_gross_error': p['pa'] / float(p['pb']), 'quantization_interval': p['q'] / 8.0,
                                                             'measurement_error': p['sm'] / 2.0, 'limits': p['blim'], 'noise_scaling': float(p['ns'])},
                                    v['var']: {'maximum_anomaly': p['rh'] / 8.0}})
        return [enc(r.get_qc(v['var'], name)) for r in reps]
    if v['again']:       # once before, with fewer reports let through
        g = ex.QC_filter()
        for t, n, x in v['filt'] + [['POS', 'earlier', 0]]:
            g.add_qc_filter(t, n, x)
        for k, r in enumerate(reps):
            r.set_qc('POS', 'earlier', k % 2)
        d.add_filter(g)
        check()
        d.add_filter(f)
    before = see()
    one = check()
    rest = see() == before and d.reps == [reps[k] for k in order]
    return one, rest, check


def deck(v):
    name = 'bbud' if v['bayes'] else 'bud'
    f, rest, check = run(v, range(len(v['reps'])), name)
    again = check() if v['again'] else f
    perm, rest2, _ = run(v, v['perm'], name)
    return {'f': f, 'perm': perm, 'again': again, 'rest': int(rest and rest2)}


FILTERS = [[], [['POS', 'pos', 0]], [['POS', 'date', 0], ['POS', 'trk', 0], ['@', 'noval', 0], ['@', 'clim', 0], ['@', 'nonorm', 0]],
           [['POS', 'is780', 0], ['@', 'noval', 0], ['@', 'nonorm', 0], ['@', 'freez', 0]], [['POS', 'isship', 1], ['@', 'nonorm', 0]]]


def dress(rng, reps, var, vary=True, maxan=64, ineligible=.3):
    """Turn anomalies into values and norms, and give flags so that some reports do not pass."""
    filt = [[var if t == '@' else t, n, x] for t, n, x in rng.choice(FILTERS)]
    out = []
    for r in reps:
        an = max(-maxan, min(maxan, r['an']))
        norm = rng.randint(-16, 240)
        q = dict(r, val=norm + an, norm=norm, fl=[])
        del q['an']
        fl = {}
        for t, n, x in filt:
            fl[(t, n)] = x
        bad = filt and rng.random() < ineligible
        if bad:
            t, n, x = rng.choice(filt)
            fl[(t, n)] = rng.choice([1 - x, 9, 5])
            if fl[(t, n)] == 9 and rng.random() < .5:
                del fl[(t, n)]
            if rng.random() < .4:
                q[rng.choice(['val', 'norm'])] = NONE
            elif rng.random() < .5:
                q['val'] = norm + rng.choice([-1, 1]) * rng.choice([0, 80, 800, 8000])
        # earlier flags that have to go, and others that must stay
        if rng.random() < .3:
            fl[(var, rng.choice(['bud', 'bbud']))] = rng.choice([0, 1, 7])
        if rng.random() < .2:
            fl[('POS', 'blklst')] = rng.choice([0, 1])
        if rng.random() < .2:
            fl[('SLP', 'bud')] = 3
        q['fl'] = [[t, n, x] for (t, n), x in sorted(fl.items())]
        if ('SLP', 'bud') in fl and var == 'SLP':
            q['fl'] = [z for z in q['fl'] if z[:2] != ['SLP', 'bud']]
        out.append(q)
    return out, filt


def case(g, kind, rng, reps, p, var, fixed=False, ineligible=.3):
    if not reps:
        return
    reps, filt = dress(rng, reps, var, maxan=p['rh'], ineligible=ineligible)
    perm = list(range(len(reps)))
    rng.shuffle(perm)
    g.case(kind, {'reps': reps, 'filt': filt, 'p': p, 'var': var, 'perm': perm, 'bayes': int(kind == 'bayes'),
                  'again': int(rng.random() < .2), 'tol': 4})


def from_model(g, kind, p):
    for k, h in enumerate(g.behaviours.get('deck', [])):
        if not g.thorough and k % 3 != (kind == 'bayes'):
            continue
        var = ['SST', 'AT', 'DPT', 'SLP'][k % (2 if kind == 'bayes' else 4)]
        reps = []
        for j, x in enumerate(h):
            r = at(x['c'], 0, k + j)
            del r['an']
            reps.append(dict(r, val=80 + x['an'], norm=80, fl=[[var, 'noval', 1 - x['el']]]))
        n = len(reps)
        g.fixed(kind, {'reps': reps, 'filt': [[var, 'noval', 0]], 'p': p, 'var': var, 'perm': [(j + 1) % n for j in range(n)],
                       'bayes': int(kind == 'bayes'), 'again': 0, 'tol': 4})
