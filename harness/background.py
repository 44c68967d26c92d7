"""C23, C24: sea temperatures of drifters against a background (Background, T_Background).
Times in 1/32 day, temperatures in 1/8 K, variances in 1/64 K^2, ice in 1/100."""
import Extended_IMMA as ex
import trackqc as tqc
from mk import report
from rt import NONE, enc
from removal import when

SCALARS = ['ID', 'LAT', 'LON', 'YR', 'MO', 'DY', 'HR', 'SST', 'PT']
NAMES = {'tail': ['drf_tail1', 'drf_tail2'], 'rec': ['drf_bias', 'drf_noise', 'drf_short']}


def back(v):
    voy = ex.Voyage()
    reps = []
    p = v['p']
    names = NAMES[v['what']]
    for k, r in enumerate(v['reps']):
        w = when(45 * r['t'], v['yr'])
        lon = (12 - w['HR']) * 15 + {0: 180, 1: 0, 9: r['lon']}[r['day']]
        lon = (lon + 180) % 360 - 180
        if v['off'] and lon < 0:
            lon += 360
        rep = report(UID='U%d' % k, ID='DRIFT', PT=v['pt'], SST=r['sst'] / 8.0, LAT=r['lat'] / 1.0, LON=lon, **w)
        rep.setext('OSTIA', None if r['bg'] == NONE else r['bg'] / 8.0)
        rep.setext('ICE', None if r['ice'] == NONE else r['ice'] / 100.0)
        rep.setext('BGVAR', None if r['bv'] == NONE else r['bv'] / 64.0)
        for j, n in enumerate(names):
            if v['old'][j][k] != 9:
                rep.set_qc('SST', n, v['old'][j][k])
        rep.set_qc('POS', 'drf_agr', k % 2)
        rep.set_qc('SST', 'bud', k % 3 // 2)
        reps.append(rep)
    for k in v['order'] or range(len(reps)):
        voy.add_report(reps[k])
    sp = v['spoil']
    if sp:
        r = reps[sp[1]]
        if sp[0] in ('OSTIA', 'ICE', 'BGVAR'):
            del r.ext[sp[0]]
        else:
            r.setvar(sp[0], None)
    day = [enc(tqc.track_day_test(*[r.getvar(s) for s in ('YR', 'MO', 'DY', 'HR', 'LAT', 'LON')] + [-2.5])) if i['day'] == 9 else i['day']
           for r, i in zip(reps, v['reps'])]

    def see():
        return [[r.getvar(s) for s in SCALARS] + [r.ext.get(s) for s in ('OSTIA', 'ICE', 'BGVAR')] +
                [r.get_qc('SST', q) for q in ('bud', 'drf_tail1', 'drf_tail2', 'drf_bias', 'drf_noise', 'drf_short') if q not in names] +
                [r.get_qc('POS', 'drf_agr')] for r in reps]
    before = see()
    exc = 0
    lim = (p['lim'] / 8.0) ** 2
    try:
        if v['what'] == 'tail':
            q = {'long_win_len': p['lw'], 'long_err_std_n': p['nl'] / 2.0, 'short_win_len': p['sw'], 'short_err_std_n': p['ns'] / 2.0,
                 'short_win_n_bad': p['nbad'], 'drift_inter': p['inter'] / 8.0, 'drif_intra': p['intra'] / 8.0, 'background_err_lim': lim}
            if v['direct']:
                tqc.sst_tail_check(voy.reps, p['lw'], p['nl'] / 2.0, p['sw'], p['ns'] / 2.0, p['nbad'], p['inter'] / 8.0, p['intra'] / 8.0, lim)
            else:
                voy.buoy_tail_check(q, bool(v['order']))
        else:
            q = {'n_eval': p['neval'], 'bias_lim': p['bias'] / 8.0, 'drif_intra': p['intra'] / 8.0, 'drif_inter': p['inter'] / 8.0,
                 'err_std_n': p['n'] / 2.0, 'n_bad': p['nbad'], 'background_err_lim': lim}
            if v['direct']:
                tqc.sst_biased_noisy_check(voy.reps, p['neval'], p['bias'] / 8.0, p['intra'] / 8.0, p['inter'] / 8.0, p['n'] / 2.0, p['nbad'], lim)
            else:
                voy.buoy_bias_noise_check(q, bool(v['order']))
    except (AssertionError, ValueError, UserWarning):
        exc = 1
    return {'exc': exc, 'f': [[enc(r.get_qc('SST', n)) for r in reps] for n in names], 'day': day,
            'rest': int(see() == before and (list(voy.rep_feed()) == reps if v['order'] else True))}


def rep(t, a, b, bg=160, **f):
    d = {'t': t, 'day': 0, 'sst': bg + a, 'bg': bg, 'ice': NONE, 'bv': b * b, 'lat': 10, 'lon': 0}
    d.update(f)
    return d


def finish(rng, v):
    n = len(v['reps'])
    v['old'] = [[rng.choice([9, 9, 0, 1]) for _ in range(n)] for _ in NAMES[v['what']]]
    ts = [r['t'] for r in v['reps']]
    if not v['direct'] and not v['spoilt'] and n > 1 and len(set(ts)) == n and rng.random() < .25:
        v['order'] = list(range(n))
        rng.shuffle(v['order'])
    return v


def base(rng, what):
    return {'what': what, 'off': rng.randint(0, 1), 'yr': 2003, 'pt': 7, 'direct': rng.randint(0, 1), 'order': [], 'spoilt': 0, 'spoil': [], 'old': []}


def record(rng, n):
    """Spells of bad, noisy, vague and good reports; by day and by night."""
    t = rng.randint(0, 32)
    spells = {'good': lambda: (rng.randint(-3, 3), rng.choice([1, 2, 2, 3])), 'bad': lambda: (rng.choice([-1, 1, -1]) * rng.randint(15, 60), 2),
              'cold': lambda: (-rng.randint(8, 16), rng.randint(1, 3)), 'noisy': lambda: (rng.randint(-30, 30), rng.randint(1, 3)),
              'step': lambda: (rng.choice([-8, 8]), 2), 'vague': lambda: (rng.randint(-20, 20), rng.choice([4, 5, 6]))}
    cold = rng.choice([0, 0, 0, -8, 10])
    out = []
    mode = rng.choice(['bad', 'noisy', 'cold', 'good', 'step'])
    stay = rng.choice([.05, .15, .4])
    eighth = rng.random() < .3
    for k in range(n):
        a, b = spells[mode]()
        f = {}
        if rng.random() < .12:
            f['day'] = 1
        if eighth:
            f = {'day': 9, 'lon': rng.choice([180, 180, rng.choice([-1, 1]) * (90 + rng.randint(-3, 8)), rng.randint(0, 359)]), 'lat': rng.choice([0, 5, -5, rng.randint(-40, 40)])}
        if rng.random() < .05:
            f['bg'] = NONE
        if rng.random() < .25:
            f['ice'] = rng.choice([0, 10, 14, 15, 16, 17, 60, 100])
        r = rep(t, a + cold, b, rng.randint(0, 240), **{k: x for k, x in f.items() if k != 'bg'})
        if 'bg' in f:
            r['bg'] = NONE
        r['sst'] = max(-300, r['sst'])
        out.append(r)
        t += rng.choice([1, 4, 8])
        if rng.random() < stay:
            mode = rng.choice(['bad', 'good', 'good', 'good', 'noisy', 'cold', 'step', rng.choice(['vague', 'good'])])
    return out


def params(rng, what):
    p = {'inter': rng.choice([0, 2, 2, 3]), 'intra': rng.choice([3, 4, 8]), 'lim': rng.choice([3, 4, 4, 5]), 'nbad': rng.choice([1, 2, 2, 3])}
    if what == 'tail':
        p.update(lw=rng.choice([1, 3, 3, 5, 7, 9]), sw=rng.choice([1, 2, 3, 4, 6]), nl=rng.choice([2, 4, 6, 5, 0]), ns=rng.choice([2, 4, 6, 5, 0]))
    else:
        p.update(neval=rng.choice([1, 3, 5, 10, 30]), bias=rng.choice([0, 1, 4, 9, 8, 10]), n=rng.choice([2, 4, 6, 0]))
    return p


def generate(g, what):
    rng = g.rng
    for k, h in enumerate(g.behaviours.get('rec', [])):
        if not g.thorough and k % 7 != 0:
            continue
        v = base(rng, what)
        v['reps'] = [rep(4 * j, r['a'], r['b'], day=1 - r['el']) for j, r in enumerate(h['tr'])]
        q = h['p']
        v['p'] = q if what == 'tail' else {'neval': rng.randint(1, 4), 'bias': 9, 'intra': 4, 'inter': 2, 'n': 6, 'nbad': q['nbad'], 'lim': 4}
        g.fixed(what, finish(rng, v))
    for k in range(g.scale(1500, 20000)):
        v = base(rng, what)
        n = rng.choice([0, 1, 2, 4, 8, 12, 16, 24, 36])
        v['reps'] = record(rng, n)
        v['p'] = params(rng, what)
        if rng.random() < .04 and not v['direct']:
            v['pt'] = rng.choice([5, 6, 8, NONE])
            if v['pt'] == NONE:
                v['pt'] = 1
        elif rng.random() < .15 and n > 1:
            w = rng.choice(['ext', 'pos', 'order', 'par', 'ice', 'bg', 'bv', 'bv'])
            j = rng.randrange(n)
            r = v['reps'][j]
            if w == 'ext':
                v.update(spoilt=1, spoil=[rng.choice(['OSTIA', 'ICE', 'BGVAR']), j])
            elif w == 'pos':
                v.update(spoilt=1, spoil=[rng.choice(['LAT', 'LON']), j])
                r['day'] = 0
            elif w == 'order':
                v.update(spoilt=1)
                j = rng.randrange(n - 1)
                v['reps'][j]['t'] = v['reps'][j + 1]['t'] + rng.randint(1, 9)
            elif w == 'par':
                v['spoilt'] = 1
                c = rng.choice(['lw', 'lw', 'sw', 'nl', 'ns', 'nbad', 'inter', 'intra']) if what == 'tail' else rng.choice(['neval', 'bias', 'n', 'nbad', 'inter', 'intra'])
                v['p'][c] = rng.choice({'lw': [0, 2, 4, -1], 'sw': [0, -1], 'neval': [0, -2], 'nbad': [0, -1]}.get(c, [-1, -4]))
            elif w == 'ice':
                r['ice'] = rng.choice([-1, 101, 200, -50])
            elif w == 'bg':
                r['bg'] = rng.choice([-41, 361, -40, 360])
            else:
                r['bv'] = rng.choice([NONE, -1, 641, 640, NONE])
                if r['bv'] == 640 and what == 'tail':
                    r['bv'] = 625
        g.case(what, finish(rng, v))
    # records exactly at the limits of noise and bias, or one step to either side
    for k in range(g.scale(120, 1200)):
        v = base(rng, what)
        v['p'] = params(rng, what)
        n = rng.choice([8, 14, 20, 26, 36])
        if rng.random() < .6:
            if what == 'tail':
                intra, b, a = rng.choice([(4, 2, [5, 5, 0, -5, -5]), (4, 0, [8, -2, -2, -2, -2]), (2, 0, [-4, 1, 1, 1, 1]), (6, 8, [20, -5, -5, -5, -5]), (8, 6, [20, -5, -5, -5, -5])])
                a = (a * 9)[rng.randint(0, 4):][:n]
                v['p'].update(lw=5, inter=rng.choice([0, 2]), nl=6)
            else:
                intra, b, a = rng.choice([(3, 4, 5), (4, 3, 5)])
                a = [a, -a] * (n // 2)
                rng.shuffle(a)
                v['p'].update(bias=8)
            v['p'].update(intra=intra, lim=9, nbad=3)
            v['p'].update({'sw': 6} if what == 'tail' else {'neval': rng.choice([3, 5])})
        else:
            inter, b, a = (3, 4, 5) if what == 'tail' else (2, 2, v['p']['bias'])
            a = [rng.choice([-1, 1]) * a] * n
            v['p'].update(inter=inter, intra=8, lim=5, nbad=3)
            v['p'].update({'sw': 6, 'lw': 5, 'nl': 2} if what == 'tail' else {'neval': 3})
        if rng.random() < .5:
            j = rng.randrange(n)
            a[j] += rng.choice([-1, 1])
        v['reps'] = [rep(8 * j, x, b, rng.randint(40, 240)) for j, x in enumerate(a)]
        g.case(what, finish(rng, v))
    # backgrounds now sharp, now vague: the mean error and the root of the mean square differ
    for k in range(g.scale(120, 1200)):
        v = base(rng, what)
        v['p'] = params(rng, what)
        n = rng.choice([8, 12, 20, 32])
        hi = rng.choice([4, 5])
        b = [rng.choice([0, 1]) if j % 2 else hi for j in range(n)]
        if rng.random() < .3:
            rng.shuffle(b)
        mean, square = sum(b) / float(n), sum(x * x for x in b) / float(n)
        intra, inter = rng.randint(1, 4), rng.choice([0, 1, 2])
        v['p'].update(intra=intra, inter=inter, lim=rng.choice([5, 6]), nbad=3)
        if what == 'rec' or rng.random() < .5:       # as noisy as one allows and the other does not
            u = rng.uniform(intra ** 2 + mean ** 2, intra ** 2 + square) if rng.random() < .8 else intra ** 2 + rng.choice([mean ** 2 - 1, square + 1])
            a = [(1 if j // (1 + n % 3) % 2 else -1) * int(round(u ** .5)) for j in range(n)]
            v['p'].update({'sw': 6, 'lw': rng.choice([5, 7]), 'nl': 6} if what == 'tail' else {'neval': 4, 'bias': 9})
        else:
            n2 = rng.choice([2, 4])
            u = rng.uniform(inter ** 2 + mean ** 2, inter ** 2 + square) if rng.random() < .8 else inter ** 2 + rng.choice([mean ** 2 - .5, square + 1])
            a = [rng.choice([-1, 1]) * int(round(u ** .5 * n2 / 2))] * n
            v['p'].update(sw=6, lw=rng.choice([5, 7]), nl=n2, intra=8)
        v['reps'] = [rep(8 * j, x, b[j], rng.randint(60, 240)) for j, x in enumerate(a)]
        g.case(what, finish(rng, v))
    # reports exactly as far off as the errors allow, or one step to either side
    for k in range(g.scale(160, 1600)):
        v = base(rng, what)
        v['p'] = params(rng, what)
        q = rng.choice([(2, 4, 4, 6), (2, 3, 6, 7), (4, 8, 1, 9), (2, 2, 1, 3), (1, 2, 2, 3), (3, 6, 2, 7)])
        n = rng.choice([2, 4, 6])
        v['p'].update(inter=q[0], intra=q[1], nbad=rng.choice([1, 2]), lim=6)
        v['p'].update({'ns': n, 'sw': rng.choice([1, 2]), 'lw': 9, 'nl': 6} if what == 'tail' else {'n': n, 'neval': 12})
        v['reps'] = [rep(8 * j, rng.choice([-1, 1]) * (q[3] * n // 2 + rng.choice([0, 0, -1, 1])) if rng.random() < .5 else rng.randint(-2, 2), q[2], rng.randint(40, 240))
                     for j in range(rng.randint(3, 8))]
        g.case(what, finish(rng, v))
    # short records, some reports beyond and some inside the limits, that the one report of doubtful background may excuse
    if what == 'rec':
        for k in range(g.scale(240, 2400)):
            v = base(rng, what)
            v['p'] = params(rng, what)
            n = rng.randint(3, 12)
            v['p'].update(neval=n + rng.randint(-1, 3), nbad=rng.choice([1, 2, 3]), inter=2, intra=4, n=6, lim=4)
            bad = rng.sample(range(n), min(n, v['p']['nbad'] + rng.choice([-1, 0, 0, 1])))
            v['reps'] = [rep(8 * j, rng.choice([-40, 40]) if j in bad else rng.randint(-3, 3), rng.choice([1, 2]), rng.randint(40, 240)) for j in range(n)]
            for j in rng.sample(range(n), rng.choice([0, 1, 1, 2])):
                r = v['reps'][j]
                r['bv'] = rng.choice([16, 25, 25, 36])
                w = rng.choice(['day', 'day', 'ice', 'land', 'night'])
                if w == 'day':
                    r['day'] = 1
                elif w == 'ice':
                    r['ice'] = rng.choice([15, 16, 80])
                elif w == 'land':
                    r['bg'] = NONE
            if rng.random() < .3:      # and others by day
                v['reps'][rng.randrange(n)]['day'] = 1
            g.case(what, finish(rng, v))
    # long records with the operational windows, which trim
    if what == 'tail':
        for k in range(g.scale(60, 600)):
            v = base(rng, what)
            n = rng.choice([100, 105, 110, 120])
            v['reps'] = record(rng, n)
            v['p'] = params(rng, what)
            v['p'].update(lw=rng.choice([99, 101, 103, 121]), sw=rng.choice([3, 30]), nbad=rng.choice([1, 2]))
            if rng.random() < .8:    # a wild value decides if it is not trimmed
                bias = rng.random() < .5
                share = rng.uniform(.3, .95)
                sign = rng.choice([-1, 1])
                v['reps'] = [rep(4 * j, sign * int(rng.random() < share), 1) for j in range(n)]
                v['p'].update(lw=rng.choice([99, 101, 101, 103]), nl=2, inter=0 if bias else 20, intra=16 if bias else 3, lim=4)
                for _ in range(rng.randint(1, 2)):
                    j = rng.choice([rng.randint(0, 8), n - 1 - rng.randint(0, 8)])
                    v['reps'][j]['sst'] += rng.choice([sign, sign, -sign]) * rng.randint(40, 70)
            g.case(what, finish(rng, v))
    else:
        for k in range(g.scale(60, 600)):
            v = base(rng, what)
            v['reps'] = record(rng, rng.choice([30, 31, 60]))
            v['p'] = params(rng, what)
            v['p']['neval'] = rng.choice([28, 30])
            g.case(what, finish(rng, v))
