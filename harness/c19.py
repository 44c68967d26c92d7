"""C19: repeated, rounded and saturated values (Repeats, T_Repeats).  Values in 1/40, times in minutes."""
import Extended_IMMA as ex
from mk import report, earlier
from removal import when
from rt import NONE, enc

SC = ['ID', 'LAT', 'LON', 'YR', 'MO', 'DY', 'HR', 'SST', 'AT', 'AT2', 'DPT', 'SLP']


def val(x):
    return None if x == NONE else x / 40.0


def run(v):
    voy = ex.Voyage()
    reps = []
    var = v.get('var', 'DPT')
    for k in range(len(v['vals']) if 'vals' in v else len(v['reps'])):
        if 'vals' in v:
            f = dict(when(60 * k))
            f[var] = val(v['vals'][k])
        else:
            r = v['reps'][k]
            f = dict(when(r['t']), AT=val(r['at']), DPT=val(r['dpt']))
        r = report(UID='U%d' % k, LAT=k / 10.0, **f)
        if v['old']:
            r.set_qc(var, {'rep': 'rep', 'round': 'round', 'sat': 'repsat'}[v['how']], 1)
        reps.append(r)
        voy.add_report(r)
    name = {'rep': 'rep', 'round': 'round', 'sat': 'repsat'}[v['how']]
    watch = [(a, n) for a in ('SST', 'AT', 'AT2', 'DPT', 'SLP') for n in ('rep', 'round', 'repsat') if (a, n) != (var, name)]

    def see():
        return [[r.getvar(s) for s in SC] + [r.get_qc(*w) for w in watch] for r in reps]
    p = v['p']

    def run_it():
        if v['how'] == 'rep':
            voy.find_repeated_values({'threshold': p['num'] / float(p['den']), 'min_count': p['min']}, intype=var)
        elif v['how'] == 'round':
            voy.find_multiple_rounded_values({'threshold': p['num'] / float(p['den']), 'min_count': p['min']}, intype=var)
        else:
            voy.find_saturated_runs({'min_time_threshold': float(p['time']), 'shortest_run': p['short']})
    if v['old']:
        earlier(reps, ['SST', 'AT', 'AT2', 'DPT', 'SLP'], run_it)
        for r in reps:
            r.set_qc(var, name, 1)
            for w in watch:
                r.set_qc(w[0], w[1], 9)
    before = see()
    run_it()
    return {'f': [enc(r.get_qc(var, name)) for r in reps], 'rest': int(see() == before and list(voy.rep_feed()) == reps)}


KINDS = {'run': run}


def generate(g):
    rng = g.rng
    for k, h in enumerate(g.behaviours.get('vals', [])):
        for how in ('rep', 'round'):
            for num in (1, 2, 3):
                g.fixed('run', {'how': how, 'vals': h, 'p': {'num': num, 'den': 4, 'min': k % 5}, 'var': ['SST', 'AT', 'AT2', 'DPT'][k % 4], 'old': k % 2})
    for k, h in enumerate(g.behaviours.get('sat', [])):
        g.fixed('run', {'how': 'sat', 'reps': [{'t': 60 * t, 'at': 400 + 40 * j, 'dpt': 400 + 40 * j - (0 if w else 1 + k % 3)} for j, (w, t) in enumerate(zip(h['w'], h['t']))],
                        'p': {'short': 2, 'time': 48}, 'old': k % 2})
    for _ in range(g.scale(800, 20000)):
        how = rng.choice(['rep', 'round'])
        n = rng.choice([0, 1, 5, 10, 20, 21, 30, 60]) if rng.random() < .98 else rng.randint(100, 260)
        few = [rng.randint(-80, 1200) for _ in range(2)] + [40 * rng.randint(-3, 30) for _ in range(2)]
        few.append(rng.choice(few) + rng.choice([-1, 1, 2, 4]))
        share = rng.random()
        vals = [few[0] if rng.random() < share else NONE if rng.random() < .1 else rng.choice(few) if rng.random() < .6 else rng.randint(-200, 1200) for _ in range(n)]
        p = rng.choice([{'num': 7, 'den': 10, 'min': 20}, {'num': 1, 'den': 2, 'min': 20}, {'num': rng.randint(0, 10), 'den': 10, 'min': rng.choice([0, 4, 5, 9, 10, 20])}])
        if rng.random() < .4 and n >= 10:
            # a share right at the threshold
            m = n // 10 * 10
            c = m * p['num'] // p['den'] + rng.choice([0, 0, 1, -1])
            base = 40 * rng.randint(0, 25)
            gap = rng.choice([40, 1])
            vals = ([base] * max(0, min(m, c)) + [base + 1 + gap * j for j in range(m - max(0, min(m, c)))])
            vals += [NONE] * rng.randint(0, 3)
            rng.shuffle(vals)
        g.case('run', {'how': how, 'vals': vals, 'p': p, 'var': rng.choice(['SST', 'AT', 'AT2', 'DPT'] + (['SLP'] if how == 'rep' else [])), 'old': rng.randint(0, 1)})
    for _ in range(g.scale(500, 10000)):
        p = rng.choice([{'short': 4, 'time': 48}, {'short': rng.randint(1, 6), 'time': rng.choice([6, 12, 24, 48])}])
        t, reps, sat = rng.randrange(0, 1440, 60), [], rng.random() < .5
        step = rng.choice([[60, 180, 360], [360, 720, 720, 1440], [0, 60, 2880]])
        for k in range(rng.randint(0, 40) if rng.random() < .98 else rng.randint(80, 150)):
            if rng.random() < .2:
                sat = not sat
            a = rng.randint(0, 1000)
            r = {'t': t, 'at': a, 'dpt': a if sat else a - rng.choice([1, -1, 5, 40])}
            if not sat and rng.random() < .4:
                r.update(rng.choice([{'at': NONE}, {'dpt': NONE}, {'at': NONE, 'dpt': NONE}]))
            reps.append(r)
            t += rng.choice(step)
        g.case('run', {'how': 'sat', 'reps': reps, 'p': p, 'old': rng.randint(0, 1)})
