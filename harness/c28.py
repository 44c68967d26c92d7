"""C28: output files and lines (Outputs, MC_Outputs, T_Outputs)."""
import calendar
import csv
import os
import shutil
import tempfile
import Extended_IMMA as ex
from mk import report
from rt import enc, NONE, dec

IDS = ['SHIP1', 'AB/1', 'C*2', 'D E', 'A/B*C/', '7', '46001', '/F//G', '**H*', 'k_l', None]
NUM = ['YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'AT', 'SST', 'DPT', 'SLP', 'W', 'D', 'DS', 'VS', 'DCK', 'PT']
EXT = ['OSTIA', 'ICE', 'BGVAR']
HUM = ['SHU', 'VAP', 'CRH', 'CWB', 'DPD']
WHOLE = ['YR', 'MO', 'DY', 'DS', 'VS', 'DCK', 'PT']


def build(r, cls=None):
    d = {k: (None if r[k] == NONE else (r[k] // 1000 if k in WHOLE else r[k] / 1000.)) for k in NUM}
    x = report(cls, ID=IDS[r['id'] - 1], UID=r['uid'], **d)
    for k in HUM:
        if r.get(k, NONE) != NONE:
            x.setvar(k, r[k] / 1000.)
        if r.get('n' + k, NONE) != NONE:
            x.add_climate_variable(k, r['n' + k] / 1000.)
    for k in EXT:
        if not (r[k] == NONE and r['unset']):
            x.setext(k, dec(r[k], 1000.))
    for k in ('AT', 'SST', 'DPT', 'SLP'):
        if not (r['n' + k] == NONE and r['unset']):
            x.add_climate_variable(k, dec(r['n' + k], 1000.))
    return x


def cell(s):
    if s == '\\N':
        return NONE
    try:
        return enc(float(s), 1000)
    except ValueError:
        return -66666


def readback(d, name):
    with open(os.path.join(d, name)) as f:
        rows = list(csv.reader(f))
    head = rows[0]
    named = [k for k, c in enumerate(head) if c not in ('UID', 'DATE', 'ID')]
    col = {c: head.index(c) for c in ('UID', 'DATE', 'ID') if c in head}
    get = lambda r, c: r[col[c]] if c in col and col[c] < len(r) else ''
    return {'name': name, 'cols': [head[k] for k in named], 'uids': [get(r, 'UID') for r in rows[1:]],
            'ids': [get(r, 'ID') for r in rows[1:]], 'dates': [get(r, 'DATE') for r in rows[1:]],
            'rows': [[cell(r[k]) if k < len(r) else -66666 for k in named] if len(r) == len(head) else [] for r in rows[1:]]}


def files(v):
    d = tempfile.mkdtemp(dir='.')
    try:
        out = os.path.join(d, 'out')
        os.mkdir(out)
        col = ex.Voyage() if v['what'] == 'voyage' else ex.Deck()
        reps = [build(r, ex.MarineReportQC if k % 2 else None) for k, r in enumerate(v['reps'])]
        for o in v['ops']:
            if o['op'] == 'add':
                (col.add_report if v['what'] == 'voyage' else col.append)(reps[o['u'] - 1])
            elif o['op'] == 'flag':
                reps[o['u'] - 1].set_qc(o['g'], o['n'], o['v'])
            else:
                a = (o['run'], out, o['y'], o['m'])
                k = o['kind']
                if k == 'deck':
                    col.write_output(*a)
                elif k == 'deck_test':
                    col.write_output(*a, test=True)
                elif k == 'min':
                    col.write_min_output(*a)
                elif k == 'min_test':
                    col.write_min_output(*a, test=True)
                elif k == 'qc':
                    col.write_qc(*(a + ({g: o['names'] for g in o['groups']},)))
                elif k == 'qc_test':
                    col.write_qc(*(a + ({g: o['names'] for g in o['groups']},)), test=True)
                elif k == 'vqc':
                    col.write_qc(*(a + ({g: o['names'] for g in o['groups']},)))
                elif k == 'voyage':
                    col.write_output(*a)
                elif k == 'tracking':
                    col.write_tracking_output(*a)
        names = sorted(os.listdir(out))
        return {'files': [readback(out, n) for n in names if os.path.isfile(os.path.join(out, n))],
                'strays': len(os.listdir(d)) - 1 + sum(not os.path.isfile(os.path.join(out, n)) for n in names)}
    finally:
        shutil.rmtree(d)


def line(v):
    r = build(v['r'])
    for f in v['fl']:
        r.set_qc(f['g'], f['n'], f['v'])
    s = r.print_longform_report() if v['long'] else r.print_report()
    p = 18                                   # identifier, blank, unique identifier
    nums = []
    n = 6 + (17 if v['long'] else 4) + 3
    for k in range(n):
        nums.append(int(s[p:p + 8]))
        p += 8
    q = s[p:].split()
    ints = lambda t: [int(c) for c in t]
    vals = nums[6:6 + (17 if v['long'] else 4)]
    return {'len': len(s), 'id': s[:9].rstrip(), 'uid': s[10:18].rstrip(), 'place': nums[:6], 'vals': vals,
            'ship': nums[-3:], 'pos': ints(q[0]), 'sst': ints(q[1]), 'at': ints(q[2]), 'dpt': ints(q[3]), 'last': ints(q[4])}


KINDS = {'files': files, 'line': line}
FLAGS = {'POS': ['day', 'isship', 'trk', 'date', 'time', 'pos', 'blklst', 'isbuoy', 'iquam_track', 'isdrifter', 'drf_agr', 'drf_spd', 'few', 'ntrk', 'land', 'dup'],
         'SST': ['bud', 'clim', 'nonorm', 'freez', 'noval', 'nbud', 'bbud', 'rep', 'spike', 'hardlimit', 'drf_tail1', 'drf_tail2', 'drf_bias', 'drf_noise', 'drf_short'],
         'AT': ['bud', 'clim', 'nonorm', 'freez', 'noval', 'mat_blacklist', 'bbud', 'rep', 'hardlimit', 'nbud'],
         'DPT': ['bud', 'clim', 'nonorm', 'freez', 'noval', 'hum_blacklist', 'bbud', 'rep', 'ssat', 'repsat', 'round', 'hardlimit'],
         'SLP': ['bud', 'clim', 'nonorm', 'noval', 'rep'],
         'W': ['noval', 'hardlimit', 'consistency', 'wind_blacklist']}


def generate(g):
    rng = g.rng

    def rep(k, id_, months, fine=0):
        y, m = rng.choice(months)
        t = lambda lo, hi, p=0.15: NONE if rng.random() < p else 100 * rng.randint(lo, hi) + fine * rng.randint(0, 99)
        r = {'uid': 'U%03d%s' % (k, rng.choice(['', 'AB', 'X1'])), 'id': id_, 'YR': y * 1000, 'MO': m * 1000,
             'DY': NONE if rng.random() < 0.08 else 1000 * rng.choice([1, 28, 29, 30, 31, rng.randint(1, 31)]),
             'HR': NONE if rng.random() < 0.1 else 250 * rng.randint(0, 95),
             'LAT': 10 * rng.randint(-9000, 8999) + fine * rng.randint(0, 9), 'LON': 10 * rng.randint(-18000, 17999) + fine * rng.randint(0, 9), 'AT': t(-300, 400), 'SST': t(-20, 350),
             'DPT': t(-300, 350), 'SLP': t(9000, 10500), 'W': t(0, 300), 'D': 1000 * rng.randint(1, 362) if rng.random() < 0.8 else NONE,
             'DS': 1000 * rng.randint(0, 9) if rng.random() < 0.7 else NONE, 'VS': 1000 * rng.randint(0, 9) if rng.random() < 0.7 else NONE,
             'DCK': 1000 * rng.randint(1, 999), 'PT': 1000 * rng.randint(0, 14) if rng.random() < 0.8 else NONE,
             'nAT': t(-300, 300), 'nSST': t(0, 300), 'nDPT': t(-200, 300), 'nSLP': t(9000, 10500),
             'OSTIA': t(-20, 330), 'ICE': t(0, 10), 'BGVAR': t(0, 30), 'unset': rng.randint(0, 1)}
        return r
    for h in g.behaviours['history']:
        if not g.thorough and rng.random() < 0.0:
            continue
        reps = []
        for k in range(4):
            r = rep(k, 1 + k, [(2000, 1)])
            r['YR'], r['MO'] = ((1999000, 12000), (2000000, 1000))[k % 2]
            reps.append(r)
        ops = []
        for o in h:
            if o['op'] == 'add':
                ops.append(o)
            elif o['op'] == 'flag':
                ops.append({'op': 'flag', 'u': o['u'], 'g': 'POS', 'n': 'day', 'v': o['v']})
            else:
                ops.append({'op': 'write', 'kind': 'min_test' if o['test'] else 'min', 'y': o['y'], 'm': o['m'], 'run': 'run'})
        g.fixed('files', {'what': 'deck', 'reps': reps, 'ops': ops})
    for _ in range(g.scale(400, 8000)):
        what = rng.choice(['deck', 'voyage'])
        y = rng.choice([1850, 1999, 2000, 2010])
        months = rng.choice([[(y, 1), (y, 2)], [(y - 1, 12), (y, 1), (y, 2)], [(y, 9), (y, 10), (y, 11)], [(y, 2), (y + 1, 2)], [(y, 1), (y, 11), (y, 12)]])
        n = rng.randint(1, 9) if rng.random() < .96 else rng.randint(20, 50)
        idv = rng.randint(1, len(IDS) - 1)
        fine = rng.randint(0, 1)
        reps = [rep(k, idv if what == 'voyage' else rng.choice([rng.randint(1, len(IDS)), rng.randint(1, 3)]), months, fine) for k in range(n)]
        if what == 'voyage' and rng.random() < 0.6:      # real dates only
            for r in reps:
                r['DY'] = 1000 * min(max(1, r['DY'] // 1000), calendar.monthrange(r['YR'] // 1000, r['MO'] // 1000)[1])
        ops, have = [], []
        runs = rng.choice([['r1'], ['r1', 'R_2']])
        order = list(range(1, n + 1))
        rng.shuffle(order)
        while order or rng.random() < 0.85:
            x = rng.random()
            if order and (x < 0.4 or not have):
                u = order.pop()
                have.append(u)
                ops.append({'op': 'add', 'u': u})
            elif x < 0.75:
                gr = rng.choice(list(FLAGS))
                ops.append({'op': 'flag', 'u': rng.choice(have), 'g': gr, 'n': rng.choice(FLAGS[gr]), 'v': rng.choice([0, 1, 1, 2, 9])})
            else:
                k = rng.choice(['deck', 'deck', 'deck_test', 'min', 'min_test', 'qc', 'qc_test'] if what == 'deck' else ['voyage', 'voyage', 'vqc', 'tracking'])
                yy, mm = rng.choice(months)
                o = {'op': 'write', 'kind': k, 'y': yy, 'm': mm, 'run': rng.choice(runs)}
                if k in ('qc', 'qc_test', 'vqc'):
                    o['groups'] = rng.sample(list(FLAGS), rng.randint(1, 2))
                    o['names'] = rng.sample(sorted(set(FLAGS['SST'] + FLAGS['POS'])), rng.randint(1, 5))
                ops.append(o)
            if len(ops) > (60 if n < 20 else 120):
                break
        g.case('files', {'what': what, 'reps': reps, 'ops': ops})
    for _ in range(g.scale(600, 8000)):
        r = rep(0, rng.choice([1, 2, 3, 4, 6, 7, 8, 9, 10]), [(rng.choice([1850, 1999, 2000]), rng.randint(1, 12))])
        lg = rng.randint(0, 1)
        for k in HUM:
            r[k] = NONE if rng.random() < .15 else 100 * rng.randint(0, 1000)
            r['n' + k] = NONE if rng.random() < .3 else 100 * rng.randint(0, 1000)
        fl, seen = [], set()
        for _ in range(rng.randint(0, 12)):
            gr = rng.choice(['POS', 'SST', 'AT', 'DPT'])
            n = rng.choice(FLAGS[gr])
            if (gr, n) not in seen:
                seen.add((gr, n))
                fl.append({'g': gr, 'n': n, 'v': rng.choice([0, 1, 9, 3])})
        g.case('line', {'r': r, 'long': lg, 'fl': fl, 'len': 18 + 8 * (6 + (17 if lg else 4) + 3) + 1 + 9 * 3 + (10 if lg else 9) + 9})
