"""C34: a tracking run (Tracking, MC_Tracking, T_Tracking)."""
import contextlib
import csv
import json
import os
import sys
from datetime import datetime, timedelta
import Extended_IMMA as ex
import tracking_qc
from mk import report
from monthly import World
from rt import NONE, enc, enc_exact, dec, deci

POS = ['day', 'isship', 'trk', 'date', 'time', 'pos', 'blklst', 'isbuoy', 'iquam_track', 'isdrifter']
SST = ['bud', 'clim', 'nonorm', 'freez', 'noval', 'nbud', 'bbud', 'rep', 'spike', 'hardlimit']
DRF = [('POS', 'drf_agr'), ('POS', 'drf_spd'), ('SST', 'drf_tail1'), ('SST', 'drf_tail2'), ('SST', 'drf_bias'), ('SST', 'drf_noise'), ('SST', 'drf_short')]
CHECKS = {'new_buoy_aground_check': 'aground', 'new_buoy_speed_check': 'speed', 'buoy_tail_check': 'tail', 'buoy_bias_noise_check': 'bias',
          'buoy_aground_check': 'old aground', 'buoy_speed_check': 'old speed'}
SC = {'HR': 120, 'LAT': 100, 'LON': 100}
VAL = ['YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'SST', 'OSTIA', 'ICE', 'BGVAR']


def build(ident, y, m, r):
    c = r['c']
    d = {k: (None if c[k] == NONE else c[k] if k in ('DY',) else c[k] / float(SC.get(k, 8))) for k in ('DY', 'HR', 'LAT', 'LON', 'SST')}
    x = report(ex.MarineReportQC, ID=ident, UID=r['uid'], YR=y, MO=m, PT=7, AT=None if r['odd'] else 3.5, **d)
    if r['odd']:
        x.add_climate_variable('AT', 1.5)
    x.add_climate_variable('SST', 1.0)
    for k in ('OSTIA', 'ICE', 'BGVAR'):
        x.setext(k, dec(c[k], 8))
    for k in POS:
        if r['fl'][k] != 9:
            x.set_qc('POS', k, r['fl'][k])
    for k in SST:
        if r['fl'][k] != 9:
            x.set_qc('SST', k, r['fl'][k])
    return x


def track(v):
    with World() as w:
        for mth in v['months']:
            voy = ex.Voyage()
            for r in mth['recs']:
                voy.reps.append(build(mth['id'], mth['y'], mth['m'], r))
            d = 'out/%04d/%02d' % (mth['y'], mth['m'])
            os.makedirs(d, exist_ok=True)
            before = set(os.listdir(d))
            if not voy.reps:       # nothing but headings
                voy.reps.append(build(mth['id'], mth['y'] + 1, mth['m'], v['filler']))
            voy.write_output('run', d, mth['y'], mth['m'])
            new = sorted(set(os.listdir(d)) - before)
            f = mth['fault']
            pick = {n.split('_')[0]: d + '/' + n for n in new}
            if f[0] == 'gone':
                os.remove(pick[f[1]])
            elif f[0] == 'only':
                for n in pick:
                    if n != f[1]:
                        os.remove(pick[n])
            elif f[0] == 'empty':
                open(pick[f[1]], 'w').close()
            elif f[0] in ('cut', 'more', 'other'):
                with open(pick[f[1]]) as g:
                    s = g.read().splitlines()
                if f[0] == 'cut':
                    s.pop()
                elif f[0] == 'more':
                    s.append(s[-1])
                else:
                    s[-1] = f[2] + s[-1][s[-1].index(','):]
                with open(pick[f[1]], 'w') as g:
                    g.write('\n'.join(s) + '\n')
        p = v['p']
        par = {'runid': 'run', 'IQUAM_track_check': {'buoy_speed_limit': 15.0, 'ship_speed_limit': 60.0, 'delta_d': 1.11, 'delta_t': 0.01, 'number_of_neighbours': 5},
               'new_buoy_aground_check': {'smooth_win': p['sw'], 'min_win_period': p['agr']},
               'new_buoy_speed_check': {'speed_limit': p['spd'] / 8., 'min_win_period': 0.25},
               'buoy_aground_check': {'smooth_win': 3, 'min_win_period': 8, 'max_win_period': 10},
               'buoy_speed_check': {'speed_limit': 2.5, 'min_win_period': .8, 'max_win_period': 1},
               'buoy_tail_check': {'long_win_len': p['lw'], 'long_err_std_n': 3.0, 'short_win_len': p['shw'], 'short_err_std_n': 3.0, 'short_win_n_bad': 1,
                                   'drift_inter': 0.25, 'drif_intra': 0.5, 'background_err_lim': p['lim'] / 64.},
               'buoy_bias_noise_check': {'n_eval': p['ne'], 'bias_lim': p['bias'] / 8., 'drif_intra': 0.5, 'drif_inter': 0.25, 'err_std_n': 3.0, 'n_bad': 2,
                                         'background_err_lim': p['lim'] / 64.}}
        for k in par:
            if k != 'runid':
                par[k]['name'] = k
        with open('par.json', 'w') as f:
            json.dump(par, f)
        with open('conf.txt', 'w') as f:
            f.write('[Directories]\nout_dir = out\ntrack_out_dir = sc\n[Files]\nparameter_file = par.json\n')
        events = []

        def wrap(name):
            real = ex.Voyage.__dict__[name]

            def fn(self, *a, **k):
                out = real(self, *a, **k)
                events.append({'fn': CHECKS[name], 'par': [x.get('name', '?') for x in list(a) + list(k.values()) if isinstance(x, dict)],
                               'uids': [r.getvar('UID') for r in self.reps],
                               'after': [{n: r.get_qc(t, n) for t, n in DRF} for r in self.reps]})
                return out
            w.patch(ex.Voyage, name, fn)
        for n in CHECKS:
            wrap(n)
        sys.argv = ['tracking_qc.py', '-config', 'conf.txt', '-id', v['id'].rstrip() if v['strip'] else v['id'], '-yr1', str(v['y1']), '-mn1', str(v['m1']),
                    '-yr2', str(v['y2']), '-mn2', str(v['m2']), '-edge'] + v['edge'] + ['-runmonthid', v['runmonthid']]
        raised = ''
        try:
            tracking_qc.main(sys.argv[1:])
        except UserWarning:
            raised = 'UserWarning'
        files = []
        for r, ds, fs in os.walk('sc'):
            for n in sorted(fs):
                with open(os.path.join(r, n)) as f:
                    rows = list(csv.reader(f))
                head = rows[0]
                recs = []
                for row in rows[1:]:
                    q = dict(zip(head, row)) if len(row) == len(head) else {}
                    recs.append({'uid': q.get('UID', ''), 'id': q.get('ID', ''),
                                 'c': {k: cell(q.get(k), 1 if k in ('YR', 'MO', 'DY') else SC.get(k, 8)) for k in VAL},
                                 'fl': {k: cell(q.get(k), 1) for k in POS + SST}, 'd': {k: cell(q.get(k), 1) for t, k in DRF}})
                files.append({'dir': r[3:], 'name': n, 'recs': recs})
        return {'raised': raised, 'files': files, 'events': events}


def cell(s, k):
    if s is None:
        return -66666
    if s == '\\N':
        return NONE
    try:
        return enc_exact(float(s), k)
    except ValueError:
        return -66666


KINDS = {'track': track}


def generate(g):
    rng = g.rng
    n = [0]

    def rec(day, hr, at, bad):
        n[0] += 1
        fl = dict({k: 0 for k in POS + SST}, isbuoy=1, isdrifter=1, nbud=9)
        c = {'DY': day, 'HR': hr, 'LAT': at[0], 'LON': at[1], 'SST': 80 + rng.choice([0, 0, 1, 2, 24]), 'OSTIA': 80, 'ICE': 0, 'BGVAR': rng.choice([1, 2, 8])}
        if rng.random() < bad:
            for k in rng.sample(['isbuoy', 'pos', 'blklst', 'clim', 'nonorm', 'freez', 'rep', 'hardlimit', 'bbud', 'bbud', 'trk', 'day', 'bud', 'spike', 'iquam_track', 'time', 'date', 'noval', 'rep9'],
                                rng.choice([1, 1, 2])):
                if k == 'bbud':
                    fl[k] = rng.choice([3, 4, 5, 9, 1])
                elif k == 'rep9':
                    fl['rep'] = fl['trk'] = 9
                else:
                    fl[k] = 0 if fl[k] else 1
                if k == 'time':
                    c['HR'] = NONE
                elif k == 'date':
                    c['DY'] = rng.choice([NONE, 31, 30])
                    if c['DY'] != NONE and c['DY'] < 31:
                        c['DY'] = 31
                elif k == 'noval':
                    c['SST'] = NONE
        if rng.random() < 0.1:
            c['OSTIA'] = NONE
            if rng.random() < 0.5:
                c['BGVAR'] = NONE
        if rng.random() < 0.05:
            c['ICE'] = rng.choice([4, 8])
        elif rng.random() < 0.08:
            c['ICE'] = NONE
        return {'uid': 'U%05d' % n[0], 'c': c, 'fl': fl, 'odd': rng.randint(0, 1)}
    filler = rec(1, 0, [0, 0], 0)
    for k in range(g.scale(260)):
        y, m = rng.choice([(2003, 11), (2003, 12), (2004, 2), (1999, 6)])
        span = rng.choice([0, 1, 1, 2, 3])
        y2, m2 = (y * 12 + m - 1 + span) // 12, (y * 12 + m - 1 + span) % 12 + 1
        ident = rng.choice(['62001    ', 'A/1      ', 'B*2      ', '1234567  ', 'LONGIDENT', ' 62001   '])
        bad = rng.choice([0, 0.15, 0.5])
        months = []
        place = [rng.choice([1000, -3000, 5050]), rng.choice([1000, 17990, -17950])]
        for j in range(-1, span + 2):
            yy, mm = (y * 12 + m - 1 + j) // 12, (y * 12 + m - 1 + j) % 12 + 1
            if rng.random() < 0.2:
                continue
            rs = []
            days = {4: 30, 6: 30, 9: 30, 11: 30, 2: 28}.get(mm, 31)
            for d in sorted(rng.sample(range(1, 29), rng.choice([0, 1, 3, 8, 14]))):
                for h in rng.choice([[0], [0, 720, 1440], [60 * rng.randint(0, 47)]]):
                    step = rng.choice([0, 0, 3, 30, 200])
                    place = [max(-6000, min(6000, place[0] + rng.choice([-step, step]))), place[1] + rng.choice([-step, step])]
                    place[1] = (place[1] + 18000) % 36000 - 18000
                    r = rec(d, h, place, bad)
                    if r['c']['DY'] == 31 and days == 31:
                        r['c']['DY'] = NONE
                    rs.append(r)
            if rng.random() < 0.2:
                rng.shuffle(rs)
            fault = ['', '']
            if rng.random() < 0.1:
                fault = [rng.choice(['gone', 'gone', 'only', 'only', 'empty', 'cut', 'more', 'other', 'other', 'other']), rng.choice(['Variables', 'POS', 'SST']), rng.choice(['ZZZZ', 'A', 'U00000', 'U99999'])]
                if fault[0] == 'other' and rs and rng.random() < 0.4:      # nearly the right one
                    fault[2] = rng.choice([rs[-1]['uid'] + 'X', rs[-1]['uid'][:-1], rs[-1]['uid'][1:]])
                if fault[0] in ('other', 'cut') and (not rs):
                    fault = ['', '']
            months.append({'y': yy, 'm': mm, 'id': ident, 'recs': rs, 'fault': fault})
            if rng.random() < 0.2:
                months.append({'y': yy, 'm': mm, 'id': '62002    ', 'recs': [rec(3, 0, [0, 100], 0)], 'fault': ['', '']})
        g.case('track', {'id': ident, 'strip': rng.randint(0, 1), 'y1': y, 'm1': m, 'y2': y2, 'm2': m2, 'filler': filler,
                         'edge': rng.choice([['regular'], ['new'], ['regular', 'new'], ['start_edge_case'], ['end_edge_case'], ['start_edge_case', 'end_edge_case'], ['new', 'start_edge_case']]),
                         'runmonthid': rng.choice(['198501-201412', '200301-200412', '000101-201010']), 'months': months, 'safe': ident.replace('/', '_').replace('*', '_'),
                         'p': {'sw': rng.choice([1, 3, 5]), 'agr': rng.choice([1, 3, 8]), 'spd': rng.choice([2, 8, 24]), 'lw': rng.choice([1, 3, 9]), 'shw': rng.choice([1, 2, 4]),
                               'lim': rng.choice([64, 256]), 'ne': rng.choice([1, 5, 20]), 'bias': rng.choice([1, 8])}})
