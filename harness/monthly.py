"""Runs the monthly programs in a small world and tells what they did (C32)."""
import csv
import gzip
import json
import os
import shutil
import sys
import tempfile
import importlib
import numpy as np
import BackgroundField as bf
import Climatology as clim
import Extended_IMMA as ex
import IMMA1
from rt import NONE, enc, enc_exact, dec, deci

PROGRAMS = {'full': 'marine_qc', 'hires': 'marine_qc_hires', 'track': 'marine_qc_track_only'}
SCALE = {'HR': 120, 'LAT': 100, 'LON': 100, 'SST': 8, 'AT': 8, 'DPT': 8, 'SLP': 8, 'W': 8}
FLAGS = {'POS': 'day isship trk date time pos blklst isbuoy iquam_track isdrifter'.split(),
         'SST': 'bud clim nonorm freez noval nbud bbud rep spike hardlimit'.split(),
         'AT': 'bud clim nonorm freez noval mat_blacklist bbud rep hardlimit'.split(),
         'DPT': 'bud clim nonorm freez noval hum_blacklist bbud rep ssat repsat round hardlimit'.split(),
         'SLP': 'bud clim nonorm noval rep'.split(), 'W': 'noval hardlimit consistency wind_blacklist'.split(), 'AT2': ['rep']}
CHECKS = ['track_check', 'iquam_track_check', 'spike_check', 'find_saturated_runs', 'find_multiple_rounded_values', 'find_repeated_values']
DECK = ['mds_buddy_check', 'bayesian_buddy_check']
BLOCKS = ['track_check', 'IQUAM_track_check', 'IQUAM_spike_check', 'saturated_runs', 'multiple_rounded_values', 'find_repeated_values',
          'mds_buddy_check', 'slp_buddy_check']


def line(r):
    if r['form'] == 'blank':
        return ''
    if r['form'] == 'junk':
        return 'this is no record at all'
    rec = IMMA1.IMMA()
    rec.attachments = [0, 1, 98]
    for a in rec.attachments:
        for p in IMMA1.getParameters(a):
            rec.data[p] = None
    for k, v in r['f'].items():
        if k == 'ID':
            rec.data[k] = v or None
        elif v != NONE:
            rec.data[k] = v / float(SCALE[k]) if k in SCALE else v
    rec.data['UID'] = r['uid']

    class F(object):
        def write(self, s):
            self.s = s
    f = F()
    rec.write(f)
    s = f.s.rstrip('\n')
    if r['form'] == 'early':            # a letter in the month
        s = s[:4] + 'x' + s[5:]
    elif r['form'] == 'late':           # a letter in the air temperature, after the identifier
        s = s[:70] + 'zzzz' + s[74:]
    return s


def field(spec):
    """A field from its description: base + step * (time - 1) + row * (latitude row)."""
    n = spec['n']
    ny, nx = (3600, 7200) if spec.get('fine') else (180, 360)
    a = np.empty((n, ny, 1))
    a[:] = spec.get('plus', 0) + spec['base'] / 8. + spec['step'] / 8. * np.arange(n).reshape(n, 1, 1)
    a = a + spec['row'] / 8. * (np.arange(ny) // (ny // 3)).reshape(1, ny, 1)
    return np.broadcast_to(a, (n, ny, nx))


class World(object):
    def __enter__(self):
        self.cwd, self.env, self.argv = os.getcwd(), dict(os.environ), list(sys.argv)
        self.d = tempfile.mkdtemp(dir='.')
        os.chdir(self.d)
        for n in ('sc', 'arch', 'out', 'clim', 'ostia'):
            os.mkdir(n)
        os.environ['SCRATCH'] = os.path.abspath('sc')
        self.saved = []
        return self

    def patch(self, obj, name, new):
        self.saved.append((obj, name, obj.__dict__[name]))
        setattr(obj, name, new)

    def __exit__(self, *a):
        for obj, name, old in reversed(self.saved):
            setattr(obj, name, old)
        os.chdir(self.cwd)
        os.environ.clear()
        os.environ.update(self.env)
        sys.argv = self.argv
        shutil.rmtree(self.d, ignore_errors=True)


def rows(name):
    with open(name) as f:
        r = list(csv.reader(f))
    return r[0], r[1:]


def cell(s, k):
    if s == '\\N':
        return NONE
    try:
        return enc_exact(float(s), k)
    except ValueError:
        return -66666


def emulate(w):
    """What differs between the Python 2 the programs are written for and this one: text from compressed files."""
    real = gzip.open
    w.patch(gzip, 'open', lambda f, mode='rb', *a, **k: real(f, 'rt' if mode in ('r', 'rb') else mode, *a, **k) if mode not in ('r', 'rb')
            else real(f, 'rt', encoding='latin-1', newline='\n'))

    def from_filename(cls, infile, var):
        if infile is None:
            m = np.ma.array(np.zeros((1, 1, 1)), mask=True)
            c = cls(np.ma.array(np.broadcast_to(m.data, (1, 3600, 7200)), mask=np.broadcast_to(np.array(True), (1, 3600, 7200)), copy=False))
            c.tag = 'none'
            return c
        with open(infile) as f:
            spec = json.load(f)[var]
        c = cls(field(spec))
        c.tag = os.path.basename(infile) + ':' + var
        return c
    w.patch(clim.Climatology, 'from_filename', classmethod(from_filename))


def ids_of(v):
    return [r.getvar('UID') for r in v.reps if not isinstance(v, ex.Deck) or v.filter.test_report(r) == 0]


def run(v):
    with World() as w:
        p = v['params']
        for name, spec in v['fields'].items():
            with open('clim/' + name, 'w') as f:
                json.dump({spec['var']: spec}, f)
        for o in v['ostia']:
            with open('ostia/o_%04d%02d%02d.json' % tuple(o['d']), 'w') as f:
                json.dump({'analysed_sst': {'n': 1, 'base': o['sst'], 'plus': 273.15, 'step': 0, 'row': 8, 'fine': 1},
                           'sea_ice_fraction': {'n': 1, 'base': o['ice'], 'step': 0, 'row': 1, 'fine': 1}}, f)
        for a in v['archive']:
            with gzip.open('arch/R_%04d-%02d.gz' % (a['y'], a['m']), 'wt', encoding='latin-1', newline='\n') as f:
                for r in a['recs']:
                    f.write(line(r) + '\n')
        with open('ids.txt', 'w') as f:
            f.write('\n'.join(v['bad']) + '\n')
        two = lambda x: [x[0] / 8., x[1] / 8.]
        par = {'runid': 'run', 'icoads_dir': ['nowhere', 'arch'], 'icoads_filenames': ['R_YYYY-MMMM.gz', 'R_YYYY-MMMM.gz'],
               'background_dir': ['ostia'], 'background_filenames': ['o_YYYYMMMMDDDD.json'],
               'climatologies': [[x, s, 'clim/%s_%s' % (x, s), v['fields']['%s_%s' % (x, s)]['var']] for x, s in v['lib']],
               'hires_climatologies': [['AT', 'mean', 'clim/AT_mean', 'at'], ['SST', 'mean', 'clim/SST_hires', 'temperature']],
               'base': {'time_since_sun_above_horizon': 1.0},
               'SST': {'freezing_point': p['SST']['fp'] / 8., 'freeze_check_n_sigma': p['SST']['n'] / 8., 'maximum_anomaly': p['SST']['max'] / 8., 'hard_limits': two(p['SST']['hard'])},
               'AT': {'maximum_anomaly': p['AT']['max'] / 8., 'hard_limits': two(p['AT']['hard']), 'minmax_standard_deviation': two(p['AT']['minmax']), 'maximum_standardised_anomaly': p['AT']['maxsd'] / 8.},
               'DPT': {'hard_limits': two(p['DPT']['hard']), 'minmax_standard_deviation': two(p['DPT']['minmax']), 'maximum_standardised_anomaly': p['DPT']['maxsd'] / 8.},
               'SHU': {'hard_limits': [-1e9, 1e9]}, 'RH': {'hard_limits': [-1e9, 1e9]},
               'SLP': {'maximum_anomaly': 10.0, 'maximum_standardised_anomaly': p['SLP']['maxsd'] / 8., 'lowbar': p['SLP']['low'] / 8.},
               'W': {'hard_limits': two(p['W']['hard']), 'variable_limit': p['W']['var'] / 8.},
               'track_check': {'max_direction_change': 60.0, 'max_speed_change': 10.0, 'max_absolute_speed': 40.0, 'max_midpoint_discrepancy': 150.0},
               'IQUAM_track_check': {'buoy_speed_limit': 15.0, 'ship_speed_limit': 60.0, 'delta_d': 1.11, 'delta_t': 0.01, 'number_of_neighbours': 5},
               'IQUAM_spike_check': {'max_gradient_space': 0.5, 'max_gradient_time': 1.0, 'delta_t': 2.0, 'number_of_neighbours': 5, 'ship_delta_t': 2.0, 'buoy_delta_t': 1.0},
               'saturated_runs': {'min_time_threshold': p['sat']['time'] / 60., 'shortest_run': p['sat']['short']},
               'multiple_rounded_values': {'min_count': p['round']['min'], 'threshold': p['round']['num'] / float(p['round']['den'])},
               'find_repeated_values': {'min_count': p['rep']['min'], 'threshold': p['rep']['num'] / float(p['rep']['den'])},
               'bayesian_buddy_check': {'prior_probability_of_gross_error': 1.0 if p['prior'] else 1e-9, 'quantization_interval': 0.125,
                                        'measurement_error': 100.0, 'limits': [2, 2, 4], 'noise_scaling': 3.0}}
        for k in ('mds', 'slp'):
            par[k + '_buddy_check'] = {'limits': [[1, 1, 2]], 'number_of_obs_thresholds': [[0]], 'multipliers': [[1.0 if k == 'mds' else 2.0]]}
        for k in BLOCKS:
            par[k]['name'] = k
        with open('par.json', 'w') as f:
            json.dump(par, f)
        with open('conf.txt', 'w') as f:
            f.write('[Directories]\nICOADS_dir = x\nout_dir = out\n[Files]\nIDs_to_exclude = ids.txt\nparameter_file = par.json\n[Icoads]\nicoads_version = 3.0\n'
                    '[Climatologies]\nOld_SST_stdev_climatology = clim/pentad_sd\nSST_buddy_one_box_to_buddy_avg = clim/sd1\n'
                    'SST_buddy_one_ob_to_box_avg = clim/sd2\nSST_buddy_avg_sampling = clim/sd3\n' +
                    ''.join('%s_ostia_background = clim/bg_%s\n' % (s, s) for s in ('DJF', 'MAM', 'JJA', 'SON')))
        emulate(w)
        events, decks = [], []

        def month(obj):
            if not isinstance(obj, ex.Deck):
                return len(decks) + 1
            if not any(obj is d for d in decks):
                decks.append(obj)
            return [obj is d for d in decks].index(True) + 1
        tags = lambda a: [getattr(x, 'tag', None) or '' for x in a if isinstance(x, clim.Climatology)]

        def block(x):
            return ([b for b in BLOCKS if par[b] == x] + ['all' if x == par else '?'])[0]

        def wrap(cls, name):
            real = cls.__dict__[name]

            def f(self, *a, **k):
                out = real(self, *a, **k)
                args = list(a) + list(k.values())
                d = [block(x) for x in args if isinstance(x, dict)]
                var = [x for x in args if isinstance(x, str)]
                events.append({'month': month(self), 'fn': name, 'var': var[0] if var else '', 'par': d[0] if d else '', 'sd': tags(args), 'uids': ids_of(self),
                               'state': [{'uid': r.getvar('UID'), 'trk': r.get_qc('POS', 'trk'), 'day': r.get_qc('POS', 'day')} for r in self.reps] if cls is ex.Deck else []})
                return out
            w.patch(cls, name, f)
        for n in CHECKS:
            wrap(ex.Voyage, n)
        for n in DECK:
            wrap(ex.Deck, n)
        mod = importlib.import_module(PROGRAMS[v['program']])
        sys.argv = [PROGRAMS[v['program']] + '.py', '-config', 'conf.txt', '-year1', str(v['y1']), '-month1', str(v['m1']),
                    '-year2', str(v['y2']), '-month2', str(v['m2'])] + (['-tracking'] if v['tracking'] else [])
        mod.main(sys.argv[1:])
        for n in ('out',):
            files = sorted(os.path.join(r, x)[len(n) + 1:] for r, ds, fs in os.walk(n) for x in fs)
        months, strays = {}, []
        for f in files:
            parts = f.split('/')
            if len(parts) != 3:
                strays.append(f)
                continue
            m = months.setdefault(parts[0] + '/' + parts[1], {'vars': [], 'flags': [], 'ids': [], 'listed': 0})
            g = tell('out/' + f, parts[2], m)
            if g:
                strays.append(f)
        return {'months': [dict(months[k], t=12 * int(k[:4]) + int(k[5:7]) - 1) for k in sorted(months)], 'strays': strays, 'events': events}


VARS = ['YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'AT', 'AT_anom', 'SST', 'SST_anom', 'DPT', 'DPT_anom', 'SLP', 'SLP_anom', 'OSTIA', 'ICE', 'BGVAR', 'W', 'D']
ANOM = {'HR': 120, 'LAT': 100, 'LON': 100}


def tell(path, name, m):
    if name == 'ID_file.txt':
        m['listed'] = 1
        with open(path) as f:
            for l in f.read().splitlines():
                a, _, b = l.partition(',')
                m['ids'].append({'id': a, 'safe': b})
        return 0
    head, body = rows(path)
    which = ''
    base = name[:-4]
    y, mo = path.split('/')[1:3]
    for kind in ['Variables'] + [g + '_qc' for g in FLAGS]:
        pre = '%s_%s%s_' % (kind, y, mo)
        if base.startswith(pre):
            rest = base[len(pre):]
            for tail in ('hires_run', 'run'):
                if rest == tail:
                    which = ''
                elif rest.endswith('_' + tail):
                    which = rest[:-len(tail) - 1]
                else:
                    continue
                recs = []
                for r in body:
                    if len(r) != len(head):
                        recs.append({'uid': '', 'c': {}})
                        continue
                    d = dict(zip(head, r))
                    if kind == 'Variables':
                        c = {x: cell(d[x], ANOM.get(x, 1 if x in ('YR', 'MO', 'DY', 'D') else 8)) for x in VARS if x in d}
                    else:
                        c = {x: cell(d[x], 1) for x in d if x != 'UID'}
                    recs.append({'uid': d.get('UID', ''), 'id': d.get('ID', '') if d.get('ID') != '\\N' else '', 'c': c})
                if kind == 'Variables':
                    m['vars'].append({'for': which, 'tail': tail, 'recs': recs})
                else:
                    m['flags'].append({'group': kind[:-3], 'for': which, 'tail': tail, 'recs': recs})
                return 0
    return 1
