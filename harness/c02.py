"""C02: flag store and filters (specification: Flags, T_Flags)."""
import Extended_IMMA as ex
from mk import report
from rt import enc, call, Raised

TYPES = ['POS', 'SST', 'AT', 'DPT', 'SLP', 'W', 'D', 'YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'DS', 'VS', 'AT2', 'DCK',
         'PT', 'SID', 'SHU', 'VAP', 'CRH', 'CWB', 'DPD', 'WI', 'DI', 'WW']
BADT = ['ICE', 'ID', 'UID', '', 'pos', 'DAT', 'RH', 'XX']


def flags(inp):
    reps = [report(cls=ex.MarineReportQC if inp.get('qc') and k % 2 else ex.MarineReport, UID=str(k), LAT=float(k)) for k in range(inp['nrep'])]
    voy, deck = ex.Voyage(), ex.Deck()
    for r in reps:
        voy.add_report(r)
        deck.append(r)
    filters = []
    for f in inp['filters']:
        q = ex.QC_filter()
        for c in f:
            q.add_qc_filter(c['t'], c['n'], c['v'])
        filters.append(q)
    if inp.get('deckfilter'):
        # what passes the filter of a deck does not decide which reports it sets a flag of
        deck.add_filter(filters[inp['deckfilter'] - 1])
    obs = []
    for o in inp['ops']:
        if o['via'] == 'rep':
            r = call(reps[o['u'] - 1].set_qc, o['t'], o['n'], o['v'])
        elif o['via'] == 'voy':
            r = call(voy.set_qc, o['u'] - 1, o['t'], o['n'], o['v'])
        else:
            r = call(deck.set_qc, o['t'], o['n'], o['v'])
        obs.append({'refused': 1 if isinstance(r, Raised) else 0,
                    'vals': [[enc(reps[k].get_qc(t, n)) if (k + len(obs)) % 2 else enc(voy.get_qc(k, t, n))
                              for t, n in inp['watch']] for k in range(len(reps))],
                    'filt': [[f.test_report(x) for f in filters] for x in reps]})
    return {'obs': obs}


KINDS = {'flags': flags}
F0 = [[], [{'t': 'SST', 'n': 'x', 'v': 0}], [{'t': 'SST', 'n': 'x', 'v': 1}, {'t': 'POS', 'n': 'x', 'v': 9}],
      [{'t': 'SST', 'n': 'x', 'v': 1}, {'t': 'SST', 'n': 'x', 'v': 9}]]


def generate(g):
    for h in g.behaviours.get('flags', []):
        g.fixed('flags', {'nrep': 2, 'ops': h, 'filters': F0, 'qc': 1, 'deckfilter': 2,
                          'watch': [['SST', 'x'], ['POS', 'x'], ['SST', 'y'], ['POS', 'y'], ['ICE', 'x']]})
    rng = g.rng
    for _ in range(g.scale(250)):
        tys = rng.sample(TYPES, 4)
        names = rng.sample(['clim', 'noval', 'bud', 'bbud', 'trk', 'few', 'day', 'x', ''], 3)
        watch = [[t, n] for t in tys for n in names]
        filters = [[{'t': t, 'n': n, 'v': rng.choice([0, 0, 1, 9])} for t, n in rng.sample(watch, rng.randint(0, 4))]
                   for _ in range(4)]
        # one condition repeated, or two that cannot both hold
        for f in filters:
            if f and rng.random() < 0.4:
                f.insert(rng.randint(0, len(f)), dict(rng.choice(f), v=rng.choice([0, 1, 9])))
        ops = []
        for _ in range(rng.randint(10, 40)):
            t = rng.choice(BADT) if rng.random() < 0.08 else rng.choice(tys)
            v = rng.choice([-1, 10, 11, 99, -9]) if rng.random() < 0.1 else rng.choice([0, 0, 0, 1, 1, 9, 2, 3, 4, 5, 6, 7, 8])
            ops.append({'via': rng.choice(['rep', 'rep', 'voy', 'deck']), 'u': rng.randint(1, 3), 't': t, 'n': rng.choice(names), 'v': v})
        g.case('flags', {'nrep': 3, 'ops': ops, 'filters': filters, 'watch': watch, 'qc': rng.randint(0, 1),
                         'deckfilter': rng.randint(0, 4)})
