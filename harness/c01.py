"""C01: the report collection and its platforms (specification: Deck, T_Deck)."""
import Extended_IMMA as ex
from mk import report, IDS
from rt import NONE

WATCH = [['SST', 'x'], ['AT', 'x'], ['SST', 'y']]


def uid(rep):
    return int(rep.getvar('UID'))


def plats(deck, whole=0):
    out = []
    gen = deck.get_one_platform_at_a_time()
    for v in (list(gen) if whole else gen):     # one after the other, or all of them first
        reps = list(v.rep_feed())
        if len(v) != len(reps):
            out.append([-1, [len(v)]])
        ids = set(r.getvar('ID') for r in reps)
        if len(ids) > 1:
            out.append([-2, [uid(r) for r in reps]])
        elif reps:
            out.append([IDS.index(ids.pop()), [uid(r) for r in reps]])
    return out


def clock(t):
    if t == NONE:
        return {'HR': None}
    return {'YR': 2000 + t // 1000000, 'MO': 1 + (t // 40320) % 12, 'DY': 1 + (t // 1440) % 28, 'HR': (t % 1440) / 60.0 + 1e-4}     # (an hour is rounded down to the minute)


def make(r):
    return report(UID=str(r['u']), ID=IDS[r['id']], LAT=float(r['u']), LON=float(r['id']), **clock(r['t']))


def deck(inp):
    d = ex.Deck()
    parts = (ex.Deck(), ex.Deck())
    filt = ex.QC_filter()
    obs = []
    for k, o in enumerate(inp['ops']):
        popped = 0
        if o['op'] == 'append':
            d.append(make(o['r']))
        elif o['op'] == 'sort':
            d.sort()
        elif o['op'] == 'pop':
            popped = uid(d.pop(o['p'] - 1))
        elif o['op'] == 'rename':
            d.reps[o['p'] - 1].setvar('ID', IDS[o['id']])
            for name, value in clock(o['t']).items():
                d.reps[o['p'] - 1].setvar(name, value)
        elif o['op'] == 'flag':
            d.reps[o['p'] - 1].set_qc(o['t'], o['n'], o['v'])
        elif o['op'] == 'all':
            d.set_qc(o['t'], o['n'], o['v'])
        elif o['op'] in ('filter', 'split'):
            f = ex.QC_filter()
            for c in o['f']:
                f.add_qc_filter(c['t'], c['n'], c['v'])
            if o['op'] == 'filter':
                d.add_filter(f)
                filt = f
            else:
                parts = f.split_reports(d)
        # the platforms are looked at after every call, or only now and then: a
        # look must show the same whether or not somebody looked before
        seen = inp['look'][k]
        obs.append({'reps': [uid(r) for r in d.reps], 'n': len(d), 'seen': seen, 'popped': popped,
                    'plat': plats(d, inp['whole']) if seen else [],
                    'pass': [filt.test_report(r) for r in d.reps],
                    'flags': [[r.get_qc(a, b) for a, b in WATCH] for r in d.reps],
                    'p': [uid(r) for r in parts[0].reps], 'f': [uid(r) for r in parts[1].reps],
                    'pplat': plats(parts[0]) if seen else [], 'fplat': plats(parts[1]) if seen else []})
    return {'obs': obs}


KINDS = {'deck': deck}


def rand_filter(rng):
    return [{'t': rng.choice(['SST', 'AT']), 'n': rng.choice('xy'), 'v': rng.choice([0, 0, 0, 1, 9, 9])}
            for _ in range(rng.choice([0, 1, 1, 2, 3]))]


def generate(g):
    for h in g.behaviours.get('deck', []):
        g.fixed('deck', {'ops': h, 'watch': WATCH, 'whole': 0, 'look': [1] * len(h)})
        g.fixed('deck', {'ops': h, 'watch': WATCH, 'whole': 1, 'look': [0] * (len(h) - 1) + [1]})
    rng = g.rng
    for _ in range(g.scale(400)):
        ops, n, u = [], 0, 0
        late = rng.random() < 0.3
        full = rng.randint(30, 60) if rng.random() < 0.03 else 0
        for _ in range(rng.randint(5, 30) if rng.random() < 0.97 and not full else rng.randint(80, 140)):
            r = rng.random()
            if n < full and r >= 0.55 and u < full + 20:
                r = 0.3
            if n == 0 or r < 0.4:
                u += 1
                n += 1
                t = NONE if rng.random() < 0.07 else rng.randrange(0, 40320 * 12) // rng.choice([1, 1440])
                ops.append({'op': 'append', 'r': {'u': u, 'id': rng.choice([1, 2, 3, 4, 5, 6, 7, 8]) if late else rng.randint(1, 4), 't': t}})
            elif r < 0.55:
                ops.append({'op': 'sort'})
            elif r < 0.63:
                ops.append({'op': 'pop', 'p': rng.choice([1, n, rng.randint(1, n)])})
                n -= 1
            elif r < 0.67:
                ops.append({'op': 'rename', 'p': rng.choice([1, n, rng.randint(1, n)]), 'id': rng.randint(1, 4), 't': NONE if rng.random() < .1 else rng.randrange(0, 40320)})
            elif r < 0.77:
                w = rng.choice(WATCH)
                ops.append({'op': 'flag', 'p': rng.randint(1, n), 't': w[0], 'n': w[1], 'v': rng.choice([0, 0, 0, 1, 1, 9, 5])})
            elif r < 0.84:
                w = rng.choice(WATCH)
                ops.append({'op': 'all', 't': w[0], 'n': w[1], 'v': rng.choice([0, 0, 1, 9, 7])})
            elif r < 0.97:
                ops.append({'op': 'filter', 'f': rand_filter(rng)})
            else:
                ops.append({'op': 'split', 'f': rand_filter(rng)})
                n = 0
        often = rng.choice([1, 2, 2, 4])
        g.case('deck', {'ops': ops, 'watch': WATCH, 'whole': rng.randint(0, 1),
                        'look': [1 if rng.randrange(often) == 0 else 0 for _ in ops[1:]] + [1]})
