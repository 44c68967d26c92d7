"""C15: the Bayesian buddy check and its probabilities."""
import qc
import deckcheck
from rt import enc


def post(v):
    q, rh, rl, mu, s = v['q'] / 8.0, v['rh'] / 8.0, v['rl'] / 8.0, v['mu'] / 8.0, v['s'] / 4.0
    xs = [x / 8.0 for x in v['xs']]
    return {'p': [enc(qc.p_gross(v['pa'] / float(v['pb']), q, rh, rl, x, mu, s), 1000) for x in xs],
            'p2': [enc(qc.p_gross(v['pa2'] / float(v['pb']), q, rh, rl, x, mu, s), 1000) for x in xs],
            'good': [enc(qc.p_data_given_good(x, q, rh, rl, mu, s), 1000000) for x in xs],
            'gross': enc(qc.p_data_given_gross(q, rh, rl), 1000000)}


def total(v):
    q, rh, rl, mu, s = v['q'] / 8.0, v['rh'] / 8.0, v['rl'] / 8.0, v['mu'] / 8.0, v['s'] / 4.0
    xs = [x / 8.0 for x in range(v['rl'], v['rh'] + 1, v['q'])]
    return {'good': enc(sum(qc.p_data_given_good(x, q, rh, rl, mu, s) for x in xs), 1000000),
            'gross': enc(len(xs) * qc.p_data_given_gross(q, rh, rl), 1000000)}


KINDS = {'bayes': deckcheck.deck, 'post': post, 'total': total}


def generate(g):
    rng = g.rng
    P = dict(deckcheck.P0, lims=[[1, 1, 2], [2, 2, 4]], thr=[[0, 1], [0]], mult=[[4, 2], [8]], rh=64, pa=5, pb=100, q=1)
    deckcheck.from_model(g, 'bayes', P)
    for _ in range(g.scale(100, 3000)):
        p = dict(deckcheck.random_params(rng), rh=rng.choice([64, 64, 80, 96, 120]), pa=rng.choice([5, 5, 1, 20, 50, 80, 99]), pb=100, q=rng.choice([1, 1, 2, 4]))
        if rng.random() < .5:
            p.update(sm=rng.randint(0, 1), ns=1)
        deckcheck.case(g, 'bayes', rng, deckcheck.random_reps(rng), p, rng.choice(['SST', 'AT']))
    for _ in range(g.scale(1500, 30000)):
        rh = rng.choice([64, 80, 24])
        rl = -rh if rng.random() < .7 else -rh // 2
        mu = rng.choice([0, 0, rng.randint(-16, 16)])
        xs = sorted(x for x in set([rl, rh, mu] + [rng.randint(rl, rh) for _ in range(6)] + [min(rh, mu + d) for d in (1, 8, 17)]) if rl <= x <= rh)
        pa = rng.choice([1, 5, 5, 20, 50, 80, 98])
        g.case('post', {'q': rng.choice([1, 1, 2, 4, 8]), 'rh': rh, 'rl': rl, 'mu': mu, 's': rng.choice([1, 2, 4, 8, 6, 3]), 'xs': xs,
                        'pa': pa, 'pa2': rng.randint(pa + 1, 99), 'pb': 100})
    for _ in range(g.scale(200, 3000)):
        q = rng.choice([1, 2, 4, 8])
        k, j = rng.randint(1, 10), rng.randint(1, 10)
        g.case('total', {'q': q, 'rh': k * q, 'rl': -j * q, 'mu': rng.randint(-8, 8), 's': rng.choice([2, 4, 8, 16])})
