"""C33: robust averages and the neighbour-count multiplier (Averages, MC_Averages, T_Averages)."""
import random
import numpy as np
import qc
import trackqc
import Extended_IMMA as ex
from rt import enc, encr, call


def means(v):
    s = [x / 8. for x in v['s']]
    z = list(s)
    random.Random(len(s) * 7 + v['trim']).shuffle(z)
    u = 8000
    a = np.array(s)
    b = list(s)
    c = np.array(z)
    trackqc.trim_std(c, v['trim']), trackqc.trim_mean(c, v['trim'])
    out = {'win': enc(qc.winsorised_mean(list(s)), u), 'win2': enc(qc.winsorised_mean(list(z)), u),
           'trim': enc(qc.trimmed_mean(list(s), v['trim']), u), 'trim3': enc(qc.trimmed_mean(list(z), v['trim']), u),
           'trim2': enc(trackqc.trim_mean(a, v['trim']), u), 'trim4': enc(trackqc.trim_mean(z, v['trim']), u),
           'std': enc(trackqc.trim_std(b, v['trim']), 800), 'std2': enc(trackqc.trim_std(np.array(z), v['trim']), 800)}
    out['kept'] = int(list(a) == s and b == s and list(c) == z)
    return out


def mult(v):
    return {'m': encr(call(ex.get_threshold_multiplier, v['n'], list(v['limits']), [m / 1000. for m in v['mults']]), 1000)}


KINDS = {'means': means, 'mult': mult, 'refuse': mult}
TRIMS = [0, 2, 3, 4, 5, 10, 20, 100]


def generate(g):
    rng = g.rng
    for k, s in enumerate(g.behaviours['sample']):
        for t in (TRIMS if g.thorough else [0, TRIMS[1 + k % 5]]):
            if t != 2 or len(s) % 2:     # otherwise nothing is left to average
                g.fixed('means', {'s': s, 'trim': t})
    for _ in range(g.scale(2500, 40000)):
        n = rng.choice([rng.randint(1, 12), rng.randint(1, 60), 4, 8, 20, 40])
        t = rng.choice(TRIMS)
        if rng.random() < 0.3:
            n = rng.choice([1, 2, 3]) * max(t, 2) + rng.choice([-1, 0, 1])
        n = max(1, min(n, 120))
        w = rng.choice([3, 10, 100])
        s = [rng.randint(-w, w) for _ in range(n)]
        for _ in range(rng.choice([0, 0, 1, n // 5])):
            s[rng.randrange(n)] = rng.choice([-1, 1]) * rng.randint(100, 300)
        g.case('means', {'s': s, 'trim': t if t != 2 or n % 2 else 3})
    for _ in range(g.scale(1200, 10000)):
        k = rng.randint(1, 5)
        lim = [0] + sorted(rng.sample(range(1, 120), k - 1))
        m = [rng.randint(1, 40) * 100 for _ in range(k)]
        n = rng.choice([0, 1, rng.randint(0, 130), max(0, rng.choice(lim) + rng.choice([-1, 0, 1]))])
        g.case('mult', {'n': n, 'limits': lim, 'mults': m})
    for lim, m in (([1, 5], [4000, 3000]), ([0, 5, 5], [4000, 3000, 2000]), ([0, 5, 4], [4000, 3000, 2000]), ([0, 5], [4000]),
                   ([0, 5], [4000, 0]), ([0, 5], [-1000, 3000]), ([-1, 0], [4000, 3000]), ([5, 0], [4000, 3000])):
        for n in (0, 1, 7):
            g.fixed('refuse', {'n': n, 'limits': lim, 'mults': m})
