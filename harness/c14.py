"""C14: the buddy check of a Deck."""
import deckcheck
KINDS = {'mds': deckcheck.deck}


def generate(g):
    rng = g.rng
    deckcheck.from_model(g, 'mds', dict(deckcheck.P0, lims=[[1, 1, 2], [2, 2, 4]], thr=[[0, 1], [0]], mult=[[4, 2], [8]], rh=64))
    for _ in range(g.scale(100, 3000)):
        p = dict(deckcheck.random_params(rng), rh=64)
        if rng.random() < .6:
            p['mult'] = [[rng.randint(1, 5) for _ in t] for t in p['thr']]
        reps = deckcheck.random_reps(rng)
        if rng.random() < .5:
            for r in reps:
                r['an'] = rng.choice([0, 0, 4, 8, 12, 16, 24, 32, -8, -16, -24])
        deckcheck.case(g, 'mds', rng, reps, p, rng.choice(['SST', 'AT', 'DPT', 'SLP']))
