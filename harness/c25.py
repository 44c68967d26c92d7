"""C25: the chunks of months of a drifter (Chunks, T_Chunks)."""
import numpy as np
import YMCounter as ym


def chunks(v):
    c = ym.YMCounter(v['y'], v['m'], v['y'] + (v['m'] - 1 + v['n'] - 1) // 12, (v['m'] - 1 + v['n'] - 1) % 12 + 1)
    for k, f in v['ops']:
        z = 12 * v['y'] + v['m'] - 1 + k - 1
        c.setym(z // 12, z % 12 + 1, f)
        if len(v['ops']) < 40:         # asked before everything is known
            c.get_chunks(v['gap'])
            list(c.yield_start_and_end_dates(v['gap']))
    s, e = c.get_chunks(v['gap'])
    got = [(list(map(int, r[:4])), sorted(r[4])) for r in c.yield_start_and_end_dates(v['gap'])]
    before = list(c.counter)
    again = [(list(map(int, r[:4])), sorted(r[4])) for r in c.yield_start_and_end_dates(v['gap'])]
    return {'starts': [int(x) for x in s], 'ends': [int(x) for x in e], 'rows': [r for r, _ in got], 'cls': [q for _, q in got],
            'again': int(again == got and list(c.counter) == before)}


KINDS = {'chunks': chunks}


def history(rng, n, gap):
    """Months with reports, with silences about as long as the gap."""
    h = []
    while len(h) < n:
        for _ in range(rng.choice([1, 1, 2, 3, 7])):
            h += [1] + [0] * rng.choice([0, 0, 1, max(0, gap - 1)])
        h += [0] * rng.choice([gap - 1, gap, gap, gap + 1, 2 * gap])
    k = rng.randint(0, gap + 1)
    h = ([0] * k + h) if rng.random() < .6 else h
    return h[:n]


def generate(g):
    rng = g.rng

    def make(h, gap):
        ops = [[k + 1, 1] for k, x in enumerate(h) if x]
        rng.shuffle(ops)
        if ops and rng.random() < .3:
            ops += [ops[0]]
        if rng.random() < .2 and h:
            z = rng.randrange(len(h))
            ops = [[z + 1, 1]] + ops if h[z] else [[z + 1, 1], [z + 1, 0]] + ops
        if rng.random() < .3:
            # months outside the period do not count
            ops = [[rng.choice([0, -1, -5, len(h) + 1, len(h) + 2, len(h) + 12]), 1] for _ in range(2)] + ops
            rng.shuffle(ops) if not h or rng.random() < .5 and len(set(o[0] for o in ops)) == len(ops) else None
        return {'y': rng.choice([1985, 1999, 2004]), 'm': rng.choice([1, 1, 12, rng.randint(1, 12)]), 'n': len(h), 'ops': ops, 'gap': gap}
    for b in g.behaviours.get('chunks', []):
        g.fixed('chunks', make(b['h'], b['gap']))
    for k in range(g.scale(2500, 20000)):
        gap = rng.choice([1, 2, 3, 3, 4, 6, 9, 10, 11, 12, 13, 18, 24])
        n = rng.choice([1, 2, 5, 12, 24, 36, 60]) if rng.random() < .995 else rng.choice([rng.randint(100, 140), 361, 625])
        h = history(rng, n, gap) if rng.random() < .8 else [int(rng.random() < .4) for _ in range(n)]
        g.case('chunks', make(h, gap))
