"""C24: the biased, noisy and short record checks of drifters; see background.py."""
import background

KINDS = {'rec': background.back}


def generate(g):
    background.generate(g, 'rec')
