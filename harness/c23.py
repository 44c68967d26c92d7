"""C23: the tail check of drifters; see background.py."""
import background

KINDS = {'tail': background.back}


def generate(g):
    background.generate(g, 'tail')
