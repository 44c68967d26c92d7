"""C21: see drifter.py."""
import drifter

KINDS = {'agr': drifter.drift}


def generate(g):
    drifter.generate(g, 'agr')
