"""C22: see drifter.py."""
import drifter

KINDS = {'spd': drifter.drift}


def generate(g):
    drifter.generate(g, 'spd')
