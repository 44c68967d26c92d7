"""C16: the IQUAM track check."""
import removal
KINDS = {'iquam': removal.check}


def generate(g):
    removal.generate(g, 'iquam')
