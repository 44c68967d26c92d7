"""C17: the spike check."""
import removal
KINDS = {'spike': removal.check}


def generate(g):
    removal.generate(g, 'spike')
