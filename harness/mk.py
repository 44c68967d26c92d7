"""Builders of the objects of the code under test (imported by the harnesses)."""
import Extended_IMMA as ex


class Rec(object):
    """The part of an IMMA record that a report is made from."""
    def __init__(self, data):
        self.data = data


def earlier(reps, names, run):
    """Runs a check when every other report still had other values, and gives the values back afterwards."""
    kept = [[r.getvar(n) for n in names] for r in reps]
    for k, r in enumerate(reps):
        for n in names:
            x = r.getvar(n)
            if k % 2:
                r.setvar(n, 20.0 if x is None else x / 2.0 if n == 'LAT' else x + 10.0)
            elif n != 'LAT' and x is not None:
                r.setvar(n, 15.0)
    run()
    for r, old in zip(reps, kept):
        for n, x in zip(names, old):
            r.setvar(n, x)


def report(cls=None, **data):
    d = {'ID': 'SHIP', 'UID': 'U1', 'YR': 2000, 'MO': 6, 'DY': 1, 'HR': 0.0, 'LAT': 0.0, 'LON': 0.0}
    d.update(data)
    return (cls or ex.MarineReport)(Rec(d))


IDS = ['', ' B', 'AA1', 'AB', 'B', 'BB23', 'C', 'D*/9', 'E']
