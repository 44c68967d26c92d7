"""C27: IMMA records (Imma, ImmaTables, T_Imma).  A line is a list of characters; numbers are in units of their field."""
import io
import json
import os
import re
import IMMA1
import SimpleIMMA

# the format: read from the specification
TABLES = {}
_text = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'ImmaTables.tla')).read()
for _m in re.finditer(r'^A(\d\d) == <<(.*?)>>', _text, re.M | re.S):
    TABLES[int(_m.group(1))] = [(n, int(w), int(u), int(c)) for n, w, u, c in re.findall(r'F\("(\w+)",(\d+),(\d+),(\d)\)', _m.group(2))]
UNIT = {}
for _t in TABLES.values():
    for _n, _w, _u, _c in _t:
        UNIT.setdefault(_n, (_u, _c))
SIMPLE = {'HR': 100, 'LAT': 100, 'LON': 100, 'AT': 10, 'SST': 10, 'DPT': 10}


def token(n, x, unit):
    if x is None:
        return 'none'
    if isinstance(x, str):
        return 's' + x
    z = float(x) * unit
    r = int(round(z))
    return 'i%d' % r if abs(z - r) < 1e-4 else 'x%r' % x


def units(atts):
    return {n: u for a in atts if a in TABLES for n, w, u, c in TABLES[a]}


def tell(rec):
    u = units(rec.attachments)
    return {str(n): token(n, x, u.get(n, 1)) for n, x in rec.data.items()}


def dec(v):
    rec = IMMA1.IMMA()
    line = ''.join(v['line'])
    try:
        if v['file']:
            rec.read(io.StringIO(line + '\n'))
        else:
            rec.readstr(line + ('\n' if v['nl'] else ''))
    except Exception:
        return {'exc': 1, 'atts': [], 'data': {}}
    return {'exc': 0, 'atts': list(rec.attachments), 'data': tell(rec)}


def enc(v):
    rec = IMMA1.IMMA()
    rec.attachments = list(v['atts'])
    for a, xs in zip(v['atts'], v['xs']):
        for (n, w, u, c), x in zip(TABLES[a], xs):
            if x['k'] == 0:
                rec[n] = None
            elif x['k'] == 2:
                rec[n] = ''.join(x['s'])
            elif u == 1:
                rec[n] = x['i']
            else:
                rec[n] = (x['i'] + x['j'] / 10.0) / u if x['j'] else x['i'] * (1.0 / u) if v['times'] else x['i'] / float(u)
    before = dict(rec.data)
    f = io.StringIO()
    try:
        rec.write(f)
        text = f.getvalue()
        back = IMMA1.read(io.StringIO(text)) if v['file'] else IMMA1.IMMA()
        if not v['file']:
            back.readstr(text)
    except Exception:
        return {'exc': 1}
    return {'exc': 0, 'line': list(text.rstrip('\n')), 'lines': text.count('\n'), 'kept': int(rec.data == before and rec.attachments == v['atts']),
            'atts': list(back.attachments), 'data': tell(back)}


def simple(v):
    rec = SimpleIMMA.IMMA()
    try:
        rec.readstr(''.join(v['line']) + '\n')
    except Exception:
        return {'exc': 1, 'data': {}}
    return {'exc': 0, 'data': {n: token(n, x, SIMPLE.get(n, 1)) for n, x in rec.data.items()}}


KINDS = {'dec': dec, 'enc': enc, 'simple': simple}
LETTERS = 'ABCXYZ0123456789-/*. '


def value(rng, f, full):
    n, w, u, c = f
    if full == 0 or full < 2 and rng.random() < .3:
        return {'k': 0}
    if c == 3:
        m = w or (rng.randint(1, 12) if rng.random() < .7 else rng.randint(60, 260))
        s = [rng.choice(LETTERS) for _ in range(m if m > 50 else rng.randint(1, m))]
        if w == 0 or not ''.join(s).strip():
            s[-1] = rng.choice('AZ9')
        return {'k': 2, 's': s}
    if c == 2:
        return {'k': 1, 'i': rng.choice([0, 9, 10, 35, rng.randint(0, 35)]), 'j': 0}
    d = min(w, 9)
    hi = 10 ** d - 1
    lo = -(10 ** (d - 1) - 1) if d > 1 else 0
    i = rng.choice([0, hi, lo, 1, -1 if d > 1 else 2, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(max(lo, -40), min(hi, 400))])
    return {'k': 1, 'i': i, 'j': rng.choice([0, 0, 0, 4, -4, 3, -2]) if u > 1 and lo < i < hi and i else 0}


def text(f, x):
    n, w, u, c = f
    if x['k'] == 0:
        return ' ' * (w or 1)
    if c == 3:
        return ''.join(x['s']).ljust(w)
    if c == 2:
        return '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[x['i']]
    return str(x['i']).rjust(w)


def make(rng, atts, full):
    return [[value(rng, f, k) for f in TABLES[a]] for a, k in zip(atts, full)]


def line(rng, atts, xs, mess=0):
    out = ''
    for a, v in zip(atts, xs):
        b = ''
        for f, x in zip(TABLES[a], v):
            t = text(f, x)
            if f[3] == 1 and x['k'] == 1 and rng.random() < .15 and x['i'] >= 0:
                t = t.strip().rjust(f[1], '0') if rng.random() < .6 else t.strip().ljust(f[1])
            b += t
        if a == 99:
            out += '99' + rng.choice([' 0', '  ']) + b
        elif a == 8:
            out += rng.choice([' 8', '08']) + '2U' + b
        elif a:
            cut = len(b)
            if mess == 1 and rng.random() < .4:       # an attachment shorter or longer than its table
                cut = rng.choice([len(b) - 1, len(b) - 3, len(b) + 3, 1, rng.randint(1, len(b))])
            b = (b + 'QQQ')[:cut]
            out += ('%2d%2d' if rng.random() < .8 else '%02d%2d') % (a, len(b) + 4) + b
        else:
            out += b
    return out


OTHERS = [a for a in sorted(TABLES) if a not in (0, 2, 3, 4)]


def pick(rng):
    pool = OTHERS if rng.random() < .8 else [a for a in sorted(TABLES) if a not in (0, 5, 6, 7)]
    r = [0] + rng.sample([a for a in pool if a != 99], rng.randint(0, rng.choice([1, 2, 3, 4])))
    if rng.random() < .3:
        r.append(99)
    return r


def generate(g):
    rng = g.rng
    seen = set()
    other = {1: [1, 9, 5, 95], 98: [98, 96, 97, 6], 8: [8], 99: [99], 0: [0]}
    for b in g.behaviours.get('rec', []):
        s = json.dumps(b, sort_keys=True)
        if s in seen:
            continue
        seen.add(s)
        for _ in range(2):
            atts = [rng.choice(other[a]) for a in b['atts']]
            full = [2 * f for f in b['full']]
            g.fixed('enc', {'atts': atts, 'xs': make(rng, atts, full), 'file': rng.randint(0, 1), 'times': rng.randint(0, 1)})
            g.fixed('dec', {'line': list(line(rng, atts, make(rng, atts, full)).rstrip() or 'x'), 'nl': rng.randint(0, 1), 'file': rng.randint(0, 1)})
    for k in range(g.scale(700, 8000)):
        atts = pick(rng)
        full = [rng.choice([0, 1, 1, 2, 2]) for _ in atts]
        g.case('enc', {'atts': atts, 'xs': make(rng, atts, full), 'file': rng.randint(0, 1), 'times': rng.randint(0, 1)})
    for k in range(g.scale(900, 8000)):
        atts = pick(rng)
        full = [rng.choice([0, 1, 1, 2, 2]) for _ in atts]
        t = list(line(rng, atts, make(rng, atts, full), int(rng.random() < .3)))
        if rng.random() < .25:                     # one character out of place
            z = rng.randrange(len(t))
            t[z] = rng.choice('xX-/? ')
            # a broken header could announce anything; a broken digit of base 36 is no number
            if not sane(t, atts, z):
                continue
        if rng.random() < .3:
            t = list(''.join(t).rstrip())
        if rng.random() < .1 and len(t) > 2:       # cut short within the core or the last body
            m = rng.randint(1, min(107, len(t)))
            t = t[:m]
        if not ''.join(t).strip():
            continue
        g.case('dec', {'line': t, 'nl': rng.randint(0, 1), 'file': rng.randint(0, 1)})
    for k in range(g.scale(300, 3000)):
        s = ''.join(text(f, value(rng, f, rng.choice([1, 2]))) for f in
                    [('', w, 1, c) for w, c in ((4, 1), (2, 1), (2, 1), (4, 1), (5, 1), (6, 1), (1, 1), (1, 1), (9, 3), (4, 1), (4, 1), (4, 1), (3, 1), (3, 1), (2, 1), (6, 3))])
        t = list(s)
        for _ in range(rng.choice([0, 0, 1, 3])):
            t[rng.randrange(len(t))] = rng.choice('xX /-')
        if rng.random() < .2:
            t = t[:rng.randint(1, len(t))]
        g.case('simple', {'line': t})


def sane(t, atts, z):
    """Is character z within a body and not of a base 36 field?"""
    at = 0
    s = ''.join(t)
    for n, a in enumerate(atts):
        if a:
            if z < at + 4:
                return False
            try:
                L = 102 if a == 8 else int(s[at + 2:at + 4] or 0)
            except ValueError:
                L = 0
            at += 4
            L = L - 4 if L else len(s) - at
        else:
            L = 108
        if z < at + L:
            p = at
            for _, w, u, c in TABLES[a]:
                if p <= z < p + (w or 999):
                    return c != 2
                p += w
            return True
        at += L
    return False
