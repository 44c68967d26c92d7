"""C29: names of files, background fields, lists of identifiers (Files, Unpack, T_Files)."""
import bz2
import os
import shutil
import signal
import stat
import tempfile
import time
import BackgroundField as bf
from rt import NONE, deci

STANDIN = '''#!/bin/sh
# stands in for bunzip2: does what FAULT_DIR/<WHO>.mode says
mode=ok
[ -f "$FAULT_DIR/$WHO.mode" ] && mode=$(cat "$FAULT_DIR/$WHO.mode")
if [ "$mode" = ok ]; then exec "$REAL_BUNZIP2" "$@"; fi
whole=$("$REAL_BUNZIP2" "$@")
printf '%s' "$whole" | head -c 3
if [ "$mode" = half ]; then exit 1; fi
: > "$FAULT_DIR/$WHO.half"
n=0
while [ ! -f "$FAULT_DIR/$WHO.go" ] && [ $n -lt 1500 ]; do sleep 0.01; n=$((n+1)); done
go=$(cat "$FAULT_DIR/$WHO.go")
if [ "$go" = fail ] || [ "$go" = kill ]; then exit 1; fi
printf '%s' "$whole" | tail -c +4
exit 0
'''


def text(chars):
    return ''.join(chars)


class Place(object):
    """A scratch world: archive, scratch directory and stand-in under one temporary directory that is the cwd."""

    def __enter__(self):
        self.cwd, self.env = os.getcwd(), dict(os.environ)
        self.d = tempfile.mkdtemp(dir='.')
        os.chdir(self.d)
        for n in ('sc', 'fault', 'bin'):
            os.mkdir(n)
        real = shutil.which('bunzip2')
        with open('bin/bunzip2', 'w') as f:
            f.write(STANDIN)
        os.chmod('bin/bunzip2', 0o755)
        here = os.getcwd()
        os.environ.update(PATH=os.path.join(here, 'bin') + ':' + self.env.get('PATH', ''), SCRATCH=os.path.join(here, 'sc'),
                          FAULT_DIR=os.path.join(here, 'fault'), REAL_BUNZIP2=real, WHO='0')
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        os.environ.clear()
        os.environ.update(self.env)
        shutil.rmtree(self.d, ignore_errors=True)


def put(name, form):
    d = os.path.dirname(name)
    if d and not os.path.isdir(d):
        os.makedirs(d)
    body = ('<%s>' % name).encode()
    if form == 'empty':
        body = b''
    elif form == 'corrupt':
        body = bz2.compress(body)[:-5]
    elif name.endswith('.bz2'):
        body = bz2.compress(body)
    with open(name, 'wb') as f:
        f.write(body)


def tree(d, keep=('sc', 'fault', 'bin')):
    out = {}
    for r, ds, fs in os.walk(d):
        if os.path.normpath(r) == '.':
            ds[:] = [x for x in ds if x not in keep]
        for f in fs:
            with open(os.path.join(r, f), 'rb') as h:
                out[os.path.normpath(os.path.join(r, f))] = h.read()
    return out


def look(ret):
    """What the returned file holds and where it is."""
    if ret is None:
        return {'got': '', 'at': ''}
    try:
        with open(ret, 'rb') as f:
            body = f.read().decode('latin-1')
    except IOError:
        return {'got': 'unreadable', 'at': ''}
    got = body[1:-1] if body[:1] == '<' and body[-1:] == '>' else 'part'
    at = 'scratch' if os.path.realpath(ret).startswith(os.path.realpath('sc') + os.sep) else 'place'
    return {'got': got, 'at': at}


def archive(v):
    with Place():
        res = []
        tpl = v['tpl']
        for a in v['acts']:
            if a['a'] != 'ask':
                put(a['name'], a['a'])
                res.append({'got': '', 'at': ''})
                continue
            with open('fault/0.mode', 'w') as f:
                f.write({'none': 'ok', 'half': 'half'}[a['fault']])
            before = tree('.')
            r = bf.get_background_filename([text(t['dir']) for t in tpl], [text(t['file']) for t in tpl],
                                           deci(a['y']), deci(a['m']), deci(a['d']))
            res.append(look(r))
            kept = tree('.') == before
            if not kept:
                return {'res': res, 'kept': 0}
        return {'res': res, 'kept': 1}


def race(v):
    with Place():
        put('arch/f.nc.bz2', 'packed')
        kids, res = {}, []

        def answer(p):
            with open('fault/%d.ans' % p) as f:
                s = f.read()
            return {'': 'none', 'EXC': 'raised', 'arch/f.nc.bz2': 'whole'}.get(s, 'part')

        def done(p, wait):
            end = time.time() + wait
            while time.time() < end:
                pid, _ = os.waitpid(kids[p], os.WNOHANG)
                if pid:
                    del kids[p]
                    return True
                if wait and os.path.exists('fault/%d.half' % p) and not os.path.exists('fault/%d.go' % p):
                    return False
                time.sleep(0.002)
            return False
        try:
            for a in v['acts']:
                p = a['p']
                if a['a'] == 'start':
                    for x in ('half', 'go', 'ans'):
                        if os.path.exists('fault/%d.%s' % (p, x)):
                            os.remove('fault/%d.%s' % (p, x))
                    with open('fault/%d.mode' % p, 'w') as f:
                        f.write('step')
                    pid = os.fork()
                    if pid == 0:
                        signal.alarm(0)
                        try:
                            os.setsid()
                            os.environ['WHO'] = str(p)
                            try:
                                s = look(bf.get_background_filename(['arch'], ['f.nc'], 2000, 1, 1))['got']
                            except Exception:
                                s = 'EXC'
                            with open('fault/%d.tmp' % p, 'w') as f:
                                f.write(s)
                            os.rename('fault/%d.tmp' % p, 'fault/%d.ans' % p)
                        finally:
                            os._exit(0)
                    kids[p] = pid
                    res.append(answer(p) if done(p, 6) else
                               'pending' if os.path.exists('fault/%d.half' % p) else 'stuck')
                elif p not in kids:
                    res.append('idle')
                elif a['a'] == 'kill':
                    os.killpg(kids[p], signal.SIGKILL)      # its own session: the call and what it started
                    os.waitpid(kids.pop(p), 0)
                    res.append('killed')
                else:
                    with open('fault/%d.tmp' % p, 'w') as f:
                        f.write(a['a'])
                    os.rename('fault/%d.tmp' % p, 'fault/%d.go' % p)
                    res.append(answer(p) if done(p, 6) else 'stuck')
        finally:
            for p in list(kids):
                try:
                    os.killpg(kids[p], signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(kids[p], 0)
        return {'res': res}


def fill(v):
    return {'s': bf.process_string(text(v['s']), v['y'], v['m'], v['d'])}


def make(v):
    return {'s': bf.make_filename(text(v['dir']), text(v['file']), v['y'], v['m'], v['d'])}


def release(v):
    return {'s': bf.icoads_filename(v['dir'], v['y'], v['m'], v['v'])}


def stub(v):
    with Place():
        for n in v['files']:
            put(n, 'plain')
        for n in v['folders']:
            if not os.path.isdir(n):
                os.makedirs(n)
        r = bf.icoads_filename_from_stub([text(t['dir']) for t in v['tpl']], [text(t['file']) for t in v['tpl']],
                                         deci(v['y']), deci(v['m']))
        return {'s': '' if r is None else r}


def ids(v):
    with Place():
        with open('ids.txt', 'w', newline='') as f:
            f.write('\n'.join(text(l) for l in v['lines']) + ('\n' if v['end'] else ''))
        got = bf.process_bad_id_file('ids.txt')
        hit = []
        for p in v['probe']:
            s = text(p)
            hit.append(int((s.ljust(9) if s.strip() else None) in got or (not s.strip() and (s in got or ' ' * 9 in got or '' in got))))
        return {'hit': hit}


def dirs(v):
    with Place():
        os.mkdir('out')
        for b in v['before']:
            if not os.path.isdir(b):
                os.makedirs(b)
        lst, ret = [], ''
        for _ in range(v['times']):
            if v['what'] == 'month':
                ret = bf.safe_make_dir('out', v['y'], v['m'])
            elif v['what'] == 'generic':
                ret = bf.safe_make_dir_generic('out', list(v['subs']))
            else:
                lst = bf.build_completions('out', list(v['subs']))
                ret = lst[-1]
        found = []
        for r, ds, fs in os.walk('out'):
            found += [os.path.join(r, x) for x in ds + fs]
        return {'ret': ret, 'tree': sorted(found), 'list': lst}


KINDS = {'archive': archive, 'race': race, 'fill': fill, 'make': make, 'release': release, 'stub': stub, 'ids': ids, 'dirs': dirs}


def generate(g):
    rng = g.rng
    ch = lambda s: list(s)
    fills = lambda s, y, m, d: s.replace('YYYY', '%04d' % y).replace('MMMM', '%02d' % m).replace('DDDD', '%02d' % d)
    date = lambda: (rng.choice([1850, 1985, 2007, 2019, 999, rng.randint(1, 9999)]), rng.randint(1, 12), rng.randint(1, 31))
    word = lambda n=6: ''.join(rng.choice(['YYYY', 'MMMM', 'DDDD', 'Y', 'M', 'D', 'YY', 'MMM', 'x', '_', '-', '.', '0', 'OSTIA', '{}', '%', 'bz2', '.bz2'])
                               for _ in range(rng.randint(1, n)))
    # the archive that grows
    T2 = [{'dir': ch('a/YYYY/MMMM'), 'file': ch('sst_YYYYMMMMDDDD.nc')}, {'dir': ch('b/DDDD'), 'file': ch('f_YYYYMMMMDDDD.nc')}]
    SAME = [{'dir': ch('a/YYYY/MMMM/DDDD'), 'file': ch('sst.nc')}, {'dir': ch('b/YYYYMMMMDDDD/'), 'file': ch('sst.nc')}]
    for n, b in enumerate(g.behaviours.get('archive', [])):
        if n % (2 if g.thorough else 4):
            continue
        tpl = SAME if (n // 8) % 2 else T2
        acts = []
        for a in b:
            y, m, d = 2004, 12 if (n // 16) % 2 else 2, [None, 9, 28][a['d']]
            if a['a'] == 'ask':
                acts.append({'a': 'ask', 'y': y, 'm': m, 'd': d, 'fault': 'none', 'name': ''})
            else:
                t = tpl[a['t'] - 1]
                name = os.path.join(fills(text(t['dir']), y, m, d), fills(text(t['file']), y, m, d))
                acts.append({'a': a['a'], 'name': name + ('.bz2' if a['a'] == 'packed' else ''), 'y': y, 'm': m, 'd': d, 'fault': 'none'})
        g.fixed('archive', {'tpl': tpl, 'acts': acts})
    for _ in range(g.scale(600)):
        nt = rng.randint(1, 4)
        tpl, seen = [], set()
        while len(tpl) < nt:
            d = '/'.join([rng.choice(['a', 'b', 'x y', 'c.bz2.d', "q'"])] + [rng.choice(['YYYY', 'MMMM', 'DDDD', 'YYYYMMMM', 'n']) for _ in range(rng.randint(0, 3))]) + rng.choice(['', '/'])
            f = rng.choice(['sst.nc', 'YYYYMMMMDDDD-OSTIA.nc', 'ice_DDDD MMMM.nc', 'f$1_YYYY.nc', 'a;b.nc'])
            if (d.rstrip('/'), f) not in seen:
                seen.add((d.rstrip('/'), f))
                tpl.append({'dir': ch(d), 'file': ch(f)})
        days = [date() for _ in range(2)]
        acts = []
        for k in range(rng.randint(2, 8)):
            y, m, d = rng.choice(days)
            if rng.random() < 0.5:
                z = rng.random()
                a = {'a': 'ask', 'y': NONE if z < 0.03 else y, 'm': NONE if 0.03 < z < 0.06 else m, 'd': NONE if 0.06 < z < 0.09 else d,
                     'fault': 'half' if rng.random() < 0.25 else 'none', 'name': ''}
            else:
                t = rng.choice(tpl)
                form = rng.choice(['plain', 'packed', 'packed', 'packed', 'empty', 'emptypacked', 'corrupt'])
                name = os.path.join(fills(text(t['dir']), y, m, d), fills(text(t['file']), y, m, d))
                if form in ('packed', 'emptypacked', 'corrupt'):
                    name += '.bz2'
                a = {'a': 'empty' if form == 'emptypacked' else form, 'name': name, 'y': y, 'm': m, 'd': d, 'fault': 'none'}
                if any(x['name'] == name for x in acts):
                    continue          # a field that is there does not change
            acts.append(a)
        g.case('archive', {'tpl': tpl, 'acts': acts})
    # programs that share the scratch directory
    for n, b in enumerate(g.behaviours.get('race', [])):
        if not g.thorough or n % 8 == 0:
            g.fixed('race', {'acts': b})
    # names
    for _ in range(g.scale(1500)):
        y, m, d = date()
        g.case('fill', {'s': ch(word(8)), 'y': y, 'm': m, 'd': d})
        dd = rng.choice(['', '/', '/data/', 'a']) + '/'.join(word(3) for _ in range(rng.randint(0, 3))) + rng.choice(['', '/'])
        g.case('make', {'dir': ch(dd), 'file': ch(word(5)), 'y': y, 'm': m, 'd': d})
    for y in list(range(1850, 2026)):
        for v in ('2.5', '3.0'):
            if v == '3.0' or y <= 2014:
                for m in range(1, 13):
                    if g.thorough or (y + m) % 6 == 0 or (2005 < y < 2017 and m in (1, 9, 10, 12)):
                        g.fixed('release', {'dir': ['/d', 'x'][m % 2], 'y': y, 'm': m, 'v': v})
    for _ in range(g.scale(400)):
        y, m, _d = date()
        nt = rng.randint(1, 4)
        tpl = [{'dir': ch(rng.choice(['a', 'b', 'a/YYYY', 'c/'])), 'file': ch('%s_YYYY%s.gz' % (rng.choice('RST') + str(k), rng.choice(['MMMM', '-MMMM', 'MMMMDDDD'])))} for k in range(nt)]
        names, folders = [], []
        for t in tpl:
            for mm in {m, 1 + m % 12}:
                for dd in (1, 2):
                    if rng.random() < 0.3:
                        names.append(os.path.join(fills(text(t['dir']), y, mm, dd), fills(text(t['file']), y, mm, dd)))
                    elif rng.random() < 0.1:
                        folders.append(os.path.join(fills(text(t['dir']), y, mm, dd), fills(text(t['file']), y, mm, dd)))
        z = rng.random()
        g.case('stub', {'tpl': tpl, 'files': sorted(set(names)), 'folders': sorted(set(folders) - set(names)), 'y': NONE if z < 0.05 else y, 'm': NONE if 0.05 < z < 0.1 else m})
    # lists of identifiers
    for _ in range(g.scale(800)):
        def ident():
            n = rng.choice([0, 1, 2, 3, 7, 8, 9, 9, 10, 11])
            return ''.join(rng.choice('ABa1 #*/-') for _ in range(n)) if rng.random() < 0.5 else ''.join(rng.choice('Aa1#') for _ in range(n))
        lines = [ident() for _ in range(rng.randint(0, 6))]
        probe = [ident() for _ in range(3)] + [l for l in lines] + [l[:-1] for l in lines] + [l + 'A' for l in lines] + [l.swapcase() for l in lines] + [' ' + l for l in lines]
        probe = [p[:9] for p in probe]
        lines = [l + rng.choice(['', '', ' ', '   ', '\r']) for l in lines]
        g.case('ids', {'lines': [ch(l) for l in lines], 'end': rng.randint(0, 1), 'probe': [ch(p) for p in probe]})
    # directories
    for _ in range(g.scale(200)):
        subs = [rng.choice(['a', 'b', 'TrackingQC', '2001', 'x y', ' a ', 'A', 'b.']) for _ in range(rng.randint(1, 4))]
        before = []
        for _k in range(rng.randint(0, 2)):
            p = 'out'
            for s in (subs if rng.random() < 0.7 else ['z', 'y'])[:rng.randint(1, 3)]:
                p += '/' + s
                before.append(p)
        g.case('dirs', {'what': rng.choice(['generic', 'completions']), 'y': 0, 'm': 0, 'subs': subs, 'before': sorted(set(before)), 'times': rng.randint(1, 2)})
        y, m, _d = date()
        y = max(y, 1000)
        g.case('dirs', {'what': 'month', 'y': y, 'm': m, 'subs': [],
                        'before': rng.choice([[], ['out/%d' % y], ['out/%d' % y, 'out/%d/%02d' % (y, m)], ['out/other']]), 'times': rng.randint(1, 2)})
