"""C26: the driver of the tracking jobs (Chunks, T_Chunks).  sbatch and squeue are stand-ins on the path which record."""
import os
import shlex
import shutil
import subprocess
import sys
import time
import json
from c25 import history

_check_output = subprocess.check_output
_popen = subprocess.Popen
_sleep = time.sleep
EVENTS = None


def text_output(*a, **k):
    k.setdefault('universal_newlines', True)      # a string, as in Python 2
    return _check_output(*a, **k)


def no_sleep(s):
    pass


SBATCH = '''#!/bin/sh
for f in "$@"; do
  case "$f" in -*) ;; *) { echo "JOB"; cat "$f"; echo "ENDJOB"; } >> "$EVENTS";; esac
done
echo Submitted batch job 1
'''
SQUEUE = '''#!/bin/sh
n=0
if [ -s "$QUEUE" ]; then n=$(head -n 1 "$QUEUE"); sed -i 1d "$QUEUE"; fi
echo "Q $n" >> "$EVENTS"
echo "   JOBID PARTITION     NAME     USER    STATE       TIME TIME_LIMI  NODES NODELIST(REASON)"
[ "$n" -gt 0 ] && cat "$LINES_DIR/lines" | head -n "$n"
exit 0
'''


def run(v):
    root = os.path.join(os.environ['SCRATCH'], 'drv%d' % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    for d in ('bin', 'out', 'track'):
        os.makedirs(root + '/' + d)
    for name, text in (('sbatch', SBATCH), ('squeue', SQUEUE)):
        with open(root + '/bin/' + name, 'w') as f:
            f.write(text)
        os.chmod(root + '/bin/' + name, 0o755)
    with open(root + '/lines', 'w') as f:
        f.write('  123 normal job hadjj RUNNING 0:10 30:00 1 n1\n' * 300)
    with open(root + '/queue', 'w') as f:
        f.write(''.join('%d\n' % q for q in v['queue']))
    open(root + '/events', 'w').close()
    for k in range(v['n']):
        z = 12 * v['y'] + v['m'] - 1 + k
        d = root + '/out/%d/%02d' % (z // 12, z % 12 + 1)
        os.makedirs(d)
        rows = [r['raw'] for r in v['ids'] if r['h'][k]]
        if v['flip'] and k % 2:
            rows.reverse()
        if rows and v['dup']:
            rows.append(rows[0])
        with open(d + '/ID_file.txt', 'w') as f:
            f.write(''.join('%s,%s\n' % (r, r.replace('/', '_').replace('*', '_')) for r in rows))
    with open(root + '/par.json', 'w') as f:
        json.dump({'runid': 'base'}, f)
    cfg = root + '/conf.txt'
    with open(cfg, 'w') as f:
        f.write('[Directories]\nout_dir = %s/out\ntrack_out_dir = %s/track\n[Files]\nparameter_file = %s/par.json\n' % (root, root, root))
    last = 12 * v['y'] + v['m'] - 1 + v['n'] - 1
    argv, path = sys.argv, os.environ['PATH']
    sys.argv = ['x', '-config', cfg, '-gap', str(v['gap']), '-yr1', str(v['y']), '-mn1', str(v['m']), '-yr2', str(last // 12),
                '-mn2', str(last % 12 + 1), '-edge', v['mode']]
    os.environ.update(PATH=root + '/bin:' + path, EVENTS=root + '/events', QUEUE=root + '/queue', LINES_DIR=root)
    subprocess.check_output, time.sleep = text_output, no_sleep
    exc = 0
    try:
        import Tracking_QC_wrapper as w
        w.main([])
    except Exception as e:
        exc = 1
    finally:
        sys.argv, os.environ['PATH'] = argv, path
        subprocess.check_output, time.sleep = _check_output, _sleep
    ev = []
    job = None
    for line in open(root + '/events'):
        line = line.rstrip('\n')
        if line == 'JOB':
            job = []
        elif line == 'ENDJOB':
            ev.append(read(job, cfg))
            job = None
        elif job is not None:
            job.append(line)
        else:
            ev.append({'e': 'q', 'n': int(line[2:])})
    shutil.rmtree(root, ignore_errors=True)
    return {'exc': exc, 'ev': ev}


def read(job, cfg):
    """What the job would ask of tracking_qc."""
    for line in job:
        if 'tracking_qc.py' in line:
            t = shlex.split(line)
            break
    else:
        return {'e': 'job', 'id': '?', 'row': [], 'cl': [], 'tag': '', 'cfg': 0}
    if '>' in t:
        t = t[:t.index('>')]
    while not t[0].endswith('tracking_qc.py'):
        t.pop(0)
    opt = {}
    name = None
    for x in t[1:]:
        if x.startswith('-'):
            name = x[1:]
            opt[name] = []
        else:
            opt[name].append(x)

    def num(n):
        try:
            return int(opt[n][0])
        except Exception:
            return -1
    ident = opt.get('id', [])
    return {'e': 'job', 'id': ident[0].rstrip() if len(ident) == 1 else '?', 'row': [num(n) for n in ('yr1', 'mn1', 'yr2', 'mn2')],
            'cl': opt.get('edge', []), 'tag': ''.join(opt.get('runmonthid', [])), 'cfg': int(opt.get('config') == [cfg])}


KINDS = {'run': run}
RAW = ['51514    ', '62001    ', 'AB 12    ', 'A/1      ', 'B*2      ', '1234567  ', 'WMO990011', '6 2      ', ' 62001   ', '  A1     ']


def generate(g):
    rng = g.rng

    def make(hs, gap, mode):
        raw = rng.sample(RAW, len(hs))
        nj = sum(sum(h) for h in hs)
        q = []
        for _ in range(nj + 3):
            q.append(rng.choice([0, 3, 250, 250, 251, 252, 299]))
        if rng.random() < .4:
            q = []
        return {'y': rng.choice([1999, 2004]), 'm': rng.choice([1, 11, rng.randint(1, 12)]), 'n': len(hs[0]), 'gap': gap, 'mode': mode,
                'ids': [{'raw': r, 'id': r.rstrip(), 'h': h} for r, h in zip(raw, hs)], 'queue': q, 'flip': rng.randint(0, 1), 'dup': int(rng.random() < .2)}
    for k, b in enumerate(g.behaviours.get('run', [])):
        if k % (8 if not g.thorough else 10) == 0:
            ids = sorted(b['m'][0])
            g.fixed('run', make([[m[i] for m in b['m']] for i in ids], b['gap'], b['mode']))
    for k in range(g.scale(250, 2500)):
        gap = rng.choice([1, 2, 3, 3, 6, 11])
        n = rng.choice([1, 3, 6, 12, 24])
        g.case('run', make([history(rng, n, gap) for _ in range(rng.randint(1, 4))], gap, rng.choice(['all', 'standard', 'new', 'noend'])))
