"""Driver of one check:  python3 lib/driver.py <PROPERTY> [quick|thorough]
                         python3 lib/driver.py <PROPERTY> --replay FILE

1. TLC model-checks the property's specification (small constants, exhaustive);
   the same runs write the behaviours that are replayed below.
2. The real code in /repo is driven with those behaviours and with seeded
   random ones; each run is logged as one record (input, observed output).
3. TLC validates every record against the specification (trace module), with a
   total verdict that names the failing clause.
Exit 0 / exit 1 with a VIOLATION line; anything else is a failure of the check.
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar'
sys.path.insert(0, os.path.join(VERIF, 'meta'))
sys.path.insert(0, HERE)


def classpath():
    cp = [JAR]
    cp += [p for p in sorted(glob.glob('/opt/veriftools/tla/*.jar')) if p != JAR]
    return ':'.join(cp)


def tlc(module, cfg, meta, env=None, workers=1, timeout=800, extra=(), heap='3g', fp=0):
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    os.makedirs(meta, exist_ok=True)
    cmd = ['java', '-Xmx' + heap, '-Xss32m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
           '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + meta,
           '-cp', classpath(), 'tlc2.TLC', '-workers', str(workers), '-fp', str(fp),
           '-metadir', meta, '-deadlock', '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        return 99, (x.stdout or b'').decode('utf8', 'replace') + '\nTIMEOUT'


def counts(out):
    m = re.findall(r'(\d+) states generated(?:[^,\n]*), (\d+) distinct states found', out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


class Fail(Exception):
    pass


def machinery(msg):
    print('CHECK-ERROR ' + msg)
    sys.exit(2)


def run(prop, tier):
    import checks
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = checks.CHECKS[prop]
    scratch = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    try:
        return _run(prop, tier, seed, cfg, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(prop, tier, seed, cfg, scratch, t0):
    beh = os.path.join(scratch, 'beh')
    os.makedirs(beh)
    nshards = cfg.get('shards', 4)
    states = transitions = 0
    model_log = []

    # -- 1. exhaustive model checking of the specification ------------------
    def mc(item):
        idx, m = item
        mod, c = m['module'], m.get('cfg_' + tier, m.get('cfg'))
        env = {'GENDIR': beh, 'TIER': tier, 'SEED': str(seed)}
        rc, out = tlc(mod + '.tla', c + '.cfg', os.path.join(scratch, 'mc%d' % idx), env,
                      workers=m.get('workers', 2), timeout=m.get('timeout', 700),
                      extra=m.get('extra_' + tier, m.get('extra', ())))
        return mod, c, rc, out, m
    with ThreadPoolExecutor(4) as ex:
        for mod, c, rc, out, m in ex.map(mc, enumerate(cfg.get('mc', []))):
            g, d = counts(out)
            if rc != 0:
                print(out[-4000:])
                machinery('model %s/%s: TLC exit %d' % (mod, c, rc))
            states += d
            transitions += g
            model_log.append({'module': mod, 'config': c, 'generated': g, 'distinct': d})
            # behaviours printed by the model as "BEH name json"
            pr = re.findall(r'^"BEH (\w+) (.*)"$', out, re.M)
            for name, js in pr:
                with open(os.path.join(beh, name + '.ndjson'), 'a') as f:
                    f.write(js.replace('\\"', '"').replace('\\\\', '\\') + '\n')

    # -- 2. drive the real code ---------------------------------------------
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='/opt/vp/py2compat:' + REPO, PYTHONHASHSEED='0',
               TZ='UTC', SCRATCH=scratch, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')

    def drive(k):
        d = os.path.join(scratch, 'w%d' % k)
        os.makedirs(d)
        out = os.path.join(scratch, 'trace%d.ndjson' % k)
        cmd = [VENV, os.path.join(HERE, 'rt.py'), prop, tier, str(seed), str(k), str(nshards), d, out, beh]
        try:
            p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=cfg.get('drive_timeout', 700 if tier == 'quick' else 7000))
            return k, out, p.returncode, p.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired as x:
            return k, out, 99, 'TIMEOUT ' + (x.stdout or b'').decode('utf8', 'replace')[-1000:]
    with ThreadPoolExecutor(nshards) as ex:
        driven = list(ex.map(drive, range(nshards)))
    viol = []
    for k, out, rc, log in driven:
        if rc != 0:
            # the harness catches what each call raises; what reaches here is a
            # module of /repo that cannot be imported or used at all
            viol.append({'k': 'driver', 'clause': 'the code under test cannot be driven', 'log': log[-3000:]})

    # -- 3. validate every record with TLC ----------------------------------
    total = 0
    kinds, samples, distinct = {}, {}, set()

    def validate(k):
        f = os.path.join(scratch, 'trace%d.ndjson' % k)
        if not os.path.exists(f):
            return k, [], 0, 0, ''
        recs = []
        with open(f) as fh:
            for line in fh:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    break
        bad = []
        good = []
        for r in recs:
            if not r['ok']:
                r['clause'] = 'the call raised ' + str(r['out'].get('exc'))
                bad.append(r)
            else:
                good.append(r)
        # by trace module
        per = {}
        tm = cfg['trace']
        for r in good:
            mod = tm if isinstance(tm, str) else tm.get(r['k'], tm.get('*'))
            per.setdefault(mod, []).append(r)
        gen = dist = 0
        for mod, rs in sorted(per.items()):
            vf = os.path.join(scratch, 'v_%s_%d.ndjson' % (mod, k))
            with open(vf, 'w') as fh:
                for r in rs:
                    fh.write(json.dumps({'k': r['k'], 'in': r['in'], 'out': r['out']},
                                        separators=(',', ':')) + '\n')
            rc, out = tlc(mod + '.tla', mod + '.cfg' if os.path.exists(os.path.join(SPEC, mod + '.cfg')) else 'Trace.cfg',
                          os.path.join(scratch, 'tv%s%d' % (mod, k)),
                          {'TRACE': vf, 'TIER': tier}, workers=1, timeout=800 if tier == 'quick' else 7000,
                          fp=k)
            g, d = counts(out)
            gen, dist = gen + g, dist + d
            for i, cl in re.findall(r'^"BAD (\d+) (.*)"$', out, re.M):
                r = dict(rs[int(i) - 1])
                r['clause'] = cl
                bad.append(r)
            done = re.findall(r'^"DONE (\d+)"$', out, re.M)
            if rc != 0 or not done or int(done[-1]) != len(rs):
                m = re.findall(r'^/?\\? ?i = (\d+)', out, re.M) or re.findall(r'\bi = (\d+)', out)
                if rc == 99 or not m or 'overridden' in out and 'java.lang.OutOfMemory' in out:
                    return k, [], -1, 0, mod + ': ' + out[-3000:]
                r = dict(rs[min(int(m[-1]), len(rs)) - 1])
                r['clause'] = 'outside the specification: TLC could not evaluate the record'
                r['log'] = out[-1500:]
                bad.append(r)
        for r in recs:
            kinds[r['k']] = kinds.get(r['k'], 0) + 1
        return k, bad, gen, dist, recs
    with ThreadPoolExecutor(nshards) as ex:
        for k, bad, g, d, recs in ex.map(validate, range(nshards)):
            if g == -1:
                machinery('trace validation of shard %d failed: %s' % (k, recs))
            viol += bad
            transitions += g
            states += d
            total += len(recs)
            for r in recs:
                distinct.add(json.dumps([r['k'], r['in']], sort_keys=True))
                if r['k'] not in samples:
                    s = json.dumps({'k': r['k'], 'in': r['in'], 'out': r['out']})
                    samples[r['k']] = json.loads(s) if len(s) < 3000 else {'k': r['k'], 'abridged': s[:1500]}
    if total == 0 and not viol:
        machinery('no records')

    # -- verdict --------------------------------------------------------------
    known = load_known(prop)
    new, hits = [], {}
    for v in viol:
        kf = match_known(known, v)
        if kf is None:
            new.append(v)
        else:
            hits[kf['id']] = hits.get(kf['id'], 0) + 1
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': states, 'transitions': transitions,
                       'traces_validated_against_impl': total,
                       'distinct_inputs': len(distinct),
                       'records_by_kind': kinds,
                       'models': model_log,
                       'behaviours_replayed_from_tlc': sum(sum(1 for _ in open(f)) for f in glob.glob(beh + '/*.ndjson')),
                       'known_finding_hits': hits,
                       'samples': list(samples.values())[:6]},
          'assumptions': cfg.get('assumptions', []),
          'violations': len(new), 'wall_s': round(time.time() - t0, 2)}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    for kf in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    print('%s %s: %d model/trace states, %d records validated (%s), %.1fs' % (
        prop, tier, states, total, ', '.join('%s=%d' % x for x in sorted(kinds.items())), time.time() - t0))
    if not new:
        return 0
    rp = os.path.join(VERIF, 'evidence', prop + '-replay.json')
    with open(rp, 'w') as f:
        json.dump({'property': prop, 'violations': new[:20]}, f, indent=1)
    seen = {}
    for v in new:
        key = (v.get('k'), v.get('clause'))
        seen[key] = seen.get(key, 0) + 1
    for (k, c), n in sorted(seen.items(), key=lambda x: -x[1])[:8]:
        print('  %s: %s (%d records)' % (k, c, n))
    for v in new[:2]:
        print('  e.g. ' + json.dumps({x: v[x] for x in v if x in ('k', 'in', 'out', 'clause', 'log')})[:1500])
    print('VIOLATION property=%s replay=%s' % (prop, rp))
    return 1


def load_known(prop):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get('findings', []) if k['property'] == prop]


def match_known(known, v):
    """A known finding names the record kind, the failing clause and the exact
    input fields of the failing case; everything else is a new violation."""
    for k in known:
        m = k['match']
        if m.get('k') != v.get('k') or m.get('clause') != v.get('clause'):
            continue
        if all(v.get('in', {}).get(a) == b for a, b in m.get('in', {}).items()):
            return k
    return None


def replay(prop, path):
    data = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='vf_replay_')
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='/opt/vp/py2compat:%s:%s:%s' % (
        REPO, HERE, os.path.join(VERIF, 'harness')), PYTHONHASHSEED='0', TZ='UTC', SCRATCH=scratch)
    code = ("import py2compat,json,sys,importlib,rt\n"
            "m=importlib.import_module(sys.argv[1].lower())\n"
            "for v in json.load(open(sys.argv[2]))['violations']:\n"
            "  if 'in' in v: print(json.dumps({'before':v['out'],'clause':v['clause'],'now':rt.run_case(m.KINDS,v['k'],v['in'])}))\n")
    try:
        return subprocess.call([VENV, '-c', code, prop, os.path.abspath(path)], cwd=scratch, env=env)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        sys.exit(replay(prop, sys.argv[3]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(run(prop, tier))
