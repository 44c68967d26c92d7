"""Run-time side of the conformance machinery: executed by /opt/venv/bin/python.

A harness module defines
    KINDS    = {kind: fn(inp) -> out}      one entry per class of observed behaviour
    generate(g)                            emits g.case(kind, inp) ...
Every `inp` is plain JSON (ints, strings, lists, objects), so that the TLA+
trace specification sees exactly the input the implementation was given, and a
record can be replayed.  `out` is what the public interface of the real code
showed, in scaled integers.  Nothing here decides anything: the verdict on a
record is computed by TLC from the specification.
"""
import sys, os, json, signal, random, math, io, contextlib, importlib, traceback

NONE = -99999          # None
EXC = -88888           # the call raised
NAN = -77777           # not a number
BAD = -66666           # some other, unexpected kind of value

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))


class CallTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CallTimeout()


def enc(x, scale=1):
    """Scaled-integer image of a scalar result."""
    if x is None:
        return NONE
    try:
        import numpy as np
        if x is np.ma.masked:
            return NAN
        if isinstance(x, (bool, np.bool_)):
            return int(x)
        if isinstance(x, (str, bytes)):
            return BAD
        f = float(x)
    except CallTimeout:
        raise
    except Exception:
        return BAD
    if math.isnan(f):
        return NAN
    if math.isinf(f) or abs(f * scale) > 2000000000:
        return BAD
    return int(math.floor(f * scale + 0.5))


def encl(xs, scale=1):
    try:
        return [enc(x, scale) for x in xs]
    except CallTimeout:
        raise
    except Exception:
        return [BAD]


def enc_exact(x, scale=1):
    """As enc, but BAD when the value is not on the scaled lattice."""
    v = enc(x, scale)
    if v in (NONE, NAN, BAD):
        return v
    return v if abs(float(x) * scale - v) < 1e-6 else BAD


def dec(v, scale=1):
    """Inverse of enc for inputs: scaled integer -> float (or None)."""
    if v == NONE:
        return None
    return v / float(scale)


def deci(v):
    return None if v == NONE else int(v)


def call(fn, *a, **k):
    """Result of a call, or the EXC marker when it raises."""
    try:
        return fn(*a, **k)
    except CallTimeout:
        raise
    except BaseException as e:  # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        return Raised(e)


class Raised(object):
    def __init__(self, e):
        self.e = e
        self.name = type(e).__name__

    def __repr__(self):
        return 'Raised(%s)' % self.name


def encr(x, scale=1):
    return EXC if isinstance(x, Raised) else enc(x, scale)


class Gen(object):
    def __init__(self, prop, tier, seed, shard, nshards, scratch, behaviours, out):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.nshards = shard, nshards
        self.scratch = scratch
        self.behaviours = behaviours      # {name: [parsed json, ...]} made by TLC
        self.rng = random.Random('%s/%d/%d' % (prop, seed, shard))
        self.out = out
        self.n = 0
        self.kinds = None
        self.thorough = tier == 'thorough'
        self._k = 0
        self.timeouts = 0

    def scale(self, quick, thorough=None):
        """Number of random cases for this shard."""
        n = quick if not self.thorough else (thorough if thorough is not None else quick * 8)
        return max(1, (n + self.nshards - 1) // self.nshards)

    def mine(self):
        """Deal fixed cases round-robin over the shards."""
        self._k += 1
        return (self._k - 1) % self.nshards == self.shard

    def fixed(self, kind, inp):
        if self.mine():
            self.case(kind, inp)

    def case(self, kind, inp):
        rec = run_case(self.kinds, kind, inp)
        if rec['out'].get('exc') == 'Timeout':
            self.timeouts += 1
        self.n += 1
        self.out.write(json.dumps(rec, separators=(',', ':')) + '\n')
        if self.timeouts >= 3:
            raise SystemExit(0)


LIMIT = 20


def run_case(kinds, kind, inp):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            out = kinds[kind](json.loads(json.dumps(inp)))
        ok = 1
    except CallTimeout:
        out, ok = {'exc': 'Timeout'}, 0
    except (MemoryError, Exception, SystemExit) as e:  # the code under test raised
        out, ok = {'exc': type(e).__name__, 'msg': str(e)[:200],
                   'tb': traceback.format_exc()[-600:]}, 0
    finally:
        signal.alarm(0)
    return {'k': kind, 'in': inp, 'out': out, 'ok': ok}


def main():
    prop, tier, seed, shard, nshards, scratch, outfile, behdir = sys.argv[1:9]
    import py2compat  # noqa  (installs the import hook)
    os.environ['SCRATCH'] = scratch
    os.chdir(scratch)
    beh = {}
    for f in sorted(os.listdir(behdir)) if os.path.isdir(behdir) else []:
        if f.endswith('.ndjson'):
            with open(os.path.join(behdir, f)) as fh:
                beh[f[:-7]] = [json.loads(l) for l in fh if l.strip()]
    with open(outfile, 'w') as out:
        g = Gen(prop, tier, int(seed), int(shard), int(nshards), scratch, beh, out)
        import warnings
        warnings.simplefilter('ignore')
        try:
            import numpy
            numpy.seterr(all='ignore')
        except ImportError:
            pass
        mod = importlib.import_module(prop.lower())
        g.kinds = mod.KINDS
        mod.generate(g)


if __name__ == '__main__':
    main()
