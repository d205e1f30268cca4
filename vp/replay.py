"""Runs a harness concretely, on the repository's unmodified code, with given inputs.

usage: python -m vp.replay FILE.json     (one case or a list of cases; result on stdout as JSON)
No solver and no instrumentation here: this is what confirms a counterexample, and what the sampled
paths of a symbolic run are compared with."""
import contextlib
import importlib
import io
import json
import os
import random as _random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Stop(BaseException):
    pass


class AssumptionFailed(Stop):
    pass


class TimedOut(Stop):
    pass


class Outcome(object):
    def __init__(self, ok, value, exc):
        self.ok = ok
        self.value = value
        self.exc = exc

    @property
    def error(self):
        return None if self.exc is None else type(self.exc).__name__


class HConc(object):
    symbolic = False

    def __init__(self, inputs, stop_on_failure=True, known=()):
        self.inputs = inputs
        self.failures = []
        self.observations = []
        self.reached = set()
        self.stop = stop_on_failure
        self.known = set(known)
        self.tmp = None
        self.rnd_state = {}
        self._patched = []

    # modules
    def mod(self, name):
        return importlib.import_module('babylondigger.' + name if name else 'babylondigger')

    # inputs
    def int(self, name, lo, hi):
        return int(self.inputs.get(name, lo))

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def choice(self, name, options):
        return options[int(self.inputs.get(name, 0))]

    def real(self, name, lo, hi, den):
        v = self.inputs.get(name)
        return float(Fraction(v)) if v is not None else lo / den

    def str(self, name, n, alphabet):
        v = self.inputs.get(name)
        return v if v is not None else alphabet[0] * n

    def perm(self, name, n):
        pool = list(range(n))
        return [pool.pop(self.int('%s.%d' % (name, i), 0, n - 1 - i)) for i in range(n)]

    # logic
    def all(self, items):
        return all([bool(i) for i in items])

    def any(self, items):
        return any([bool(i) for i in items])

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def total(self, items):
        return sum(int(i) for i in items)

    def same(self, a, b):
        return same(self, a, b)

    def assume(self, c):
        if not c:
            raise AssumptionFailed()

    def check(self, label, cond, info=None):
        self.reached.add(label)
        if not cond:
            self.failures.append((label, None if info is None else show(info)))
            if self.stop and label not in self.known:
                raise Stop()

    def reach(self, label):
        self.reached.add(label)

    def unsupported(self, what):
        raise AssumptionFailed('unsupported ' + what)

    def observe(self, key, value):
        self.observations.append([key, plain(value)])

    def call(self, f, *a, **k):
        try:
            return Outcome(True, f(*a, **k), None)
        except Exception as e:
            return Outcome(False, None, e)

    # environment
    def dir(self, name=''):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='vpreplay')
        p = os.path.join(self.tmp, name) if name else self.tmp
        os.makedirs(p, exist_ok=True)
        return p

    def file(self, name, text):
        p = os.path.join(self.dir(os.path.dirname(name)), os.path.basename(name))
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        return p

    def path(self, name):
        return os.path.join(self.dir(), name)

    def exists(self, path):
        return os.path.exists(path)

    def read(self, path):
        with open(path, encoding='utf-8', newline='') as f:
            return f.read()

    def listing(self):
        out = []
        base = self.dir()
        for root, _, files in os.walk(base):
            for f in files:
                out.append(os.path.relpath(os.path.join(root, f), base))
        return sorted(out)

    def use_random(self):
        h = self
        self._saved_random = {}

        class R(object):
            def __init__(self, seed=None):
                from vp.rnd import RandomCore
                self._c = RandomCore(h, seed)

            def __getattr__(self, n):
                return getattr(self._c, n)
        from vp.rnd import the_global

        def glob(n):
            return lambda *a, **k: getattr(the_global(h), n)(*a, **k)
        for n in ('random', 'randrange', 'randint', 'shuffle', 'sample', 'choice', 'choices', 'uniform', 'getrandbits',
                  'seed', 'Random'):
            self._saved_random[n] = getattr(_random, n)
            setattr(_random, n, R if n == 'Random' else glob(n))

    def use_pickle(self):
        import pickle
        store = {}

        def dump(obj, file, *a, **k):
            store[len(store)] = obj
            file.write(b'%d\n' % (len(store) - 1))

        def load(file, **k):
            line = file.readline()
            if not isinstance(line, bytes):
                raise TypeError("a bytes-like object is required, not 'str'")
            if not line:
                raise EOFError('Ran out of input')
            return store[int(line)]
        self.patch(pickle, 'dump', dump)
        self.patch(pickle, 'load', load)

    def patch(self, obj, name, value, optional=False):
        """without a verdict if the code no longer goes by this name"""
        if not hasattr(obj, name):
            if optional:
                return
            self.unsupported('%s is not there to be replaced' % name)
        self._patched.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def replace_call(self, real, model):
        """in the replay the harness patches the attribute itself (see callers)"""

    def raw_str(self, x):
        return str(x)

    def cleanup(self):
        for obj, name, old in reversed(self._patched):
            setattr(obj, name, old)
        self._patched = []
        if getattr(self, '_saved_random', None):
            for n, v in self._saved_random.items():
                setattr(_random, n, v)
        if self.tmp is not None:
            shutil.rmtree(self.tmp, ignore_errors=True)


def same(h, a, b):
    if a is b:
        return True
    la, lb = isinstance(a, (list, tuple)), isinstance(b, (list, tuple))
    if la or lb:
        if not (la and lb) or len(a) != len(b):
            return False
        return h.all([same(h, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return False
    if isinstance(a, str) != isinstance(b, str):
        return False
    r = a == b
    return r


def show(v):
    try:
        return repr(v)[:2000]
    except Exception as e:
        return '<unprintable %s>' % type(e).__name__


def plain(v):
    """JSON-able rendering used to compare symbolic and concrete runs"""
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, str):
        return str(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return repr(float(v))
    if isinstance(v, dict):
        return {'d': sorted([[plain(k), plain(x)] for k, x in v.items()], key=repr)}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return {'s': sorted([plain(x) for x in v], key=repr)}
    return '<%s>' % type(v).__name__


def forget():
    for n in [n for n in sys.modules if n == 'babylondigger' or n.startswith('babylondigger.')]:
        del sys.modules[n]


def load(prop):
    return importlib.import_module('props.' + prop.lower())


def run_case(item):
    from vp import stubs
    forget()
    stubs.install()
    hm = load(item['property'])
    h = HConc(item['inputs'], known=item.get('known', ()))
    fn = getattr(hm, item['func'])
    res = {'failures': [], 'observations': None, 'exception': None, 'assumption': False, 'timeout': False}

    def on_alarm(sig, frame):
        raise TimedOut()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(item.get('timeout', 30))
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            fn(h, **item['args'])
    except AssumptionFailed:
        res['assumption'] = True
    except TimedOut:
        res['timeout'] = True
    except Stop:
        pass
    except BaseException as e:
        res['exception'] = {'type': type(e).__name__, 'msg': show(e), 'trace': traceback.format_exc()[-3000:]}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        h.cleanup()
    res['failures'] = h.failures
    res['observations'] = h.observations
    return res


def main(argv):
    sys.path.insert(0, REPO)
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    with open(argv[1]) as f:
        data = json.load(f)
    many = isinstance(data, list)
    out = [run_case(d) for d in (data if many else [data])]
    out_s = json.dumps(out if many else out[0])
    if many:
        sys.stdout.write(out_s)
        return 0
    r = out[0]
    print(json.dumps(r, indent=1))
    bad = r['failures'] or r['exception'] or r['timeout']
    print('REPRODUCED' if bad else 'not reproduced')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
