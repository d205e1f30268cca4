"""The harness API, symbolic flavour (replay.HConc is the concrete one)."""
import importlib
from fractions import Fraction

from . import core, models, instrument, zz
from .containers import VFS, SDict, SSet, SStringIO
from .values import (SymBool, SymInt, SymReal, SymStr, SymChar, SymHash, Sym, IntSeg, mk_bool, mk_int, mk_str, zAnd, zOr,
                     zNot, is_sym, B)
from .replay import Outcome, same as _same, plain
from .rnd import RandomCore, the_global


def evaluate(v, m):
    """v under the model m, without forking"""
    t = type(v)
    if t is SymBool:
        return m.eval(v.e)
    if t is SymInt:
        return m.eval(v.e)
    if t is SymReal:
        return m.eval(v.e) / v.den
    if t is SymStr:
        out = []
        for a in v.a:
            if type(a) is str:
                out.append(a)
            elif type(a) is SymChar:
                out.append(chr(m.eval(a.e)))
            else:
                out.append(str(evaluate(a.i, m)))
        return ''.join(out)
    if t is list:
        return [evaluate(x, m) for x in v]
    if issubclass(t, tuple):
        return tuple(evaluate(x, m) for x in v)
    if t is dict:
        return {evaluate(k, m): evaluate(x, m) for k, x in v.items()}
    if issubclass(t, SDict):
        return {evaluate(k, m): evaluate(x, m) for k, x in v._ents.values()}
    if issubclass(t, SSet):
        return set(evaluate(x, m) for x in v)
    return v


class Violation(object):
    def __init__(self, label, inputs, info):
        self.label = label
        self.inputs = inputs
        self.info = info


class HSym(object):
    symbolic = True

    def __init__(self, eng, eager=False, known=()):
        self.eng = eng
        self.eager = eager
        self.known = set(known)
        self.inputs = {}
        self.violations = []
        self.observations = []
        self.reached = set()
        self.rnd_state = {}
        self.vfs = VFS()
        self.vfs.dirs.add('/vfs')
        models.STATE['vfs'] = self.vfs
        models.STATE['random'] = lambda *a: RandomCore(self, *a)
        models.STATE['global_random'] = lambda: the_global(self)
        self._replaced = []
        self._patched = []

    def mod(self, name):
        return importlib.import_module('babylondigger.' + name if name else 'babylondigger')

    # ---- inputs
    def _new(self, name, v):
        if name in self.inputs:
            raise AssertionError('input %s declared twice' % name)
        self.inputs[name] = v
        return v

    def int(self, name, lo, hi):
        if name in self.inputs:
            return self.inputs[name]
        if lo == hi:
            return self._new(name, lo)
        e = self.eng.declare(name, lo, hi)
        v = SymInt(e, lo, hi)
        self._new(name, v)
        return v.concrete() if self.eager else v

    def bool(self, name):
        if name in self.inputs:
            return self.inputs[name]
        v = SymBool(zz.bool_var(name))
        self._new(name, v)
        return bool(v) if self.eager else v

    def choice(self, name, options):
        if len(options) == 1:
            self.inputs[name] = 0
            return options[0]
        e = self.eng.declare(name, 0, len(options) - 1)
        v = SymInt(e, 0, len(options) - 1)
        self._new(name, v)
        return options[v.concrete()]

    def real(self, name, lo, hi, den):
        if name in self.inputs:
            return self.inputs[name]
        v = SymReal(self.eng.declare(name + '#k', lo, hi), den)
        self._new(name, v)
        return v.concrete() if self.eager else v

    def str(self, name, n, alphabet):
        dom = frozenset(map(ord, alphabet))
        atoms = []
        for i in range(n):
            if len(dom) == 1:
                atoms.append(alphabet[0])
                continue
            e = self.eng.declare('%s[%d]' % (name, i), min(dom), max(dom), dom)
            atoms.append(SymChar(e, dom))
        v = mk_str(atoms)
        self._new(name, v)
        if self.eager and type(v) is SymStr:
            return v.concrete()
        return v

    def perm(self, name, n):
        pool = list(range(n))
        return [pool.pop(int(self.int('%s.%d' % (name, i), 0, n - 1 - i))) for i in range(n)]

    # ---- logic (no forking)
    def all(self, items):
        return mk_bool(zAnd([B(i) for i in items]))

    def any(self, items):
        return mk_bool(zOr([B(i) for i in items]))

    def not_(self, x):
        return mk_bool(zNot(B(x)))

    def implies(self, a, b):
        return mk_bool(zOr([zNot(B(a)), B(b)]))

    def iff(self, a, b):
        a, b = B(a), B(b)
        if isinstance(a, bool):
            return mk_bool(b if a else zNot(b))
        if isinstance(b, bool):
            return mk_bool(a if b else zNot(a))
        return mk_bool(zz.iff(a, b))

    def ite(self, c, a, b):
        if type(c) is not SymBool:
            return a if c else b
        ia = a.e if type(a) is SymInt else a
        ib = b.e if type(b) is SymInt else b
        if isinstance(a, bool) or isinstance(b, bool):
            return mk_bool(zOr([zAnd([c, B(a)]), zAnd([zNot(c), B(b)])]))
        if isinstance(a, int) and isinstance(b, int):
            la, ha = (a.lo, a.hi) if type(a) is SymInt else (a, a)
            lb, hb = (b.lo, b.hi) if type(b) is SymInt else (b, b)
            return mk_int(zz.ite(c.e, ia, ib), min(la, lb), max(ha, hb))
        return a if bool(c) else b

    def total(self, items):
        s = 0
        for i in items:
            s = s + (i._int() if type(i) is SymBool else int(i) if isinstance(i, bool) else i)
        return s

    def same(self, a, b):
        return _same(self, a, b)

    # ---- assumptions and assertions
    def assume(self, c):
        self.eng.assume(B(c))

    def _violation(self, label, m, info):
        inputs = {}
        for n, v in self.inputs.items():
            x = evaluate(v, m)
            inputs[n] = str(Fraction(x)) if isinstance(x, float) else x
        self.violations.append(Violation(label, inputs, None))

    def check(self, label, cond, info=None):
        self.eng.guard()
        self.reached.add(label)
        c = B(cond)
        if c is True:
            self.eng.stats['checks'] += 1
            return
        if c is False:
            if self.eng.pos >= len(self.eng.trail):
                self.eng.stats['checks'] += 1
                self._violation(label, self.eng.need_model(), info)
            if label not in self.known:
                self.eng.abort(core.StopPath('violation'))
            return
        m = self.eng.query_violation(c)
        if m is not None:
            self._violation(label, m, info)
            self.eng.assume(c)

    def reach(self, label):
        self.reached.add(label)

    def unsupported(self, what):
        """the stand-ins of this harness do not cover what the code asks for: no verdict on this path"""
        self.eng.abort(core.StopPath('unsupported ' + what))

    def observe(self, key, value):
        self.observations.append((key, value))

    def call(self, f, *a, **k):
        try:
            return Outcome(True, models.call(f, *a, **k), None)
        except Exception as e:
            self.eng.guard()
            return Outcome(False, None, e)

    # ---- environment
    def dir(self, name=''):
        p = '/vfs/' + name if name else '/vfs'
        models.m_makedirs(p, exist_ok=True)
        return p

    def file(self, name, text):
        p = '/vfs/' + name
        models.m_makedirs(p.rsplit('/', 1)[0], exist_ok=True)
        self.vfs.files[p] = text
        return p

    def path(self, name):
        return '/vfs/' + name

    def exists(self, path):
        return models.m_exists(path)

    def read(self, path):
        return self.vfs.files[self.vfs.norm(path)]

    def listing(self):
        return sorted(f[len('/vfs/'):] for f in self.vfs.files)

    def use_random(self):
        models.STATE['random'] = lambda *a: RandomCore(self, *a)

    def use_pickle(self):
        """objects are stored as they are (also in the replay)"""

    def patch(self, obj, name, value, optional=False):
        """without a verdict if the code no longer goes by this name"""
        if not hasattr(obj, name):
            if optional:
                return
            self.unsupported('%s is not there to be replaced' % name)
        self._patched.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def replace_call(self, real, model):
        self._replaced.append((real, models.MODELS.get(real)))
        models.MODELS[real] = model

    def raw_str(self, x):
        if is_sym(x):
            return 'term%d' % x.e.id if hasattr(x, 'e') else x.concrete()
        return str(x)

    def cleanup(self):
        for obj, name, old in reversed(self._patched):
            setattr(obj, name, old)
        self._patched = []
        for real, old in reversed(self._replaced):
            if old is None:
                models.MODELS.pop(real, None)
            else:
                models.MODELS[real] = old
        self._replaced = []
