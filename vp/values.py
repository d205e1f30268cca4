"""Symbolic stand-ins for bool, int, float and str.  They keep z3 terms; where Python insists on a
concrete value the engine forks over all possible values, so nothing is ever guessed."""
from fractions import Fraction
from math import gcd
from . import core, zz
from .zz import E

INF = 10 ** 30


def _eng():
    return core.ENGINE


def B(x):
    """truthiness as z3 Bool or python bool"""
    if isinstance(x, SymBool):
        return x.e
    return bool(x)


def mk_bool(e):
    if e is True or e is False:
        return e
    return SymBool(e)


def zAnd(items):
    out = []
    for i in items:
        t = type(i)
        if t is SymBool:
            i = i.e
        elif t is bool:
            if i:
                continue
            return False
        out.append(i)
    if not out:
        return True
    return zz.and_(out)


def zOr(items):
    out = []
    for i in items:
        t = type(i)
        if t is SymBool:
            i = i.e
        elif t is bool:
            if not i:
                continue
            return True
        out.append(i)
    if not out:
        return False
    return zz.or_(out)


def zNot(i):
    if type(i) is SymBool:
        i = i.e
    return zz.not_(i)


class Sym(object):
    """marker"""
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, proto):
        raise TypeError('symbolic value cannot be pickled')


# --------------------------------------------------------------------------- bool
class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return _eng().branch(self.e)

    def _int(self):
        return SymInt(zz.ite(self.e, 1, 0), 0, 1)

    def concrete(self):
        return bool(self)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return repr(bool(self))

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __and__(self, o):
        if isinstance(o, bool):
            return mk_bool(zAnd([self, o]))
        return self._int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mk_bool(zOr([self, o]))
        return self._int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            if isinstance(o, SymBool):
                return mk_bool(zz.not_(zz.iff(self.e, o.e)))
            return mk_bool(zNot(self)) if o else self
        return NotImplemented
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            if isinstance(o, SymBool):
                return mk_bool(zz.iff(self.e, o.e))
            return self if o else mk_bool(zNot(self))
        if isinstance(o, (int, float)):
            return self._int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mk_bool(zNot(r))

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o

    def __add__(self, o):
        return self._int() + o

    def __radd__(self, o):
        return o + self._int()

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o
    __rmul__ = __mul__

    def __neg__(self):
        return -self._int()

    def __truediv__(self, o):
        return self._int() / o

    def __rtruediv__(self, o):
        return o / self._int()


# --------------------------------------------------------------------------- int
def is_int(o):
    return isinstance(o, int)


def as_int_parts(o):
    """-> (expr or int, lo, hi)"""
    if type(o) is SymInt:
        v = o._v()
        if v is not None:
            return v, v, v
        return o.e, o.lo, o.hi
    if type(o) is SymBool:
        i = o._int()
        return i.e, 0, 1
    o = int(o)
    return o, o, o


def mk_int(e, lo=-INF, hi=INF):
    if isinstance(e, int):
        return e
    if lo == hi:
        return lo
    return SymInt(e, lo, hi)


class SymInt(Sym):
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo=-INF, hi=INF):
        self.e = e
        self.lo = lo
        self.hi = hi

    @property
    def __class__(self):
        return int

    def _v(self):
        p = _eng().pinned
        if p:
            h = p.get(self.e.id)
            if h is not None:
                return h
        return None

    def concrete(self):
        return _eng().concretize_int(self.e)

    __index__ = concrete
    __int__ = concrete

    def __float__(self):
        return float(self.concrete())

    def __hash__(self):
        return hash(self.concrete())

    def __repr__(self):
        return repr(self.concrete())

    def __str__(self):
        return str(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __bool__(self):
        return bool(self != 0)

    def __trunc__(self):
        return self
    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self if n is None else round(self.concrete(), n)

    # comparison
    def _cmp(self, o, op):
        if type(o) is SymReal or isinstance(o, float):
            return NotImplemented if type(o) is SymReal else getattr(SymReal.lift(self), op)(o)
        if not is_int(o):
            return NotImplemented
        a, al, ah = as_int_parts(self)
        b, bl, bh = as_int_parts(o)
        if op == '__eq__':
            if ah < bl or bh < al:
                return False
            if al == ah == bl == bh:
                return True
            return mk_bool(zz.eq(a, b))
        if op == '__lt__':
            if ah < bl:
                return True
            if al >= bh:
                return False
            return mk_bool(zz.not_(zz.le(b, a)))
        if op == '__le__':
            if ah <= bl:
                return True
            if al > bh:
                return False
            return mk_bool(zz.le(a, b))
        if op == '__gt__':
            if al > bh:
                return True
            if ah <= bl:
                return False
            return mk_bool(zz.not_(zz.le(a, b)))
        if al >= bh:
            return True
        if ah < bl:
            return False
        return mk_bool(zz.le(b, a))

    def __eq__(self, o):
        return self._cmp(o, '__eq__')

    def __ne__(self, o):
        r = self._cmp(o, '__eq__')
        return r if r is NotImplemented else mk_bool(zNot(r))

    def __lt__(self, o):
        return self._cmp(o, '__lt__')

    def __le__(self, o):
        return self._cmp(o, '__le__')

    def __gt__(self, o):
        return self._cmp(o, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, '__ge__')

    # arithmetic
    def __add__(self, o):
        if isinstance(o, float):
            return SymReal.lift(self) + o
        if not is_int(o):
            return NotImplemented
        a, al, ah = as_int_parts(self)
        b, bl, bh = as_int_parts(o)
        if isinstance(b, int) and b == 0:
            return self
        return mk_int(a + b, al + bl, ah + bh)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float):
            return SymReal.lift(self) - o
        if not is_int(o):
            return NotImplemented
        a, al, ah = as_int_parts(self)
        b, bl, bh = as_int_parts(o)
        if isinstance(b, int) and b == 0:
            return self
        return mk_int(a - b, al - bh, ah - bl)

    def __rsub__(self, o):
        if isinstance(o, float):
            return SymReal.lift(o) - self
        if not is_int(o):
            return NotImplemented
        a, al, ah = as_int_parts(self)
        b, bl, bh = as_int_parts(o)
        return mk_int(b - a, bl - ah, bh - al)

    def __mul__(self, o):
        if isinstance(o, float):
            return SymReal.lift(self) * o
        if not is_int(o):
            return NotImplemented
        a, al, ah = as_int_parts(self)
        b, bl, bh = as_int_parts(o)
        if not isinstance(a, int) and not isinstance(b, int):
            b = int(o)
            bl = bh = b
            a, al, ah = as_int_parts(self)
        c = [al * bl, al * bh, ah * bl, ah * bh]
        return mk_int(a * b, min(c), max(c))
    __rmul__ = __mul__

    def __neg__(self):
        a, al, ah = as_int_parts(self)
        return mk_int(-a, -ah, -al)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        a, al, ah = as_int_parts(self)
        if isinstance(a, int):
            return abs(a)
        return mk_int(zz.ite(zz.le(0, a), a, -a), 0, max(abs(al), abs(ah)))

    def __floordiv__(self, o):
        if not is_int(o):
            return float(self) // o if isinstance(o, float) else NotImplemented
        d = int(o)
        a, al, ah = as_int_parts(self)
        if isinstance(a, int) or d <= 0:
            return self.concrete() // d
        return mk_int(a // d, al // d, ah // d)

    def __rfloordiv__(self, o):
        return o // self.concrete()

    def __mod__(self, o):
        if not is_int(o):
            return float(self) % o if isinstance(o, float) else NotImplemented
        d = int(o)
        a, al, ah = as_int_parts(self)
        if isinstance(a, int) or d <= 0:
            return self.concrete() % d
        if 0 <= al and ah < d:
            return self
        return mk_int(a % d, 0, d - 1)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o % self.concrete()

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return divmod(o, self.concrete())

    def __truediv__(self, o):
        return self.concrete() / (o.concrete() if isinstance(o, Sym) else o)

    def __rtruediv__(self, o):
        return o / self.concrete()

    def __pow__(self, o, m=None):
        return pow(self.concrete(), int(o) if is_int(o) else o, m)

    def __rpow__(self, o):
        return o ** self.concrete()

    def __and__(self, o):
        return self.concrete() & int(o)
    __rand__ = __and__

    def __or__(self, o):
        return self.concrete() | int(o)
    __ror__ = __or__

    def __xor__(self, o):
        return self.concrete() ^ int(o)
    __rxor__ = __xor__

    def __lshift__(self, o):
        return self.concrete() << int(o)

    def __rshift__(self, o):
        return self.concrete() >> int(o)

    def __rlshift__(self, o):
        return o << self.concrete()

    def __rrshift__(self, o):
        return o >> self.concrete()

    def __invert__(self):
        return -self - 1

    def bit_length(self):
        return self.concrete().bit_length()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


# --------------------------------------------------------------------------- real
class SymReal(Sym):
    """A float whose value is e/den: with a dyadic den it is small enough for float arithmetic to be exact; any
    other den comes from one division, the value is the correctly rounded quotient. It is only compared (distinct
    quotients of such small numbers are far more than a rounding error apart), everything else concretises."""
    __slots__ = ('e', 'den')

    def __init__(self, e, den):
        self.e = e
        self.den = den

    @property
    def __class__(self):
        return float

    @staticmethod
    def lift(o):
        if type(o) is SymReal:
            return o
        if isinstance(o, Sym):
            return SymReal(as_int_parts(o)[0], 1)
        f = Fraction(o)
        return SymReal(f.numerator, f.denominator)

    def concrete(self):
        n = self.e if type(self.e) is int else _eng().concretize_int(self.e)
        return n / self.den

    def __float__(self):
        return self.concrete()

    def __int__(self):
        return int(self.concrete())

    def __hash__(self):
        return hash(self.concrete())

    def __repr__(self):
        return repr(self.concrete())
    __str__ = __repr__

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __bool__(self):
        return bool(self != 0)

    @staticmethod
    def _ok(o):
        return isinstance(o, (int, float))

    def _cmp(self, o, f):
        if not self._ok(o):
            return NotImplemented
        if type(o) is float and (o != o or o in (float('inf'), float('-inf'))):
            return f(0.0, o)
        c = o
        o = SymReal.lift(o)
        if o.den > 2 ** 20 and self.den & (self.den - 1):
            return f(self.concrete(), c)       # a rounded number against a rounded quotient
        return f(mk_int(self.e * o.den), mk_int(o.e * self.den))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _ar(self, o, f):
        if not self._ok(o):
            return NotImplemented
        b = SymReal.lift(o)
        if type(b.e) is int and b.e == 0 and f(1, 0) == 1:
            return self
        d = self.den * b.den // gcd(self.den, b.den)
        if d > 2 ** 24 or d & (d - 1):
            return f(self.concrete(), o.concrete() if isinstance(o, Sym) else o)
        return SymReal(f(self.e * (d // self.den), b.e * (d // b.den)), d)

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, Sym):
            o = o.concrete()
        if not self._ok(o):
            return NotImplemented
        f = Fraction(o)
        d = self.den * f.denominator
        if d > 2 ** 24 or d & (d - 1):
            return self.concrete() * o
        return SymReal(self.e * f.numerator, d)
    __rmul__ = __mul__

    def __neg__(self):
        return SymReal(-self.e, self.den)

    def __truediv__(self, o):
        if isinstance(o, Sym):
            o = o.concrete()
        if self._ok(o) and 1 <= o <= 64 and o == int(o) and not self.den & (self.den - 1) and self.den * int(o) <= 2 ** 20:
            return SymReal(self.e, self.den * int(o))
        return self.concrete() / o

    def __rtruediv__(self, o):
        return o / self.concrete()

    def __floordiv__(self, o):
        return self.concrete() // (o.concrete() if isinstance(o, Sym) else o)

    def __mod__(self, o):
        return self.concrete() % (o.concrete() if isinstance(o, Sym) else o)

    def __pow__(self, o):
        return self.concrete() ** (o.concrete() if isinstance(o, Sym) else o)

    def __abs__(self):
        return SymReal(zz.ite(zz.le(0, self.e), self.e, -self.e), self.den)

    def __round__(self, n=None):
        if not self.den & (self.den - 1) and (n is None or type(n) is int and 0 <= n <= 6):
            # of an exact binary fraction; half goes to the even neighbour
            a = mk_int(self.e * 10 ** (n or 0)) * 2 + self.den
            q = a // (2 * self.den)
            if a % (2 * self.den) == 0 and q % 2 == 1:
                q = q - 1
            if n is None or not isinstance(q, Sym):
                return q if n is None else q / 10 ** n
            return SymReal(as_int_parts(q)[0], 10 ** n)
        return round(self.concrete(), n)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


# --------------------------------------------------------------------------- str
class SymChar(object):
    __slots__ = ('e', 'dom')

    def __init__(self, e, dom):
        self.e = e
        self.dom = dom      # frozenset of code points


class IntSeg(object):
    """decimal rendering of a symbolic integer (length unknown until forced)"""
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i


_SEG = frozenset(map(ord, '0123456789-'))


def ch_eq(a, b):
    """a, b: one-char str or SymChar -> bool or z3 Bool"""
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        return a == b
    if ta is str:
        a, b = b, a
        tb = str
    if tb is str:
        c = ord(b)
        if c not in a.dom:
            return False
        if len(a.dom) == 1:
            return True
        return zz.eq(a.e, c)
    if a is b or a.e is b.e:
        return True
    if not (a.dom & b.dom):
        return False
    return zz.eq(a.e, b.e)


def ch_pred(a, pred):
    """pred: str -> bool, evaluated over the finite domain"""
    if type(a) is str:
        return bool(pred(a))
    yes = [c for c in a.dom if pred(chr(c))]
    if not yes:
        return False
    if len(yes) == len(a.dom):
        return True
    no = [c for c in a.dom if c not in set(yes)]
    if len(no) < len(yes):
        return zNot(zOr([zz.eq(a.e, c) for c in sorted(no)]))
    return zOr([zz.eq(a.e, c) for c in sorted(yes)])


def ch_code(a):
    return ord(a) if type(a) is str else a.e


def ch_map(a, f):
    """f: str -> str of length one, over the domain"""
    if type(a) is str:
        return f(a)
    out = {c: f(chr(c)) for c in a.dom}
    if all(chr(c) == v for c, v in out.items()):
        return a
    vals = frozenset(ord(v) for v in out.values())
    e = None
    for c in sorted(a.dom):
        v = ord(out[c])
        e = v if e is None else zz.ite(zz.eq(a.e, c), v, e)
    if len(vals) == 1:
        return chr(next(iter(vals)))
    return SymChar(e, vals)


def mk_str(atoms):
    for a in atoms:
        if type(a) is not str:
            return SymStr(tuple(atoms))
    return ''.join(atoms)


def atoms_of(s):
    if type(s) is SymStr:
        return s.a
    if type(s) is str:
        return tuple(s)
    return tuple(str(s))


class SymStr(Sym):
    __slots__ = ('a',)

    def __init__(self, atoms):
        self.a = atoms

    @property
    def __class__(self):
        return str

    # -- forcing ---------------------------------------------------------------
    def concrete(self):
        out = []
        for x in self.a:
            if type(x) is str:
                out.append(x)
            elif type(x) is SymChar:
                out.append(chr(_eng().concretize_int(x.e)))
            else:
                out.append(str(int(x.i)))
        return ''.join(out)

    def has_seg(self):
        for x in self.a:
            if type(x) is IntSeg:
                return True
        return False

    def flat(self):
        """atoms without integer segments (forces those)"""
        if not self.has_seg():
            return self.a
        out = []
        for x in self.a:
            if type(x) is IntSeg:
                out.extend(str(int(x.i)))
            else:
                out.append(x)
        return tuple(out)

    def __len__(self):
        return len(self.flat())

    def __bool__(self):
        return len(self.a) > 0

    def __iter__(self):
        for x in self.flat():
            yield x if type(x) is str else SymStr((x,))

    def __getitem__(self, i):
        f = self.flat()
        if isinstance(i, slice):
            return mk_str(f[i])
        x = f[i]
        return x if type(x) is str else SymStr((x,))

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return repr(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    # -- comparison --------------------------------------------------------------
    def _eq(self, o):
        a, b = self.a, atoms_of(o)
        sa = any(type(x) is IntSeg for x in a)
        sb = any(type(x) is IntSeg for x in b)
        if sa or sb:
            # peel matching ends, then single-segment cases
            conds = []
            a, b = list(a), list(b)
            while a and b:
                x, y = a[0], b[0]
                if type(x) is IntSeg or type(y) is IntSeg:
                    break
                c = ch_eq(x, y)
                if c is False:
                    return False
                conds.append(c)
                a.pop(0)
                b.pop(0)
            while a and b:
                x, y = a[-1], b[-1]
                if type(x) is IntSeg or type(y) is IntSeg:
                    break
                c = ch_eq(x, y)
                if c is False:
                    return False
                conds.append(c)
                a.pop()
                b.pop()
            if not a and not b:
                return zAnd(conds)
            if not a or not b:
                return False
            if len(a) == 1 and len(b) == 1 and type(a[0]) is IntSeg and type(b[0]) is IntSeg:
                conds.append(B(a[0].i == b[0].i))
                return zAnd(conds)
            if len(b) == 1 and type(b[0]) is IntSeg:
                a, b = b, a
            if len(a) == 1 and type(a[0]) is IntSeg and all(type(x) is str for x in b):
                t = ''.join(b)
                try:
                    v = int(t)
                except ValueError:
                    return False
                if str(v) != t:
                    return False
                conds.append(B(a[0].i == v))
                return zAnd(conds)
            # a segment against characters that can never be digits
            for p, q in ((a, b), (b, a)):
                if type(p[0]) is IntSeg and type(q[0]) is not IntSeg:
                    d = frozenset([ord(q[0])]) if type(q[0]) is str else q[0].dom
                    if not (d & _SEG):
                        return False
            a = SymStr(tuple(a)).flat()
            b = SymStr(tuple(b)).flat()
            if len(a) != len(b):
                return False
            return zAnd(conds + [ch_eq(x, y) for x, y in zip(a, b)])
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            c = ch_eq(x, y)
            if c is False:
                return False
            if c is not True:
                out.append(c)
        return zAnd(out)

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk_bool(self._eq(o))

    def __ne__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk_bool(zNot(self._eq(o)))

    def _lt(self, o, strict):
        a, b = self.flat(), (o.flat() if type(o) is SymStr else tuple(o))
        n = min(len(a), len(b))
        if len(a) < len(b):
            res = True
        elif len(a) > len(b):
            res = False
        else:
            res = not strict
        for i in reversed(range(n)):
            x, y = a[i], b[i]
            eq = ch_eq(x, y)
            if eq is True:
                continue
            if type(x) is str and type(y) is str:
                res = x < y
                continue
            dx = [ord(x)] if type(x) is str else x.dom
            dy = [ord(y)] if type(y) is str else y.dom
            if max(dx) < min(dy):
                res = True
                continue
            if min(dx) > max(dy):
                res = False
                continue
            lt = zz.not_(zz.le(ch_code(y), ch_code(x)))
            res = zOr([lt, zAnd([eq, res])])
        return mk_bool(res)

    def __lt__(self, o):
        return self._lt(o, True) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return self._lt(o, False) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return lift(o)._lt(self, True) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return lift(o)._lt(self, False) if isinstance(o, str) else NotImplemented

    # -- building -------------------------------------------------------------
    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk_str(self.a + atoms_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk_str(atoms_of(o) + self.a)

    def __mul__(self, n):
        if not isinstance(n, int):
            return NotImplemented
        return mk_str(self.a * int(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        return self.concrete() % args

    def join(self, items):
        out = []
        first = True
        for it in items:
            if not isinstance(it, str):
                raise TypeError('sequence item: expected str instance, %s found' % it.__class__.__name__)
            if not first:
                out.extend(self.a)
            out.extend(atoms_of(it))
            first = False
        return mk_str(out)

    # -- queries --------------------------------------------------------------
    def contains(self, o):
        if not isinstance(o, str):
            raise TypeError("'in <string>' requires string as left operand, not " + o.__class__.__name__)
        b = atoms_of(o)
        if not b:
            return True
        if self.has_seg():
            dom = frozenset()
            for y in b:
                if type(y) is IntSeg:
                    dom = _SEG
                    break
                dom |= frozenset([ord(y)]) if type(y) is str else y.dom
            if len(b) == 1 and not (dom & _SEG):
                parts = [x for x in self.a if type(x) is not IntSeg]
                return mk_bool(zOr([ch_eq(x, b[0]) for x in parts]))
            if len(b) == 1 and b[0] == '-' and all(type(x) is not IntSeg or (type(x.i) is SymInt and x.i.lo >= 0)
                                                   for x in self.a):
                parts = [x for x in self.a if type(x) is not IntSeg]
                return mk_bool(zOr([ch_eq(x, b[0]) for x in parts]))
        f = self.flat()
        b = SymStr(tuple(b)).flat()
        return mk_bool(zOr([zAnd([ch_eq(f[i + j], b[j]) for j in range(len(b))])
                            for i in range(len(f) - len(b) + 1)]))

    def __contains__(self, o):
        return bool(self.contains(o))

    def _range(self, f, start, end):
        s, e, _ = slice(start, end).indices(len(f))
        return s, e

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mk_bool(zOr([self.startswith(q, start, end) for q in p]))
        if not isinstance(p, str):
            raise TypeError('startswith first arg must be str')
        b = SymStr(atoms_of(p)).flat()
        if start is None and end is None:
            a = self.a
            if not any(type(x) is IntSeg for x in a[:len(b)]):
                if len(a) < len(b) and not self.has_seg():
                    return False
                if len(a) >= len(b):
                    return mk_bool(zAnd([ch_eq(a[j], b[j]) for j in range(len(b))]))
            if b and a and type(a[0]) is IntSeg:
                d = frozenset([ord(b[0])]) if type(b[0]) is str else b[0].dom
                if not (d & _SEG):
                    return False
        f = self.flat()
        s, e = self._range(f, start, end)
        if e - s < len(b):
            return False
        if start is not None and len(f) < start:
            return False
        return mk_bool(zAnd([ch_eq(f[s + j], b[j]) for j in range(len(b))]))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mk_bool(zOr([self.endswith(q, start, end) for q in p]))
        if not isinstance(p, str):
            raise TypeError('endswith first arg must be str')
        b = SymStr(atoms_of(p)).flat()
        f = self.flat()
        s, e = self._range(f, start, end)
        if e - s < len(b):
            return False
        if start is not None and len(f) < start:
            return False
        return mk_bool(zAnd([ch_eq(f[e - len(b) + j], b[j]) for j in range(len(b))]))

    def _find(self, o, start, end, rev):
        b = SymStr(atoms_of(o)).flat()
        f = self.flat()
        s, e = self._range(f, start, end)
        rng = range(s, e - len(b) + 1)
        for i in (reversed(rng) if rev else rng):
            if bool(mk_bool(zAnd([ch_eq(f[i + j], b[j]) for j in range(len(b))]))):
                return i
        return -1

    def find(self, o, start=None, end=None):
        return self._find(o, start, end, False)

    def rfind(self, o, start=None, end=None):
        return self._find(o, start, end, True)

    def index(self, o, start=None, end=None):
        r = self._find(o, start, end, False)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, o, start=None, end=None):
        r = self._find(o, start, end, True)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, o, start=None, end=None):
        b = SymStr(atoms_of(o)).flat()
        f = self.flat()
        s, e = self._range(f, start, end)
        if not b:
            return e - s + 1
        n = 0
        i = s
        while i + len(b) <= e:
            if bool(mk_bool(zAnd([ch_eq(f[i + j], b[j]) for j in range(len(b))]))):
                n += 1
                i += len(b)
            else:
                i += 1
        return n

    def _all(self, pred):
        f = self.flat()
        if not f:
            return False
        return mk_bool(zAnd([ch_pred(x, pred) for x in f]))

    def isspace(self):
        return self._all(str.isspace)

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isprintable(self):
        return True if not self.a else self._all(str.isprintable)

    def isascii(self):
        return True if not self.a else self._all(str.isascii)

    # -- transformation ------------------------------------------------------
    def _map(self, f, context_sensitive=''):
        out = []
        for x in self.a:
            if type(x) is IntSeg:
                out.append(x)
            elif type(x) is str:
                if x in context_sensitive:
                    return f(self.concrete())
                out.extend(f(x))
            else:
                if any(chr(c) in context_sensitive for c in x.dom):
                    return f(self.concrete())
                if any(len(f(chr(c))) != 1 for c in x.dom):
                    # split on whether this character changes length
                    odd = [c for c in x.dom if len(f(chr(c))) != 1]
                    if bool(mk_bool(zOr([zz.eq(x.e, c) for c in sorted(odd)]) if len(odd) < len(x.dom) else True)):
                        out.extend(f(chr(_eng().concretize_int(x.e))))
                    else:
                        out.append(ch_map(SymChar(x.e, frozenset(c for c in x.dom if c not in odd)), f))
                else:
                    out.append(ch_map(x, f))
        return mk_str(out)

    def lower(self):
        return self._map(str.lower, '\u03a3')

    def upper(self):
        return self._map(str.upper)

    def casefold(self):
        return self._map(str.casefold)

    def _strip(self, chars, left, right):
        if chars is None:
            pred = str.isspace
            segmay = False
        else:
            if type(chars) is SymStr:
                chars = chars.concrete()
            pred = lambda c: c in chars
            segmay = any(c in '0123456789-' for c in chars)
        a = list(self.flat() if segmay else self.a)

        def hit(x):
            if type(x) is IntSeg:
                return False
            return bool(mk_bool(ch_pred(x, pred)))
        i, j = 0, len(a)
        if left:
            while i < j and hit(a[i]):
                i += 1
        if right:
            while j > i and hit(a[j - 1]):
                j -= 1
        return mk_str(a[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        return self[len(p):] if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and bool(self.endswith(p)) else self

    def split(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if sep is None:
            out, cur, n = [], [], 0
            a = self.a
            i = 0
            while i < len(a):
                x = a[i]
                sp = False if type(x) is IntSeg else bool(mk_bool(ch_pred(x, str.isspace)))
                if sp:
                    if cur:
                        out.append(mk_str(cur))
                        cur = []
                        n += 1
                else:
                    if not cur and maxsplit >= 0 and n >= maxsplit:
                        rest = mk_str(a[i:])
                        out.append(rest.rstrip())
                        return out
                    cur.append(x)
                i += 1
            if cur:
                out.append(mk_str(cur))
            return out
        b = SymStr(atoms_of(sep)).flat()
        if not b:
            raise ValueError('empty separator')
        seg_ok = len(b) == 1 and type(b[0]) is str and b[0] not in '0123456789-'
        if not seg_ok and len(b) == 1 and b[0] == '-':
            seg_ok = all(type(x) is not IntSeg or (type(x.i) is SymInt and x.i.lo >= 0) for x in self.a)
        a = self.a if seg_ok else self.flat()
        out, cur, i, n = [], [], 0, 0
        while i < len(a):
            hit = False
            if (maxsplit < 0 or n < maxsplit) and i + len(b) <= len(a):
                c = zAnd([False if type(a[i + j]) is IntSeg else ch_eq(a[i + j], b[j]) for j in range(len(b))])
                hit = bool(mk_bool(c))
            if hit:
                out.append(mk_str(cur))
                cur = []
                i += len(b)
                n += 1
            else:
                cur.append(a[i])
                i += 1
        out.append(mk_str(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit is None or int(maxsplit) < 0:
            return self.split(sep)
        parts = self.split(sep)
        maxsplit = int(maxsplit)
        if sep is None:
            return [s if type(s) is str else s for s in self.concrete().rsplit(None, maxsplit)]
        k = max(1, len(parts) - maxsplit)
        return [lift(sep).join(parts[:k])] + parts[k:]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return self[:i], sep, self[i + len(sep):]

    def splitlines(self, keepends=False):
        brk = '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'
        a = self.a
        out, cur, i = [], [], 0
        while i < len(a):
            x = a[i]
            hit = False if type(x) is IntSeg else bool(mk_bool(ch_pred(x, lambda c: c in brk)))
            if hit:
                tail = [x]
                if bool(mk_bool(ch_eq(x, '\r'))) and i + 1 < len(a) and type(a[i + 1]) is not IntSeg and \
                        bool(mk_bool(ch_eq(a[i + 1], '\n'))):
                    tail.append(a[i + 1])
                    i += 1
                out.append(mk_str(cur + (tail if keepends else [])))
                cur = []
            else:
                cur.append(x)
            i += 1
        if cur:
            out.append(mk_str(cur))
        return out

    def replace(self, old, new, count=-1):
        b = SymStr(atoms_of(old)).flat()
        if not b:
            return self.concrete().replace('', new if type(new) is str else new.concrete(), count)
        new_a = atoms_of(new)
        seg_ok = len(b) == 1 and type(b[0]) is str and b[0] not in '0123456789-'
        a = self.a if seg_ok else self.flat()
        out, i, n = [], 0, 0
        while i < len(a):
            hit = False
            if (count < 0 or n < count) and i + len(b) <= len(a):
                c = zAnd([False if type(a[i + j]) is IntSeg else ch_eq(a[i + j], b[j]) for j in range(len(b))])
                hit = bool(mk_bool(c))
            if hit:
                out.extend(new_a)
                i += len(b)
                n += 1
            else:
                out.append(a[i])
                i += 1
        return mk_str(out)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


def lift(s):
    return s if type(s) is SymStr else SymStr(tuple(s))


def str_to_int(s):
    """int(text)"""
    a = s.a
    if len(a) == 1 and type(a[0]) is IntSeg:
        return a[0].i
    f = s.flat()
    if len(f) > 6:
        return int(s.concrete())
    # digits with optional sign; anything else is concretised
    start = 0
    if f and f[0] == '-':
        start = 1
    body = f[start:]
    if body and all(type(x) is str or all(48 <= c <= 57 for c in x.dom) for x in body):
        tot, lo, hi = 0, 0, 0
        for x in body:
            if type(x) is str:
                if not ('0' <= x <= '9'):
                    return int(s.concrete())
                tot, lo, hi = tot * 10 + int(x), lo * 10 + int(x), hi * 10 + int(x)
            else:
                tot, lo, hi = tot * 10 + (x.e - 48), lo * 10 + min(x.dom) - 48, hi * 10 + max(x.dom) - 48
        if start:
            tot, lo, hi = -tot, -hi, -lo
        return mk_int(tot, lo, hi)
    return int(s.concrete())


def str_of_int(i):
    if type(i) is SymInt:
        v = i._v()
        if v is not None:
            return str(v)
        if 0 <= i.lo and i.hi <= 9:
            return SymStr((SymChar(i.e + 48, frozenset(range(48 + i.lo, 48 + i.hi + 1))),))
        return SymStr((IntSeg(i),))
    return str(i)


class SymHash(Sym):
    """hash() of something symbolic, compared by how it came about"""
    __slots__ = ('kind', 't')

    def __init__(self, t, kind='leaf'):
        self.t = t
        self.kind = kind

    @property
    def __class__(self):
        return int

    def __eq__(self, o):
        if type(o) is not SymHash:
            return isinstance(o, int) and self.concrete() == o
        if self.kind != o.kind or len(self.t) != len(o.t):
            return False
        for a, b in zip(self.t, o.t):
            if not (a == b):
                return False
        return True

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return hash(self.t)

    def concrete(self):
        if self.kind == 'leaf':
            return hash(deep_concrete(self.t[0]))
        parts = tuple(p.concrete() if type(p) is SymHash else p for p in self.t)
        if self.kind == 'tuple':
            return hash(parts)
        return _HASH_OPS[self.kind](*[deep_concrete(p) for p in parts])
    __index__ = __int__ = concrete

    def _op(self, name, o):
        return SymHash((self, o), name)

    def __xor__(self, o):
        return self._op('xor', o)
    __rxor__ = __xor__

    def __add__(self, o):
        return self._op('add', o)
    __radd__ = __add__

    def __mul__(self, o):
        return self._op('mul', o)
    __rmul__ = __mul__

    def __mod__(self, o):
        return self._op('mod', o)

    def __and__(self, o):
        return self._op('and_', o)
    __rand__ = __and__

    def __or__(self, o):
        return self._op('or_', o)
    __ror__ = __or__

    def __sub__(self, o):
        return self._op('sub', o)

    def __lshift__(self, o):
        return self._op('lshift', o)

    def __rshift__(self, o):
        return self._op('rshift', o)

    def __neg__(self):
        return SymHash((self,), 'neg')

    def __invert__(self):
        return SymHash((self,), 'invert')

    def __bool__(self):
        return bool(self.concrete())

    def __lt__(self, o):
        return self.concrete() < int(o)

    def __le__(self, o):
        return self.concrete() <= int(o)

    def __gt__(self, o):
        return self.concrete() > int(o)

    def __ge__(self, o):
        return self.concrete() >= int(o)


import operator as _op_module
_HASH_OPS = {n: getattr(_op_module, n) for n in ('xor', 'add', 'mul', 'mod', 'and_', 'or_', 'sub', 'lshift', 'rshift',
                                                 'neg', 'invert')}


def deep_concrete(v, depth=0):
    """force every symbolic part of v (forks)"""
    if isinstance(type(v), type) and issubclass(type(v), Sym):
        return v.concrete()
    t = type(v)
    if t is list:
        return [deep_concrete(x) for x in v]
    if t is tuple:
        return tuple(deep_concrete(x) for x in v)
    if hasattr(t, '_sx_concrete'):
        return v._sx_concrete()
    return v


def is_sym(v):
    return issubclass(type(v), Sym)


def has_sym(v, depth=3):
    t = type(v)
    if issubclass(t, Sym):
        return True
    if depth and (t is list or t is tuple):
        return any(has_sym(x, depth - 1) for x in v)
    if hasattr(t, '_sx_concrete'):
        return True
    return False
