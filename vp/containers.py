"""dict / set / Counter / defaultdict / OrderedDict with possibly symbolic keys (association by ==),
StringIO and text files over possibly symbolic text."""
import collections
from .values import Sym, SymHash, SymStr, SymInt, is_sym, deep_concrete, mk_str, atoms_of, lift, IntSeg, ch_eq, mk_bool
from . import core

_MISSING = object()


def sx_hash(x):
    """hash(x): an int, or a SymHash when x is symbolic"""
    t = type(x)
    if t is str or t is int or x is None or t is bool:
        return hash(x)
    if issubclass(t, Sym):
        if t is SymHash:
            return x
        return SymHash((x,))
    if t is tuple:
        parts = [sx_hash(p) for p in x]
        if any(type(p) is SymHash for p in parts):
            return SymHash(tuple(parts), 'tuple')
        return hash(x)
    h = t.__hash__
    if h is None:
        raise TypeError("unhashable type: '%s'" % x.__class__.__name__)
    if isinstance(h, type(sx_hash)):
        return h(x)
    if issubclass(t, tuple):
        return sx_hash(tuple(x))
    return hash(x)


class SView(object):
    def __init__(self, d, kind):
        self._d = d
        self._k = kind

    @property
    def __class__(self):
        return {'k': type({}.keys()), 'v': type({}.values()), 'i': type({}.items())}[self._k]

    def __iter__(self):
        d, k = self._d, self._k
        n = d._ver
        for ent in list(d._ents.values()):
            if d._ver != n:
                raise RuntimeError('dictionary changed size during iteration')
            yield ent[0] if k == 'k' else ent[1] if k == 'v' else (ent[0], ent[1])

    def __reversed__(self):
        return reversed(list(self))

    def __len__(self):
        return len(self._d)

    def __contains__(self, x):
        if self._k == 'k':
            return x in self._d
        return any(x == y for y in self)

    def __eq__(self, o):
        return SSet(self) == SSet(o)

    def __and__(self, o):
        return SSet(self) & SSet(o)

    def __or__(self, o):
        return SSet(self) | SSet(o)

    def __sub__(self, o):
        return SSet(self) - SSet(o)

    def __rsub__(self, o):
        return SSet(o) - SSet(self)

    def isdisjoint(self, o):
        return SSet(self).isdisjoint(o)

    def _sx_concrete(self):
        return getattr(self._d._sx_concrete(), {'k': 'keys', 'v': 'values', 'i': 'items'}[self._k])()

    def _sx_repr(self, rep):
        return rep(list(self))


class SDict(object):
    _real = dict

    def __init__(self, *args, **kw):
        self._ents = {}      # serial -> [key, value]
        self._idx = {}       # concretely hashable key -> serial
        self._sym = {}       # serials whose keys are symbolic -> None
        self._n = 0
        self._ver = 0
        if args or kw:
            self.update(*args, **kw)

    @property
    def __class__(self):
        return type(self)._real

    __hash__ = None

    # -- lookup
    def _find(self, key):
        h = sx_hash(key)
        if type(h) is not SymHash:
            s = self._idx.get(key)
            if s is not None:
                return s, False
            for s in self._sym:
                k = self._ents[s][0]
                if k is key or bool(k == key):
                    return s, False
            return None, False
        for s, ent in self._ents.items():
            if ent[0] is key or bool(ent[0] == key):
                return s, True
        return None, True

    def _put(self, key, value):
        s, symbolic = self._find(key)
        if s is not None:
            self._ents[s][1] = value
            return
        s = self._n
        self._n += 1
        self._ver += 1
        self._ents[s] = [key, value]
        if symbolic:
            self._sym[s] = None
        else:
            self._idx[key] = s

    def _del(self, s):
        key = self._ents.pop(s)[0]
        self._ver += 1
        if s in self._sym:
            del self._sym[s]
        else:
            del self._idx[key]

    def __getitem__(self, key):
        s, _ = self._find(key)
        if s is None:
            return self.__missing__(key)
        return self._ents[s][1]

    def __missing__(self, key):
        raise KeyError(key)

    def __setitem__(self, key, value):
        self._put(key, value)

    def __delitem__(self, key):
        s, _ = self._find(key)
        if s is None:
            raise KeyError(key)
        self._del(s)

    def __contains__(self, key):
        return self._find(key)[0] is not None

    def get(self, key, default=None):
        s, _ = self._find(key)
        return default if s is None else self._ents[s][1]

    def setdefault(self, key, default=None):
        s, _ = self._find(key)
        if s is None:
            self._put(key, default)
            return default
        return self._ents[s][1]

    def pop(self, key, default=_MISSING):
        s, _ = self._find(key)
        if s is None:
            if default is _MISSING:
                raise KeyError(key)
            return default
        v = self._ents[s][1]
        self._del(s)
        return v

    def popitem(self, last=True):
        if not self._ents:
            raise KeyError('popitem(): dictionary is empty')
        s = list(self._ents)[-1 if last else 0]
        k, v = self._ents[s]
        self._del(s)
        return k, v

    def move_to_end(self, key, last=True):
        s, _ = self._find(key)
        if s is None:
            raise KeyError(key)
        ent = self._ents.pop(s)
        if last:
            self._ents[s] = ent
        else:
            rest = dict(self._ents)
            self._ents.clear()
            self._ents[s] = ent
            self._ents.update(rest)

    def clear(self):
        self._ents.clear()
        self._idx.clear()
        self._sym.clear()
        self._ver += 1

    def keys(self):
        return SView(self, 'k')

    def values(self):
        return SView(self, 'v')

    def items(self):
        return SView(self, 'i')

    def __iter__(self):
        return iter(SView(self, 'k'))

    def __reversed__(self):
        return reversed(list(self))

    def __len__(self):
        return len(self._ents)

    def __bool__(self):
        return bool(self._ents)

    def update(self, *args, **kw):
        if args:
            o = args[0]
            if hasattr(o, 'keys'):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def _new(self):
        return type(self)()

    def copy(self):
        r = self._new()
        r._ents = {s: [k, v] for s, (k, v) in self._ents.items()}
        r._idx = dict(self._idx)
        r._sym = dict(self._sym)
        r._n = self._n
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        r = self._new()
        memo[id(self)] = r
        for k, v in self._ents.values():
            r._put(copy.deepcopy(k, memo), copy.deepcopy(v, memo))
        return r

    @classmethod
    def fromkeys(cls, it, value=None):
        r = cls()
        for k in it:
            r[k] = value
        return r

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        if type(o) is not dict and type(self)._real is collections.OrderedDict and o.__class__ is collections.OrderedDict:
            return list(self.items()) == list(o.items())
        oo = o if isinstance_sdict(o) else SDict(o)
        for k, v in self._ents.values():
            s, _ = oo._find(k)
            if s is None:
                return False
            w = oo._ents[s][1]
            if not (v is w or bool(v == w)):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = SDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return repr(self._sx_concrete())

    def _sx_concrete(self):
        return dict((deep_concrete(k), deep_concrete(v)) for k, v in self._ents.values())

    def _sx_repr(self, rep):
        out = []
        for k, v in self._ents.values():
            out.append(rep(k) + ': ' + rep(v))
        return '{' + lift(', ').join(out) + '}'


def isinstance_sdict(o):
    return issubclass(type(o), SDict)


class SOrderedDict(SDict):
    _real = collections.OrderedDict


class SDefaultDict(SDict):
    _real = collections.defaultdict

    def __init__(self, factory=None, *args, **kw):
        self.default_factory = factory
        SDict.__init__(self, *args, **kw)

    def _new(self):
        return SDefaultDict(self.default_factory)

    def copy(self):
        r = SDict.copy(self)
        return r
    __copy__ = copy

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        from . import models
        v = models.call(self.default_factory)
        self[key] = v
        return v


class SCounter(SDict):
    _real = collections.Counter

    def __init__(self, iterable=None, **kw):
        SDict.__init__(self)
        self.update(iterable, **kw)

    def __missing__(self, key):
        return 0

    def update(self, iterable=None, **kw):
        if iterable is not None:
            if hasattr(iterable, 'keys') or isinstance(iterable, dict):
                for k in iterable:
                    self[k] = iterable[k] + self.get(k, 0)
            else:
                for k in iterable:
                    s, symbolic = self._find(k)
                    if s is None:
                        self._put(k, 1)
                    else:
                        self._ents[s][1] = self._ents[s][1] + 1
        for k, v in kw.items():
            self[k] = v + self.get(k, 0)

    def subtract(self, iterable=None, **kw):
        if iterable is not None:
            if hasattr(iterable, 'keys'):
                for k in iterable:
                    self[k] = self.get(k, 0) - iterable[k]
            else:
                for k in iterable:
                    self[k] = self.get(k, 0) - 1
        for k, v in kw.items():
            self[k] = self.get(k, 0) - v

    def most_common(self, n=None):
        items = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return items if n is None else items[:max(0, int(n))]

    def elements(self):
        for k, v in list(self.items()):
            for _ in range(v):
                yield k

    def total(self):
        return sum(self.values())

    def __delitem__(self, key):
        s, _ = self._find(key)
        if s is not None:
            self._del(s)

    def __add__(self, o):
        r = SCounter()
        for k, v in self.items():
            n = v + o[k]
            if n > 0:
                r[k] = n
        for k, v in o.items():
            if k not in self and v > 0:
                r[k] = v
        return r

    def __and__(self, o):
        r = SCounter()
        for k, v in self.items():
            n = min(v, o[k])
            if n > 0:
                r[k] = n
        return r

    def __or__(self, o):
        r = SCounter()
        for k, v in self.items():
            n = max(v, o[k])
            if n > 0:
                r[k] = n
        for k, v in o.items():
            if k not in self and v > 0:
                r[k] = v
        return r

    def __sub__(self, o):
        r = SCounter()
        for k, v in self.items():
            n = v - o[k]
            if n > 0:
                r[k] = n
        for k, v in o.items():
            if k not in self and v < 0:
                r[k] = -v
        return r

    def _sx_concrete(self):
        return collections.Counter(SDict._sx_concrete(self))


class SSet(object):
    _real = set

    def __init__(self, it=()):
        self._d = SDict()
        for x in it:
            self._d._put(x, None)

    @property
    def __class__(self):
        return type(self)._real

    __hash__ = None

    def add(self, x):
        self._d._put(x, None)

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        self._d.pop(x)

    def pop(self):
        if not len(self._d):
            raise KeyError('pop from an empty set')
        k = next(iter(self._d))
        self._d.pop(k)
        return k

    def clear(self):
        self._d.clear()

    def copy(self):
        r = type(self)()
        r._d = self._d.copy()
        return r
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return type(self)(copy.deepcopy(x, memo) for x in self)

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def update(self, *its):
        for it in its:
            for x in it:
                self._d._put(x, None)

    def union(self, *its):
        r = self.copy()
        SSet.update(r, *its)
        return r

    def intersection(self, *its):
        r = type(self)()
        sets = [it if issubclass(type(it), SSet) else SSet(it) for it in its]
        for x in self:
            if all(x in s for s in sets):
                r._d._put(x, None)
        return r

    def difference(self, *its):
        r = type(self)()
        sets = [it if issubclass(type(it), SSet) else SSet(it) for it in its]
        for x in self:
            if not any(x in s for s in sets):
                r._d._put(x, None)
        return r

    def symmetric_difference(self, o):
        o = o if issubclass(type(o), SSet) else SSet(o)
        return self.difference(o).union(SSet(o).difference(self))

    def difference_update(self, *its):
        self._d = self.difference(*its)._d

    def intersection_update(self, *its):
        self._d = self.intersection(*its)._d

    def issubset(self, o):
        o = o if issubclass(type(o), SSet) else SSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def _is(self, o):
        return isinstance(o, (set, frozenset))

    def __or__(self, o):
        return self.union(o) if self._is(o) else NotImplemented

    def __ror__(self, o):
        return SSet(o).union(self)

    def __and__(self, o):
        return self.intersection(o) if self._is(o) else NotImplemented

    def __rand__(self, o):
        return SSet(o).intersection(self)

    def __sub__(self, o):
        return self.difference(o) if self._is(o) else NotImplemented

    def __rsub__(self, o):
        return SSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __eq__(self, o):
        if not self._is(o):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return self.issubset(o) and len(self) < len(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return self.issuperset(o) and len(self) > len(o)

    def __repr__(self):
        return repr(self._sx_concrete())

    def _sx_concrete(self):
        return type(self)._real(deep_concrete(x) for x in self)

    def _sx_repr(self, rep):
        return '{' + lift(', ').join([rep(x) for x in self]) + '}'


class SFrozenSet(SSet):
    _real = frozenset
    add = discard = remove = pop = clear = update = None

    def __hash__(self):
        return hash(self._sx_concrete())


# --------------------------------------------------------------------------- text I/O
class SStringIO(object):
    import io as _io

    def __init__(self, initial='', newline='\n', on_close=None, readable=True, writable=True, pos=0, name=None):
        self._buf = list(atoms_of(initial)) if initial is not None else []
        self._p = pos
        self._closed = False
        self._on_close = on_close
        self._r = readable
        self._w = writable
        self.name = name

    @property
    def __class__(self):
        import io
        return io.StringIO

    @property
    def closed(self):
        return self._closed

    def _ck(self):
        if self._closed:
            raise ValueError('I/O operation on closed file')

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def _rd(self):
        self._ck()
        if not self._r:
            import io
            raise io.UnsupportedOperation('not readable')

    def read(self, n=-1):
        self._rd()
        n = -1 if n is None else int(n)
        if n < 0:
            out = self._buf[self._p:]
        else:
            self._force()
            out = self._buf[self._p:self._p + n]
        self._p += len(out)
        return mk_str(out)

    def _force(self):
        if any(type(x) is IntSeg for x in self._buf):
            head = SymStr(tuple(self._buf[:self._p])).flat()
            rest = SymStr(tuple(self._buf[self._p:])).flat()
            self._buf = list(head) + list(rest)
            self._p = len(head)

    def readline(self, n=-1):
        self._rd()
        out = []
        while self._p < len(self._buf):
            x = self._buf[self._p]
            self._p += 1
            out.append(x)
            if x == '\n' if type(x) is str else (type(x) is not IntSeg and bool(mk_bool(ch_eq(x, '\n')))):
                break
        return mk_str(out)

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        self._ck()
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def write(self, s):
        self._ck()
        if not self._w:
            import io
            raise io.UnsupportedOperation('not writable')
        if not isinstance(s, str):
            raise TypeError('string argument expected, got %r' % s.__class__.__name__)
        a = list(atoms_of(s))
        if self._p == len(self._buf):
            self._buf.extend(a)
        else:
            self._force()
            self._buf[self._p:self._p + len(a)] = a
        self._p += len(a)
        return len(a)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def getvalue(self):
        self._ck()
        return mk_str(self._buf)

    def seek(self, pos, whence=0):
        self._ck()
        if whence == 2:
            self._p = len(self._buf)
        else:
            if pos:
                self._force()
            self._p = min(int(pos), len(self._buf))
        return self._p

    def tell(self):
        self._ck()
        self._force()
        return self._p

    def truncate(self, size=None):
        self._ck()
        del self._buf[self._p if size is None else int(size):]

    def flush(self):
        pass

    def close(self):
        if not self._closed:
            if self._on_close is not None:
                self._on_close(mk_str(self._buf))
            self._closed = True

    def __del__(self):
        try:
            self.close()
        except BaseException:
            pass

    def __enter__(self):
        self._ck()
        return self

    def __exit__(self, *a):
        self.close()

    def _sx_concrete(self):
        import io
        s = io.StringIO(deep_concrete(mk_str(self._buf)))
        s.seek(self._p)
        return s


def universal_newlines(text):
    """what open(..., 'r') does to \\r\\n and \\r"""
    a = list(atoms_of(text))
    out = []
    i = 0
    while i < len(a):
        x = a[i]
        if type(x) is not IntSeg and (x == '\r' if type(x) is str else bool(mk_bool(ch_eq(x, '\r')))):
            out.append('\n')
            if i + 1 < len(a) and type(a[i + 1]) is not IntSeg and bool(mk_bool(ch_eq(a[i + 1], '\n'))):
                i += 1
        else:
            out.append(x)
        i += 1
    return mk_str(out)


class Blob(object):
    """a binary file: a sequence of pickled objects"""

    def __init__(self, name, items):
        self.name = name
        self.items = items
        self.pos = 0
        self.closed = False

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


class VFS(object):
    """the files the executed code can see"""

    def __init__(self):
        self.files = {}
        self.dirs = set()
        self.log = []

    def norm(self, path):
        import os
        p = path
        if is_sym(p):
            p = p.concrete()
        return os.path.normpath(os.fspath(p))

    def open(self, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = self.norm(path)
        self.log.append(('open', p, mode))
        if 'b' in mode:
            return self._open_blob(p, mode)
        if 'r' in mode and '+' not in mode:
            if p not in self.files:
                raise FileNotFoundError(2, 'No such file or directory', p)
            txt = self.files[p]
            return SStringIO(universal_newlines(txt) if newline is None else txt, writable=False, name=p)
        import os
        d = os.path.dirname(p)
        if d not in self.dirs and not any(f.startswith(d + '/') for f in list(self.files) + sorted(self.dirs)):
            raise FileNotFoundError(2, 'No such file or directory', p)
        if 'x' in mode and p in self.files:
            raise FileExistsError(17, 'File exists', p)
        init = self.files.get(p, '') if 'a' in mode or '+' in mode else ''

        def save(content):
            self.files[p] = content
        self.files[p] = init
        f = SStringIO(init, on_close=save, readable='+' in mode, name=p)
        if 'a' in mode:
            f._p = len(f._buf)
        return f

    def _open_blob(self, p, mode):
        import os
        if 'r' in mode:
            if p not in self.files:
                raise FileNotFoundError(2, 'No such file or directory', p)
            if type(self.files[p]) is not list:
                raise NotImplementedError('binary contents of a text file')
            return Blob(p, self.files[p])
        d = os.path.dirname(p)
        if d not in self.dirs and not any(f.startswith(d + '/') for f in list(self.files) + sorted(self.dirs)):
            raise FileNotFoundError(2, 'No such file or directory', p)
        self.files[p] = []
        return Blob(p, self.files[p])


collections.abc.MutableMapping.register(SDict)
