"""What a call means when symbolic values are involved.  `call` replaces every call expression of
the instrumented source."""
import builtins
import collections
import copy
import functools
import heapq
import io
import itertools
import json
import math
import operator
import os
import pathlib
import pickle
import random
import re
import shutil
import statistics
import string
import sys
import time
import types

from .values import (Sym, SymBool, SymInt, SymReal, SymStr, SymChar, SymHash, IntSeg, is_sym, has_sym, deep_concrete, mk_str,
                     lift, str_to_int, str_of_int, mk_bool, zAnd, zOr, zNot, atoms_of)
from .containers import (SDict, SOrderedDict, SDefaultDict, SCounter, SSet, SFrozenSet, SStringIO, SView, sx_hash, VFS)
from . import core

PYFUN = types.FunctionType
BUILTIN = types.BuiltinFunctionType
METHOD = types.MethodType
MDESC = type(str.join)
WRAP = type(''.__add__)
SLOT = type(str.__add__)

STATE = {'vfs': None, 'entered': None, 'random': None}


# --------------------------------------------------------------------------- text rendering
def _pyfun(f):
    return type(f) is PYFUN


def sx_repr(x):
    t = type(x)
    if t is SymStr:
        a = x.a
        if all(type(c) is IntSeg or (c.isprintable() and c not in '\'"\\' if type(c) is str else
                                     all(chr(d).isprintable() and chr(d) not in '\'"\\' for d in c.dom)) for c in a):
            return mk_str(("'",) + tuple(a) + ("'",))
        return repr(x.concrete())
    if t is SymInt:
        return str_of_int(x)
    if issubclass(t, Sym):
        return repr(x.concrete())
    if t is list:
        return '[' + lift(', ').join([sx_repr(i) for i in x]) + ']'
    if t is tuple:
        if len(x) == 1:
            return '(' + sx_repr(x[0]) + ',)'
        return '(' + lift(', ').join([sx_repr(i) for i in x]) + ')'
    if t is dict:
        return '{' + lift(', ').join([sx_repr(k) + ': ' + sx_repr(v) for k, v in x.items()]) + '}'
    if hasattr(t, '_sx_repr'):
        return x._sx_repr(sx_repr)
    if _pyfun(t.__repr__):
        return t.__repr__(x)
    return repr(x)


def sx_str(x):
    t = type(x)
    if t is str or t is SymStr:
        return x
    if t is SymInt:
        return str_of_int(x)
    if issubclass(t, Sym):
        return str(x.concrete())
    s = t.__str__
    if _pyfun(s):
        return s(x)
    if s is object.__str__ or t in (list, tuple, dict) or hasattr(t, '_sx_repr'):
        return sx_repr(x)
    if issubclass(t, BaseException):
        args = x.args
        if len(args) == 1 and has_sym(args[0]):
            return sx_str(args[0])
        if has_sym(list(args)):
            return sx_repr(tuple(args))
    return str(x)


def sx_format(x, spec=''):
    if is_sym(spec):
        spec = spec.concrete()
    t = type(x)
    if spec == '':
        f = t.__format__
        if _pyfun(f) and not issubclass(t, Sym):
            return f(x, '')
        return sx_str(x)
    if issubclass(t, Sym):
        return format(x.concrete(), spec)
    return format(x, spec)


_FMT = string.Formatter()


def sx_str_format(tmpl, args, kw):
    if is_sym(tmpl):
        tmpl = tmpl.concrete()
    out = []
    auto = 0
    for lit, field, spec, conv in _FMT.parse(tmpl):
        if lit:
            out.extend(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        elif field.isdigit() and False:
            pass
        first, rest = _string_split(field)
        if isinstance(first, int):
            try:
                obj = args[first]
            except IndexError:
                raise IndexError('Replacement index %d out of range for positional args tuple' % first)
        else:
            obj = kw[first]
        for is_attr, i in rest:
            obj = getattr(obj, i) if is_attr else obj[i]
        if conv == 'r':
            obj = sx_repr(obj)
        elif conv == 's':
            obj = sx_str(obj)
        elif conv == 'a':
            obj = ascii(deep_concrete(obj))
        if spec and '{' in spec:
            spec, auto = _nested(spec, args, kw, auto)
        out.extend(atoms_of(sx_format(obj, spec or '')))
    return mk_str(out)


def _nested(spec, args, kw, auto):
    out = ''
    for lit, field, s, conv in _FMT.parse(spec):
        out += lit
        if field is not None:
            if field == '':
                field = str(auto)
                auto += 1
            v = args[int(field)] if field.isdigit() else kw[field]
            out += str(deep_concrete(v))
    return out, auto


def _string_split(field):
    import _string
    return _string.formatter_field_name_split(field)


_PCT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?([hlL])?([diouxXeEfFgGcrsa%])')


def sx_percent(tmpl, args):
    if is_sym(tmpl):
        if not isinstance(tmpl, str):
            return tmpl % args
        tmpl = tmpl.concrete()
    if type(tmpl) is not str:
        return tmpl % args
    if not has_sym(args if isinstance(args, tuple) else (args,), 2) and not _has_obj(args):
        return tmpl % args
    items = list(args) if type(args) is tuple else [args]
    out = []
    pos = 0
    n = 0
    for m in _PCT.finditer(tmpl):
        out.extend(tmpl[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, _, kind = m.groups()
        if kind == '%':
            out.append('%')
            continue
        if width == '*' or prec == '*':
            return tmpl % deep_concrete(args)
        if name is not None:
            v = args[name]
        else:
            if n >= len(items):
                raise TypeError('not enough arguments for format string')
            v = items[n]
            n += 1
        if flags or width or prec or kind not in 'sdri':
            out.extend(('%' + flags + (width or '') + ('.' + prec if prec else '') + kind) % (deep_concrete(v),))
        elif kind == 's':
            out.extend(atoms_of(sx_str(v)))
        elif kind == 'r':
            out.extend(atoms_of(sx_repr(v)))
        else:
            if type(v) is SymInt:
                out.extend(atoms_of(str_of_int(v)))
            else:
                out.extend('%d' % deep_concrete(v))
    out.extend(tmpl[pos:])
    if type(args) is tuple and n < len(items):
        raise TypeError('not all arguments converted during string formatting')
    return mk_str(out)


def _has_obj(args):
    for a in (args if type(args) is tuple else (args,)):
        if type(a) not in (str, int, float, bool, type(None)):
            return True
    return False


def fstring(parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.extend(p)
        else:
            v, conv, spec = p
            if conv == 'r':
                v = sx_repr(v)
            elif conv == 's':
                v = sx_str(v)
            elif conv == 'a':
                v = ascii(deep_concrete(v))
            out.extend(atoms_of(sx_format(v, spec)))
    return mk_str(out)


# --------------------------------------------------------------------------- operators
def contains(a, b):
    """a in b"""
    tb = type(b)
    if tb is SymStr:
        return b.contains(a)
    if tb is str:
        if type(a) is SymStr:
            return lift(b).contains(a)
        return a in b
    if tb in (dict, set, frozenset) or tb is type({}.keys()):
        if is_sym(a) or (type(a) is tuple and has_sym(a)):
            for x in b:
                if bool(x == a):
                    return True
            return False
    return a in b


def not_contains(a, b):
    r = contains(a, b)
    if type(r) is SymBool:
        return mk_bool(zNot(r))
    return not r


def is_bool(a, b):
    """a is b, one of them True or False"""
    if type(a) is SymBool:
        a = bool(a)
    if type(b) is SymBool:
        b = bool(b)
    return a is b


def truth(x):
    return bool(x) if type(x) is SymBool else x


def mod(a, b):
    if type(a) is str or type(a) is SymStr:
        return sx_percent(a, b)
    return a % b


def mk_dict(items):
    d = SDict()
    for it in items:
        if len(it) == 1:
            d.update(it[0])
        else:
            d._put(it[0], it[1])
    return d


def mk_set(items):
    return SSet(items)


# --------------------------------------------------------------------------- builtins
def m_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    t = type(x)
    if len(a) == 1 and not k:
        if t is SymInt:
            return x
        if t is SymBool:
            return x._int()
        if t is SymStr:
            return str_to_int(x)
        if t is SymReal:
            return int(x.concrete())
    return int(*[deep_concrete(y) for y in a], **k)


def m_float(*a):
    if a and is_sym(a[0]):
        if type(a[0]) is SymReal:
            return a[0]
        return float(a[0].concrete())
    return float(*a)


def m_bool(*a):
    if not a:
        return False
    if type(a[0]) is SymBool:
        return a[0]
    if type(a[0]) is SymInt:
        return a[0] != 0
    return bool(a[0])


def m_str(*a, **k):
    if len(a) == 1 and not k:
        return sx_str(a[0])
    return str(*[deep_concrete(x) for x in a], **k)


def m_type(*a):
    if len(a) == 1:
        x = a[0]
        t = type(x)
        if issubclass(t, Sym) or hasattr(t, '_sx_concrete'):
            return x.__class__
        return t
    return type(a[0].concrete() if is_sym(a[0]) else a[0], a[1], a[2]._sx_concrete() if isinstance(a[2], SDict) else a[2])


def m_ord(x):
    if type(x) is SymStr:
        f = x.flat()
        if len(f) == 1 and type(f[0]) is not str:
            return SymInt(f[0].e, min(f[0].dom), max(f[0].dom))
        return ord(x.concrete())
    return ord(x)


def m_chr(x):
    return chr(int(x))


class MMap(object):
    def __init__(self, f, *its):
        self._f = f
        self._its = [iter(i) for i in its]

    @property
    def __class__(self):
        return map

    def __iter__(self):
        return self

    def __next__(self):
        args = [next(i) for i in self._its]
        return call(self._f, *args)


class MFilter(object):
    def __init__(self, f, it):
        self._f = f
        self._it = iter(it)

    @property
    def __class__(self):
        return filter

    def __iter__(self):
        return self

    def __next__(self):
        while True:
            x = next(self._it)
            if x if self._f is None else call(self._f, x):
                return x


def _wrapkey(kw):
    k = kw.get('key')
    if k is not None and type(k) is not PYFUN and not isinstance(k, (operator.attrgetter, operator.itemgetter)):
        kw['key'] = lambda x: call(k, x)
    return kw


def m_sorted(it, **kw):
    return sorted(it, **_wrapkey(kw))


def m_min(*a, **kw):
    return min(*a, **_wrapkey(kw))


def m_max(*a, **kw):
    return max(*a, **_wrapkey(kw))


def m_print(*a, **k):
    f = k.get('file')
    if f is not None and f not in (sys.stdout, sys.stderr):
        sep = k.get('sep', ' ')
        end = k.get('end', '\n')
        f.write(lift(' ' if sep is None else sep).join([sx_str(x) for x in a]) + ('\n' if end is None else end))
    return None


def m_hash(x):
    return sx_hash(x)


def m_repr(x):
    return sx_repr(x)


def m_format(x, spec=''):
    return sx_format(x, spec)


def m_dict(*a, **k):
    return SDict(*a, **k)


def m_counter(*a, **k):
    return SCounter(*a, **k)


def m_abs(x):
    return abs(x)


def m_reduce(f, it, *init):
    it = iter(it)
    if init:
        acc = init[0]
    else:
        try:
            acc = next(it)
        except StopIteration:
            raise TypeError('reduce() of empty iterable with no initial value')
    for x in it:
        acc = call(f, acc, x)
    return acc


def m_stringio(initial_value='', newline='\n'):
    return SStringIO(initial_value)


def m_open(*a, **k):
    return STATE['vfs'].open(*a, **k)


def m_pickle_dump(obj, file, protocol=None, **k):
    if file.closed:
        raise ValueError('write to closed file')
    file.items.append(obj)


def m_pickle_load(file, **k):
    if file.closed:
        raise ValueError('read of closed file')
    if file.pos >= len(file.items):
        raise EOFError('Ran out of input')
    file.pos += 1
    return file.items[file.pos - 1]


def m_bool_all(it):
    return all(it)


def m_fsum(it):
    return math.fsum(deep_concrete(list(it)))


def m_getattr(o, name, *d):
    if is_sym(name):
        name = name.concrete()
    return getattr(o, name, *d)


def _named(f):
    return lambda o, name, *a: f(o, name.concrete() if is_sym(name) else name, *a)


# file system calls of the code under test only ever reach the virtual one
def _vfs():
    return STATE['vfs']


def m_makedirs(path, mode=0o777, exist_ok=False):
    v = _vfs()
    p = v.norm(path)
    v.log.append(('makedirs', p))
    if p in v.dirs and not exist_ok:
        raise FileExistsError(17, 'File exists', p)
    while p and p != '/' and p not in v.dirs:
        v.dirs.add(p)
        p = os.path.dirname(p)


def _children(p):
    v = _vfs()
    out = []
    for f in list(v.files) + sorted(v.dirs):
        if f.startswith(p.rstrip('/') + '/'):
            c = f[len(p.rstrip('/')) + 1:].split('/')[0]
            if c not in out:
                out.append(c)
    return out


def m_exists(path):
    v = _vfs()
    p = v.norm(path)
    return p in v.files or p in v.dirs or bool(_children(p))


def m_isdir(path):
    v = _vfs()
    p = v.norm(path)
    return p in v.dirs or bool(_children(p))


def m_isfile(path):
    v = _vfs()
    return v.norm(path) in v.files


def m_listdir(path='.'):
    v = _vfs()
    p = v.norm(path)
    if not m_isdir(p):
        raise FileNotFoundError(2, 'No such file or directory', p)
    return _children(p)


def m_walk(top, topdown=True, onerror=None, followlinks=False):
    v = _vfs()
    p = v.norm(top)
    kids = _children(p)
    dirs = [k for k in kids if m_isdir(p + '/' + k)]
    files = [k for k in kids if m_isfile(p + '/' + k)]
    yield p, dirs, files
    for d in dirs:
        for x in m_walk(p + '/' + d):
            yield x


def m_rmtree(path, ignore_errors=False, onerror=None, **kw):
    v = _vfs()
    p = v.norm(path)
    v.log.append(('rmtree', p))
    if not m_exists(p) and not ignore_errors:
        raise FileNotFoundError(2, 'No such file or directory', p)
    for f in list(v.files):
        if f == p or f.startswith(p + '/'):
            del v.files[f]
    for d in list(v.dirs):
        if d == p or d.startswith(p + '/'):
            v.dirs.discard(d)


def m_remove(path, **kw):
    v = _vfs()
    p = v.norm(path)
    v.log.append(('remove', p))
    if p not in v.files:
        raise FileNotFoundError(2, 'No such file or directory', p)
    del v.files[p]


def m_getsize(path):
    v = _vfs()
    p = v.norm(path)
    if p not in v.files:
        if m_isdir(p):
            return 4096
        raise FileNotFoundError(2, 'No such file or directory', p)
    x = v.files[p]
    if type(x) is list:
        return 100 * len(x)
    if is_sym(x):
        x = x.concrete()
    return len(x.encode('utf8'))


def m_rmdir(path, **kw):
    v = _vfs()
    p = v.norm(path)
    if not m_isdir(p):
        raise FileNotFoundError(2, 'No such file or directory', p)
    if _children(p):
        raise OSError(39, 'Directory not empty', p)
    v.log.append(('rmtree', p))
    v.dirs.discard(p)


def m_move(src, dst, *a, **kw):
    v = _vfs()
    s, d = v.norm(src), v.norm(dst)
    if not m_exists(s):
        raise FileNotFoundError(2, 'No such file or directory', s)
    if not m_isdir(os.path.dirname(d)):
        raise FileNotFoundError(2, 'No such file or directory', d)
    v.log.append(('move', s, d))
    if s in v.files:
        v.files[d] = v.files.pop(s)
        return
    for f in list(v.files):
        if f.startswith(s + '/'):
            v.files[d + f[len(s):]] = v.files.pop(f)
    for f in list(v.dirs):
        if f == s or f.startswith(s + '/'):
            v.dirs.discard(f)
            v.dirs.add(d + f[len(s):])


def m_shutil_move(src, dst, *a, **kw):
    v = _vfs()
    d = v.norm(dst)
    if m_isdir(d):
        d = d + '/' + os.path.basename(v.norm(src))
    m_move(src, d)
    return d


def m_copy(src, dst, **kw):
    v = _vfs()
    s, d = v.norm(src), v.norm(dst)
    if s not in v.files:
        raise FileNotFoundError(2, 'No such file or directory', s)
    if m_isdir(d):
        d = d + '/' + os.path.basename(s)
    x = v.files[s]
    v.log.append(('open', d, 'w'))
    v.files[d] = list(x) if type(x) is list else x
    return d


class VPath(os.PathLike):
    """pathlib.Path over the virtual files"""

    def __init__(self, *parts):
        self._p = os.path.join(*[os.fspath(x.concrete() if is_sym(x) else x) for x in parts]) if parts else '.'
        self._p = os.path.normpath(self._p)

    def __fspath__(self):
        return self._p

    __str__ = __fspath__

    def __repr__(self):
        return 'PosixPath(%r)' % self._p

    def __eq__(self, o):
        return isinstance(o, VPath) and o._p == self._p

    def __lt__(self, o):
        return self._p < o._p

    def __hash__(self):
        return hash(self._p)

    def __truediv__(self, o):
        return VPath(self, o)

    def __rtruediv__(self, o):
        return VPath(o, self)

    def joinpath(self, *o):
        return VPath(self, *o)

    name = property(lambda self: os.path.basename(self._p))
    parent = property(lambda self: VPath(os.path.dirname(self._p) or '.'))
    suffix = property(lambda self: os.path.splitext(self._p)[1])
    stem = property(lambda self: os.path.splitext(self.name)[0])
    parts = property(lambda self: tuple((['/'] if self._p.startswith('/') else []) + [x for x in self._p.split('/') if x]))

    def as_posix(self):
        return self._p

    def with_name(self, name):
        return VPath(os.path.dirname(self._p), name)

    def with_suffix(self, suffix):
        return VPath(os.path.splitext(self._p)[0] + suffix)

    def relative_to(self, o):
        o = os.fspath(VPath(o))
        if self._p != o and not self._p.startswith(o.rstrip('/') + '/'):
            raise ValueError('%r is not in the subpath of %r' % (self._p, o))
        return VPath(os.path.relpath(self._p, o))

    def exists(self):
        return m_exists(self._p)

    def is_dir(self):
        return m_isdir(self._p)

    def is_file(self):
        return m_isfile(self._p)

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if not parents and not m_isdir(os.path.dirname(self._p)):
            raise FileNotFoundError(2, 'No such file or directory', self._p)
        m_makedirs(self._p, exist_ok=exist_ok)

    def rmdir(self):
        m_rmdir(self._p)

    def unlink(self, missing_ok=False):
        if not missing_ok or m_isfile(self._p):
            m_remove(self._p)

    def iterdir(self):
        return iter([VPath(self, k) for k in m_listdir(self._p)])

    def open(self, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
        return m_open(self._p, mode, encoding=encoding, newline=newline)

    def read_text(self, encoding=None, errors=None):
        with m_open(self._p, 'r') as f:
            return f.read()

    def write_text(self, data, encoding=None, errors=None, newline=None):
        with m_open(self._p, 'w') as f:
            return f.write(data)

    def rename(self, dst):
        m_move(self._p, dst)
        return VPath(dst)

    replace = rename

    def stat(self):
        class Stat(object):
            st_size = m_getsize(self._p)
        return Stat()


def m_random_fn(name):
    def f(*a, **k):
        return getattr(STATE['global_random'](), name)(*a, **k)
    return f


class _RandomFactory(object):
    pass


def m_Random(*a, **k):
    return STATE['random'](*a, **k)


def m_json_loads(s, **kw):
    """symbolic integers and symbolic characters of strings survive; the structure must be concrete"""
    if type(s) is not SymStr:
        return _json_back(json.loads(s, **kw), {}, {})
    out, ints, chars = [], {}, {}
    quoted = False
    prev = ''
    run = []

    def flush():
        if not run:
            return
        if all(type(x) is str for x in run):
            out.extend(run)
        else:
            k = 7770000001 + len(ints)
            ints[k] = m_int(mk_str(run))
            out.append(str(k))
        del run[:]
    for a in s.a:
        if type(a) is str:
            if a == '"' and prev != '\\':
                quoted = not quoted
            prev = a
            if not quoted and a in '-0123456789':
                run.append(a)
                continue
            flush()
            out.append(a)
        elif quoted:
            if type(a) is IntSeg:
                out.append(str(int(a.i)))
                continue
            if any(c in a.dom for c in (34, 92)) or len(chars) >= 6000:
                return _json_back(json.loads(s.concrete(), **kw), {}, {})
            ch = chr(0xe000 + len(chars))
            chars[ch] = a
            out.append(ch)
        else:
            run.append(a)
    flush()
    return _json_back(json.loads(''.join(out), **kw), ints, chars)


def _json_back(v, ints, chars):
    t = type(v)
    if t is int:
        return ints.get(v, v)
    if t is str:
        return mk_str([chars.get(c, c) for c in v]) if chars else v
    if t is list:
        return [_json_back(x, ints, chars) for x in v]
    if t is dict:
        return mk_dict([(_json_back(k, ints, chars), _json_back(x, ints, chars)) for k, x in v.items()])
    return v


def m_json_load(fp, **kw):
    return m_json_loads(fp.read(), **kw)


def m_mean(data):
    data = list(data)
    return sum(data) / len(data)


def m_super_deepcopy(x, memo=None):
    return copy.deepcopy(x) if memo is None else copy.deepcopy(x, memo)


MODELS = {
    int: m_int, float: m_float, bool: m_bool, str: m_str, type: m_type, ord: m_ord, chr: m_chr,
    map: MMap, filter: MFilter, sorted: m_sorted, min: m_min, max: m_max, print: m_print,
    hash: m_hash, repr: m_repr, format: m_format, dict: m_dict, set: SSet, frozenset: SFrozenSet,
    collections.Counter: SCounter, collections.OrderedDict: SOrderedDict, collections.defaultdict: SDefaultDict,
    functools.reduce: m_reduce, io.StringIO: m_stringio, open: m_open, math.fsum: m_fsum, getattr: m_getattr,
    os.makedirs: m_makedirs, os.path.exists: m_exists, os.path.isdir: m_isdir, os.path.isfile: m_isfile,
    pickle.dump: m_pickle_dump, pickle.load: m_pickle_load,
    os.listdir: m_listdir, os.walk: m_walk, shutil.rmtree: m_rmtree, os.remove: m_remove, os.unlink: m_remove,
    os.mkdir: m_makedirs, os.rmdir: m_rmdir, os.path.getsize: m_getsize, os.path.lexists: m_exists, os.rename: m_move, os.replace: m_move,
    shutil.move: m_shutil_move, shutil.copy: m_copy, shutil.copy2: m_copy, shutil.copyfile: m_copy,
    pathlib.Path: VPath, pathlib.PurePath: VPath, pathlib.PosixPath: VPath,
    random.Random: m_Random,
    operator.contains: lambda b, a: contains(a, b),
    operator.mod: mod,
    dict.fromkeys: SDict.fromkeys,
    setattr: _named(setattr), hasattr: _named(hasattr), delattr: _named(delattr),
    json.load: m_json_load, json.loads: m_json_loads, statistics.mean: m_mean, statistics.fmean: m_mean,
    collections.OrderedDict.fromkeys: SOrderedDict.fromkeys,
}
for _n in ('random', 'randrange', 'randint', 'shuffle', 'sample', 'choice', 'choices', 'uniform', 'getrandbits', 'seed'):
    MODELS[getattr(random, _n)] = m_random_fn(_n)

# C functions that work on any object through its own protocol
GENERIC = {
    len, isinstance, issubclass, iter, next, zip, enumerate, any, all, sum, abs, reversed, list, tuple, range, hasattr,
    setattr, delattr, callable, id, slice, divmod, pow, round, object, super, property, classmethod, staticmethod,
    itertools.chain, itertools.chain.from_iterable, itertools.islice, itertools.product, itertools.count,
    itertools.cycle, itertools.repeat, itertools.zip_longest, itertools.tee, itertools.combinations,
    itertools.permutations, itertools.starmap, itertools.accumulate, itertools.groupby, itertools.takewhile,
    itertools.dropwhile, itertools.compress, itertools.filterfalse,
    functools.partial, operator.attrgetter, operator.itemgetter, operator.methodcaller,
    operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge, operator.add, operator.sub,
    operator.mul, operator.not_, operator.truth, operator.is_, operator.is_not, operator.getitem, operator.setitem,
    operator.and_, operator.or_, operator.neg, operator.floordiv, operator.truediv, operator.iadd,
    collections.deque, heapq.heappush, heapq.heappop, heapq.heapify, heapq.heapreplace, heapq.heappushpop,
    copy.copy, copy.deepcopy, functools.cmp_to_key, functools.total_ordering, functools.wraps,
    collections.namedtuple, memoryview, sys.exit, sys.getrecursionlimit, sys.setrecursionlimit,
}
if hasattr(itertools, 'pairwise'):
    GENERIC.add(itertools.pairwise)
if hasattr(itertools, 'batched'):
    GENERIC.add(itertools.batched)
import bisect as _bisect
for _f in (_bisect.bisect, _bisect.bisect_left, _bisect.bisect_right, _bisect.insort, _bisect.insort_left,
           _bisect.insort_right):
    GENERIC.add(_f)

GENERIC_MODULES = ('babylondigger', 'props', 'vp', 'typing', 'collections', 'functools', 'itertools', 'operator', 'copy',
                   'contextlib', 'heapq', 'abc', 'dataclasses', 'enum', 'types', 'bisect', 'vpstubs')
GENERIC_SELF = (list, tuple, dict, set, frozenset, collections.deque, collections.OrderedDict, collections.defaultdict,
                collections.Counter)


# C functions that call back: what they call back has to understand our values
HIGHER_ORDER = {itertools.groupby, itertools.takewhile, itertools.dropwhile, itertools.filterfalse, itertools.starmap,
                itertools.accumulate, functools.partial, functools.cmp_to_key, iter, heapq.nlargest, heapq.nsmallest,
                heapq.merge, collections.defaultdict}


def _callback(f):
    t = type(f)
    if t is MDESC or t is SLOT or t is BUILTIN or (isinstance(f, type) and f in MODELS):
        return lambda *a, **k: call(f, *a, **k)
    return f


def _generic_callable(f):
    """can f be handed symbolic values as they are?"""
    t = type(f)
    if t is PYFUN:
        mod = f.__module__ or ''
        return mod.split('.')[0] in GENERIC_MODULES
    if t is METHOD:
        return _generic_callable(f.__func__) if not is_sym(f.__self__) else True
    if isinstance(f, type):
        if f in GENERIC or issubclass(f, BaseException):
            return True
        mod = (f.__module__ or '').split('.')[0]
        return mod in GENERIC_MODULES
    return None


def _concretize_args(a, k):
    return [deep_concrete(x) for x in a], {n: deep_concrete(v) for n, v in k.items()}


def call(f, *a, **k):
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    t = type(f)
    if (t is BUILTIN or t is type) and f in HIGHER_ORDER:
        a = [_callback(x) for x in a]
        k = {n: _callback(x) for n, x in k.items()}
    elif t is PYFUN and f in HIGHER_ORDER:
        a = [_callback(x) for x in a]
        k = {n: _callback(x) for n, x in k.items()}
    if t is PYFUN:
        if '_sx_call' in f.__globals__ or _generic_callable(f):
            return f(*a, **k)
    elif t is METHOD:
        s = f.__self__
        ts = type(s)
        if issubclass(ts, Sym):
            n = f.__name__
            if ts is SymStr:
                if n == '__repr__':
                    return sx_repr(s)
                if n == '__str__':
                    return s
            elif ts is SymInt and n in ('__repr__', '__str__'):
                return str_of_int(s)
            if n == '__hash__':
                return sx_hash(s)
            return f(*a, **k)
        if f.__name__ in ('__hash__',) and hasattr(ts, '_sx_concrete'):
            return sx_hash(s)
        fn = f.__func__
        if type(fn) is not PYFUN or '_sx_call' in fn.__globals__ or _generic_callable(fn):
            return f(*a, **k)
    elif t is BUILTIN:
        s = f.__self__
        ts = type(s)
        if ts is str:
            n = f.__name__
            if n == 'format':
                return sx_str_format(s, a, k)
            if n == 'join':
                if a and type(a[0]) is SymStr:
                    return lift(s).join(a[0])
                items = list(a[0])
                for x in items:
                    if type(x) is SymStr:
                        return lift(s).join(items)
                return s.join(items)
            for x in a:
                if has_sym(x, 1):
                    g = getattr(SymStr, n, None)
                    if g is not None:
                        return g(lift(s), *a, **k)
                    break
            else:
                return f(*a, **k)
        elif ts in GENERIC_SELF or s is None or (isinstance(s, GENERIC_SELF)):
            if f.__name__ in ('sort',) and k.get('key') is not None:
                k = _wrapkey(k)
            return f(*a, **k)
        else:
            if f in GENERIC or ts is type:
                return f(*a, **k)
            if s is sys.stdout or s is sys.stderr:
                return None
            if ts is not types.ModuleType and not has_sym(list(a), 2) and not has_sym(list(k.values()), 2):
                return f(*a, **k)
    elif t is MDESC or t is SLOT:
        # str.lower(x), list.append(l, x)
        if a and is_sym(a[0]):
            g = getattr(a[0], f.__name__, None)
            if g is not None:
                return call(g, *a[1:], **k)
        elif f.__objclass__ is str:
            return call(getattr(a[0], f.__name__), *a[1:], **k)
        elif f.__objclass__ in GENERIC_SELF:
            if a and hasattr(type(a[0]), '_sx_concrete'):
                return getattr(a[0], f.__name__)(*a[1:], **k)
            return f(*a, **k)
    elif t is WRAP:
        s = f.__self__
        n = f.__name__
        if n in ('__repr__', '__str__'):
            return sx_repr(s) if n == '__repr__' else sx_str(s)
        if n == '__hash__':
            return sx_hash(s)
        if n == '__contains__':
            return contains(a[0], s)
        if type(s) is str and a and type(a[0]) is SymStr:
            g = getattr(lift(s), n, None)
            if g is not None:
                return g(*a)
        return f(*a, **k)
    elif isinstance(f, type):
        if _generic_callable(f):
            return f(*a, **k)
    else:
        # instances with __call__, partials, ...
        try:
            g = f in GENERIC
        except TypeError:
            g = False
        mod = (getattr(t, '__module__', '') or '').split('.')[0]
        if g or mod in GENERIC_MODULES:
            return f(*a, **k)
    # C code or library code that would not understand our values: force them first
    if has_sym(list(a), 3) or has_sym(list(k.values()), 3):
        a, k = _concretize_args(a, k)
    return f(*a, **k)


def entered(name):
    s = STATE['entered']
    if s is not None:
        s.add(name)
