"""Not a property: Python idioms executed symbolically, every sampled path compared with plain Python.
python3-vt -m vp.check idioms"""
import bisect
import collections
import contextlib
import copy
import dataclasses
import enum
import functools
import heapq
import itertools
import math
import operator
import re
import string
import typing
from collections import defaultdict, OrderedDict, Counter, deque, namedtuple, ChainMap
from types import SimpleNamespace

P = namedtuple('P', 'a b')


@dataclasses.dataclass(order=True)
class D(object):
    a: int
    b: int = 3
    c: list = dataclasses.field(default_factory=list)


@dataclasses.dataclass(frozen=True)
class F(object):
    a: int
    s: str


class NT(typing.NamedTuple):
    a: int
    b: str = 'x'


class E(enum.Enum):
    A = 1
    B = 2
    C = 3


class IE(enum.IntEnum):
    A = 1
    B = 2


class Slots(object):
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a = a
        self.b = b


class CP(object):
    def __init__(self, v):
        self.v = v

    @functools.cached_property
    def twice(self):
        return self.v * 2

    @property
    def p(self):
        return self.v + 1

    @staticmethod
    def s(x):
        return x + 1

    @classmethod
    def make(cls, x):
        return cls(x)

    def __getitem__(self, i):
        return self.v + i

    def __len__(self):
        return 3

    def __iter__(self):
        return iter([self.v, 1])

    def __contains__(self, x):
        return x == self.v

    def __bool__(self):
        return self.v > 0


def _ints(h, n=3):
    return [h.int('i%d' % k, -1, 2) for k in range(n)]


def _s(h, name='s', n=3, ab='ab '):
    memo = h.__dict__.setdefault('memo', {})
    if name not in memo:
        memo[name] = h.str(name, n, ab)
    return memo[name]


@contextlib.contextmanager
def ctx(log, x):
    log.append(('in', x))
    try:
        yield x + 1
    finally:
        log.append('out')


def partial_gen(xs):
    for x in xs:
        if x < 0:
            return 'neg'
        yield x


def yf(xs):
    r = yield from partial_gen(xs)
    yield r


I = {}


def idiom(f):
    I[f.__name__] = f
    return f


@idiom
def walrus(h):
    xs = _ints(h)
    return [y for x in xs if (y := x + 1) > 0], [(last := x) for x in xs], last


@idiom
def match_int(h):
    out = []
    for x in _ints(h, 2):
        match x:
            case 0:
                out.append('zero')
            case 1 | 2:
                out.append('some')
            case n if n < 0:
                out.append('neg')
            case _:
                out.append('?')
    return out


@idiom
def match_seq(h):
    xs = _ints(h)
    match xs:
        case [0, *rest]:
            return 'z', rest
        case [a, 1, b]:
            return a, b
        case [a, b, c] if a == c:
            return 'pal'
        case _:
            return None


@idiom
def match_str(h):
    s = _s(h, n=2, ab='ab')
    match s:
        case 'ab':
            return 1
        case 'ba':
            return 2
        case str(x):
            return x


@idiom
def match_dict(h):
    d = {'k': h.int('x', 0, 2), 'm': 1}
    match d:
        case {'k': 0}:
            return 'zero'
        case {'k': v, **rest}:
            return v, rest


@idiom
def match_class(h):
    match P(h.int('x', 0, 2), 1):
        case P(a=0):
            return 'z'
        case P(a, b):
            return a + b


@idiom
def sort_key(h):
    xs = _ints(h)
    return sorted(xs), sorted(xs, reverse=True), sorted(xs, key=lambda x: -x), sorted(range(3), key=xs.__getitem__)


@idiom
def sort_inplace(h):
    xs = _ints(h)
    ys = list(enumerate(xs))
    ys.sort(key=operator.itemgetter(1))
    ys2 = list(ys)
    ys2.sort(key=lambda p: (-p[1], p[0]))
    ys2.reverse()
    return ys, ys2


@idiom
def sort_tuple(h):
    xs = _ints(h)
    return sorted(zip(xs, 'abc')), max(zip(xs, 'abc')), min(xs, key=abs), max(xs, key=lambda x: x * x)


@idiom
def minmax_default(h):
    xs = [x for x in _ints(h, 2) if x > 0]
    return min(xs, default=None), max(xs, default=7), sum(xs), sum(xs, 10), sum((x > 0 for x in xs))


@idiom
def groupby(h):
    return [(k, list(g)) for k, g in itertools.groupby(_ints(h), key=lambda x: x > 0)], \
           [(k, len(list(g))) for k, g in itertools.groupby(_s(h))]


@idiom
def accumulate(h):
    xs = _ints(h)
    return list(itertools.accumulate(xs)), list(itertools.accumulate(xs, max)), list(itertools.pairwise(xs)), functools.reduce(operator.add, xs, 1)


@idiom
def zip_longest(h):
    return list(itertools.zip_longest(_ints(h, 2), _s(h), fillvalue=0)), list(zip(*[_ints(h, 2), _ints(h, 2)])), list(itertools.product(_ints(h, 2), 'a'))


@idiom
def itertools_more(h):
    xs = _ints(h)
    return (list(itertools.takewhile(lambda x: x > 0, xs)), list(itertools.dropwhile(lambda x: x > 0, xs)),
            list(itertools.filterfalse(None, xs)), list(itertools.compress('abc', xs)), list(itertools.starmap(max, zip(xs, xs[1:]))),
            list(itertools.islice(xs, h.int('n', 0, 3))), list(itertools.chain.from_iterable([xs, xs[:1]])))


@idiom
def comp(h):
    xs = _ints(h)
    return {x for x in xs}, {x: i for i, x in enumerate(xs)}, [x for x in xs if x], {i: x for i, x in enumerate(xs) if x > 0}


@idiom
def setops(h):
    xs = _ints(h)
    a, b = set(xs[:2]), {xs[2], 1}
    return a | b, a & b, a - b, a ^ b, a <= b, a < b, a.isdisjoint(b), a.issubset(b), len(a), sorted(a), frozenset(xs), a.union([5], [6])


@idiom
def setmut(h):
    xs = _ints(h)
    a = set()
    for x in xs:
        if x in a:
            a.remove(x)
        a.add(x)
    a.discard(1)
    b = set(a)
    b.update(xs)
    b -= {0}
    b |= {9}
    a.intersection_update(b)
    return a, b


@idiom
def dictops(h):
    xs = _ints(h)
    d = dict(zip(xs, 'abc'))
    e = d | {0: 'z'}
    d.setdefault(1, 'q')
    p = d.pop(2, None)
    return d, e, p, list(d), list(d.items()), d.get(5), d.keys() & {1}, 1 in d, len(e), list(reversed(d)), {**d, 7: 1}


@idiom
def dict_order(h):
    xs = _ints(h)
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    first = next(iter(d))
    del d[xs[0]]
    return first, list(d.items()), d == {xs[1]: 1}, max(d.values(), default=0)


@idiom
def ddict(h):
    xs = _ints(h)
    d = defaultdict(list)
    for i, x in enumerate(xs):
        d[x].append(i)
    c = Counter(xs)
    c.update([1])
    c.subtract([2])
    o = OrderedDict((x, i) for i, x in enumerate(xs))
    o.move_to_end(xs[0])
    return dict(d), c[1], c[2], sorted(c.items()), list(o), c.most_common(1), o.popitem(last=False), sum(c.values())


@idiom
def counter_ops(h):
    a, b = Counter(_ints(h, 2)), Counter([1, 1])
    return a + b, a - b, a & b, a | b, list(a.elements())


@idiom
def deq(h):
    d = deque(maxlen=2)
    for x in _ints(h):
        d.append(x) if x > 0 else d.appendleft(x)
    d.rotate(1)
    return list(d), d[0], len(d)


@idiom
def heap(h):
    q = []
    for x in _ints(h):
        heapq.heappush(q, (x, 'a'))
    return [heapq.heappop(q) for _ in range(3)], heapq.nlargest(2, _ints(h)), heapq.nsmallest(2, _ints(h)), list(heapq.merge(sorted(_ints(h, 2)), [0]))


@idiom
def bis(h):
    xs = sorted(_ints(h, 2))
    return bisect.bisect_left(xs, 1), bisect.bisect_right(xs, 1), bisect.bisect(xs, h.int('q', 0, 2))


@idiom
def strings1(h):
    s = _s(h)
    return s.split(), s.split(' '), s.strip(), s.rstrip(), s.lstrip('a'), s.partition(' '), s.rpartition('a'), s.upper(), s.title(), s.capitalize(), s.swapcase()


@idiom
def strings2(h):
    s = _s(h)
    return s.find('a'), s.rfind('a'), s.count('a'), s.replace('a', 'xx'), s.startswith(('a', ' ')), s.endswith('b'), s.isspace(), s.isalpha(), s[::-1], s[-1], s[1:], 'a' in s, s * 2, s + 'x'


@idiom
def strings3(h):
    s = _s(h, ab='a1_')
    return s.isdigit(), s.isalnum(), s.isidentifier(), s.zfill(5), s.center(5, '*'), s.ljust(4) + '|', s.rjust(4), s.removeprefix('a'), s.removesuffix('1'), s.casefold(), s.isupper(), s.islower(), s.istitle(), s.expandtabs(), s.encode('utf8'), s.isnumeric(), s.isdecimal()


@idiom
def strings4(h):
    s = _s(h, ab='a\n|')
    return s.splitlines(), s.splitlines(True), '-'.join(s), s.split('|', 1), s.rsplit('|', 1), s.translate(str.maketrans('a', 'b')), s.translate({10: None}), ''.join(reversed(s)), ''.join(sorted(s)), sorted(set(s)), list(s), s.index('a') if 'a' in s else None


@idiom
def strings5(h):
    s = _s(h, ab='ab')
    return s < 'ab', s == 'aab', max(s), min(s), hash(s) == hash('aab'), [ord(c) for c in s], chr(ord(s[0]) + 1), list(map(str.upper, s)), str.join('', list(s)), any(c == 'a' for c in s), all(map('a'.__eq__, s))


@idiom
def fmt(h):
    x, s = h.int('x', -2, 12), _s(h, n=1, ab='ab')
    return f'{x}', f'{x:03d}', f'{x:>4}', f'{s!r:>5}', f'{x=}', '%d-%s' % (x, s), '%(a)s' % {'a': s}, '{}:{}'.format(x, s), '{a}{b!r}'.format(a=x, b=s), '{0}{0}'.format(s), f"{'+' if x > 0 else '-'}{s * 2}", '{:02}'.format(x), str(x) + s, repr([x, s]), str((x,)), '{0[0]}'.format([x]), format(x, '+')


@idiom
def fmt_float(h):
    x = h.int('x', 0, 4)
    return '{:.2f}'.format(x / 4), '%.1f' % (x * 1.5), round(x / 4, 1), f'{x / 4:.1%}', '{:7.2f}|'.format(x)


@idiom
def ints(h):
    x, y = h.int('x', -3, 5), h.int('y', 1, 3)
    return x // y, x % y, divmod(x, y), -x, abs(x), x ** 2, x << 1, x >> 1, x & 1, x | 4, x ^ 3, ~x, bool(x), x / y, min(x, y), max(x, 0), int(x > 1), x * y, round(x), math.gcd(x, y), x.bit_length(), str(x), int(str(x)), float(x), pow(x, 2), +x, not x, x or 9, x and 7


@idiom
def chain_cmp(h):
    a, b, c = _ints(h)
    return a < b < c, a <= b >= c, a == b != c, (a, b) < (b, c), [a, b] == [b, c], a if b else c, a is None, a in (b, c), (a in [1, 2]) is True


@idiom
def int_parse(h):
    s = _s(h, ab='1-a')
    try:
        return int(s)
    except ValueError as e:
        return 'bad', type(e).__name__


@idiom
def float_parse(h):
    s = _s(h, ab='1.e', n=2)
    try:
        return float(s)
    except ValueError:
        return 'bad'


@idiom
def slices(h):
    xs = list(range(5))
    i, j = h.int('i', -2, 6), h.int('j', -2, 6)
    ys = list(xs)
    ys[i:j] = ['n']
    zs = list(xs)
    del zs[i:j]
    return xs[i:j], xs[:i], xs[::2], xs[j::-1], ys, zs, 'abcde'[i:j], tuple(xs)[i:], xs[slice(i, None)], slice(i, j).indices(5)


@idiom
def listops(h):
    xs = _ints(h)
    ys = list(xs)
    ys.insert(h.int('at', 0, 3), 'n')
    zs = xs + [1]
    i = zs.index(1)
    zs.remove(1)
    zs.pop(h.int('at', 0, 3) % 3)
    return ys, zs, i, xs.count(1), xs * 2, [0] * h.int('at', 0, 3), xs[h.int('at', 0, 3) - 1], list(reversed(xs)), xs.copy(), tuple(xs).index(xs[1])


@idiom
def idx_error(h):
    xs = [1, 2]
    out = []
    for f in (lambda: xs[h.int('i', -3, 3)], lambda: {1: 2}[h.int('i', -3, 3)], lambda: 'ab'[h.int('i', -3, 3)], lambda: 1 // h.int('i', -3, 3),
              lambda: xs.index(h.int('i', -3, 3)), lambda: next(iter([x for x in xs if x == h.int('i', -3, 3)]))):
        try:
            out.append(f())
        except (IndexError, KeyError) as e:
            out.append(str(e))
        except ZeroDivisionError:
            out.append('zd')
        except ValueError:
            out.append('ve')
        except StopIteration:
            out.append('si')
        else:
            out.append('fine')
        finally:
            out.append('.')
    return out


@idiom
def unpack(h):
    a, *b, c = _ints(h)
    (d, e), f = _ints(h, 2), 1
    x, y = _s(h, n=2)
    return a, b, c, [*b, a], (*b,), d, e, f, x, y, {**{a: 1}, **{c: 2}}


@idiom
def gens(h):
    xs = _ints(h)
    return list(yf(xs)), next((x for x in xs if x > 0), None), list(iter(xs.copy().pop, 1)) if 1 in xs else None, sum(1 for _ in filter(None, xs)), list(map(lambda a, b: a - b, xs, xs[1:]))


@idiom
def iters(h):
    it = iter(_ints(h))
    pairs = list(zip(it, it))
    a, b = itertools.tee(_ints(h))
    return pairs, next(it, None), list(a), next(b), [x for _, x in zip(range(h.int('n', 0, 2)), itertools.count())]


@idiom
def ctxm(h):
    log = []
    with ctx(log, h.int('x', 0, 2)) as y:
        log.append(y)
    with contextlib.suppress(ValueError):
        if y > 1:
            raise ValueError
        log.append('kept')
    with contextlib.ExitStack() as st:
        st.callback(log.append, 'cb')
    return log


@idiom
def tuples(h):
    a, b, c = _ints(h)
    p = P(a, b)
    q = p._replace(b=c)
    return p == q, p < q, p._asdict(), list(p), hash(p) == hash((a, b)), {p: 1, q: 2}, NT(a), NT(a).b, p + (c,), P._make([a, b])


@idiom
def dcs(h):
    a, b, c = _ints(h)
    x, y = D(a), D(b, c)
    x.c.append(a)
    return x < y, x == D(a, 3, [a]), repr(y), dataclasses.astuple(y), dataclasses.asdict(x), dataclasses.replace(x, b=c).b, {F(a, 's'), F(b, 's')} == {F(c, 's')}, len({F(a, 's'), F(b, 's')})


@idiom
def enums(h):
    x = h.int('x', 1, 3)
    return E(x).name, E(x) is E.B, E.A.value == x, [e.name for e in E if e.value >= x], IE.A == x, x in [e.value for e in IE], E['A'].value


@idiom
def classes(h):
    x = h.int('x', -1, 2)
    o = CP(x)
    s = Slots(x, 1)
    n = SimpleNamespace(v=x)
    return o.twice, o.p, CP.s(x), CP.make(x).v, o[1], len(o), list(o), 1 in o, bool(o), 'y' if o else 'n', getattr(s, 'a'), n.v, hasattr(o, 'zz'), getattr(o, 'zz', x), operator.attrgetter('v')(o), isinstance(x, int), type(x) is int, isinstance(x, (str, int)), callable(o.make)


@idiom
def fnct(h):
    x = h.int('x', 0, 3)
    f = functools.partial(lambda a, b, *r, k=0, **z: (a, b, r, k, z), x, k=x)

    @functools.lru_cache(maxsize=None)
    def fib(n):
        return n if n < 2 else fib(n - 1) + fib(n - 2)

    def counter(start):
        c = start

        def inc():
            nonlocal c
            c += 1
            return c
        return inc
    g = counter(x)
    return f(1, 2, q=3), fib(x), fib(x), g(), g(), (lambda *a, **k: (a, k))(*[x], **{'y': x}), functools.reduce(lambda a, b: a * 10 + b, _ints(h))


@idiom
def cache(h):
    memo = {}

    def f(n):
        if n not in memo:
            memo[n] = n * n
        return memo[n]
    return [f(x) for x in _ints(h)], len(memo)


@idiom
def regex(h):
    s = _s(h, ab='a1 ')
    m = re.match(r'(a+)(\d*)', s)
    return (m.groups() if m else None), re.sub(r'\d', '#', s), re.findall('a', s), re.split(' ', s), bool(re.search('1a', s)), re.compile('a.*').fullmatch(s) is not None


@idiom
def loops(h):
    out = []
    n = h.int('n', 0, 3)
    for i in range(n):
        if i == 2:
            break
        if i == 0:
            continue
        out.append(i)
    else:
        out.append('done')
    while n:
        n -= 1
        out.append(n)
    else:
        out.append('end')
    return out, list(range(h.int('n', 0, 3), -1, -1)), list(range(0, 7, h.int('n', 0, 3) + 1)), h.int('n', 0, 3) in range(1, 3), len(range(h.int('n', 0, 3), 5))


@idiom
def exc(h):
    x = h.int('x', 0, 3)
    try:
        try:
            if x == 1:
                raise KeyError('k')
            if x == 2:
                raise ValueError('v %d' % x)
            r = 10 // x
        except KeyError as e:
            raise RuntimeError('wrapped') from e
    except RuntimeError as e:
        return str(e), type(e.__cause__).__name__
    except (ValueError, ZeroDivisionError) as e:
        return str(e)
    assert x == 3, 'no'
    return r


@idiom
def copies(h):
    x = h.int('x', 0, 2)
    d = {'a': [x], x: {'b': x}}
    e = copy.deepcopy(d)
    e['a'].append(1)
    f = copy.copy(d)
    f['z'] = 0
    return d, e, len(f), copy.copy(D(x)) == D(x), copy.deepcopy((x, [x]))


@idiom
def chainmap(h):
    x = h.int('x', 0, 2)
    m = ChainMap({x: 'first'}, {0: 'a', 1: 'b'})
    return m[0], m.get(2), sorted(m), len(m)


@idiom
def fsum_any(h):
    xs = _ints(h)
    return any(xs), all(xs), any(x > 1 for x in xs), all(x >= 0 for x in xs), math.fsum(xs), math.floor(xs[0] / 2), math.ceil(xs[0] / 2), sum(xs) / len(xs), math.sqrt(abs(xs[0])), math.isclose(xs[0], xs[1]), sum([[x] for x in xs], [])


@idiom
def string_mod(h):
    s = _s(h, n=2, ab='a$')
    return string.Template('$x').substitute(x=s), s in string.ascii_lowercase, [c in string.punctuation for c in s], s.encode().decode('utf8')


@idiom
def join_lines(h):
    rows = [[str(x), _s(h, n=1, ab='a_')] for x in _ints(h, 2)]
    text = '\n'.join('\t'.join(r) for r in rows) + '\n'
    back = [line.split('\t') for line in text.rstrip('\n').split('\n')]
    return text, back == rows, [dict(p.split('=', 1) for p in ('k=' + r[1]).split('|')) for r in rows], len(text)


@idiom
def nested(h):
    xs = _ints(h)
    return [[x * y for y in xs if y] for x in xs], {k: [v for v in xs if v == k] for k in set(xs)}, [a for a, b in zip(xs, xs[1:]) if a != b], sum(x for row in [xs, xs] for x in row)


@idiom
def bools(h):
    a, b = h.bool('a'), h.bool('b')
    return a and b, a or b, not a, a == b, a != b, a ^ b, a & b, a | b, int(a), a + b, [1, 2][a], {True: 'y', False: 'n'}[a], sum([a, b]), 'y' if a else 'n', a is True, str(a), a < b, isinstance(a, bool), sorted([a, b]), f'{a}', bool(a), a * 2, {a, b}, [x for x, k in zip('xy', (a, b)) if k], hash(a) == hash(1), type(a).__name__


@idiom
def opt(h):
    x = h.choice('x', [None, 0, 1])
    return x is None, x or 'd', x if x is not None else 'n', [y for y in (x, None) if y is not None], (x, 1) == (None, 1), {'k': x}.get('k', 3), str(x), [None, x].count(None), x in (None,)


@idiom
def globals_(h):
    x = h.int('x', 0, 2)
    table = {'a': lambda v: v + 1, 'b': lambda v: v * 2}
    acts = [table['a'], table['b'], operator.neg]
    return acts[x](5), [f(x) for f in acts], list(map(operator.itemgetter(0), [(x, 1), (2, x)])), operator.methodcaller('upper')(_s(h, n=1)), (min if x else max)(1, 2)


@idiom
def bytes_(h):
    s = _s(h, n=2, ab='aж')
    b = s.encode('utf-8')
    return len(b), b[0], b == b'aa', b.decode('utf-8'), list(b)


@idiom
def multi_assign(h):
    a, b, c = _ints(h)
    a, b = b, a
    xs = [a, b, c]
    xs[0], xs[2] = xs[2], xs[0]
    xs[1] += 1
    d = {}
    d[a] = d[b] = 1
    a = b = c
    a += 1
    return a, b, xs, d


@idiom
def bit_flags(h):
    x = h.int('x', 0, 7)
    return [bool(x & (1 << i)) for i in range(3)], bin(x), hex(x), oct(x), int(bin(x), 2), f'{x:b}'


@idiom
def typing_(h):
    x = typing.cast(int, h.int('x', 0, 2))
    y: typing.Optional[int] = x
    z: typing.List[int] = [x] * 2
    return y, z, isinstance(z, typing.Sequence), isinstance({x: 1}, collections.abc.Mapping), isinstance({x}, collections.abc.Set), isinstance(_s(h), str), isinstance({x: 1}, dict), isinstance([x], list), type({x: 1}) is dict, type('a' + _s(h)) is str, isinstance({x}, (set, frozenset))


@idiom
def while_pop(h):
    stack = _ints(h)
    seen = []
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.append(x)
        if x > 1:
            stack.extend([x - 1, x - 2])
    return seen


@idiom
def dsu(h):
    n = 3
    heads = [h.int('h%d' % i, 0, n) for i in range(n)]
    depth = {}

    def go(i, path=()):
        if i in path:
            return None
        if heads[i] == 0:
            return 0
        r = go(heads[i] - 1, path + (i,))
        return None if r is None else r + 1
    for i in range(n):
        depth[i] = go(i)
    children = {i: [j for j, x in enumerate(heads) if x == i] for i in range(n + 1)}
    return depth, children


@idiom
def str_iter_state(h):
    s = _s(h, n=4, ab='a"\\')
    out, quoted, esc = [], False, False
    for i, ch in enumerate(s, start=1):
        if esc:
            esc = False
        elif ch == '\\':
            esc = True
        elif ch == '"':
            quoted = not quoted
            continue
        out.append((i, ch, quoted))
    return out


@functools.total_ordering
class Ord(object):
    def __init__(self, a, b=0):
        self.a, self.b = a, b

    def __eq__(self, o):
        return isinstance(o, Ord) and (self.a, self.b) == (o.a, o.b)

    def __lt__(self, o):
        return (self.a, self.b) < (o.a, o.b)

    def __hash__(self):
        return hash((self.a, self.b)) * 31 ^ hash(self.a)

    def __repr__(self):
        return 'Ord(%r)' % self.a

    def __str__(self):
        return f'<{self.a}>'

    def __add__(self, o):
        return Ord(self.a + o.a)

    def __iadd__(self, o):
        self.a += o.a
        return self

    def __call__(self, x):
        return self.a + x

    def __getattr__(self, name):
        if name.startswith('get_'):
            return self.a
        raise AttributeError(name)


class Eq(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, o):
        return self.__dict__ == o.__dict__

    def __hash__(self):
        return hash(tuple(sorted(self.__dict__.items())))


class MyDict(dict):
    def __missing__(self, k):
        return k + 1


class MyList(list):
    def first(self):
        return self[0]


class Base(object):
    registry = {}

    def __init_subclass__(cls, **kw):
        Base.registry[cls.__name__] = cls

    def run(self, x):
        return self._step(x)

    def _step(self, x):
        raise NotImplementedError()


class Impl(Base):
    def _step(self, x):
        return x + 1


class Impl2(Impl):
    def _step(self, x):
        return super()._step(x) * 2


@idiom
def userclasses(h):
    a, b, c = _ints(h)
    x, y = Ord(a), Ord(b)
    z = x + y
    z += Ord(c)
    return x < y, x >= y, sorted([x, y, Ord(c)])[0].a, {x, y, Ord(c)} == {x}, repr(x), str(y), f'{x}', '%s' % x, max(x, y).a, z.a, x(1), x.get_it, hasattr(x, 'nope'), x in [y], [y].index(y), {x: 1}.get(Ord(c)), x != y, len({Eq(a=a), Eq(a=b)}), hash(Eq(a=a)) == hash(Eq(a=b)), x == 3


@idiom
def subclasses(h):
    a, b, c = _ints(h)
    d = MyDict({a: 1})
    l = MyList([b, c])
    return d[b], dict(d), l.first(), l + [1], len(l), Impl().run(a), Impl2().run(a), sorted(Base.registry), [k.__name__ for k in (Impl, Impl2) if issubclass(k, Impl)], isinstance(l, list), isinstance(d, dict), bool(d), list(l)


@idiom
def files(h):
    s = _s(h, n=3, ab='a\n ')
    p = h.path('f.txt')
    with open(p, 'w', encoding='utf-8') as f:
        f.write(s)
        f.write('\nend')
        print('x', s[0], sep='-', file=f)
    out = []
    with open(p) as f:
        out.append(f.readline())
        for line in f:
            out.append(line.rstrip('\n'))
    with open(p, encoding='utf-8') as f:
        out.append(f.read().splitlines())
    with open(p) as f:
        out.append(f.readlines())
    with open(p, 'a') as f:
        f.writelines([s, '.'])
    with open(p) as f:
        out.append([l.strip() for l in iter(f.readline, '')])
    with open(p) as f:
        out.append(list(itertools.groupby(f, key=str.isspace)).__len__())
    return out


@idiom
def stringio(h):
    import io
    s = _s(h, n=2, ab='a\n')
    b = io.StringIO()
    b.write(s)
    print(1, s, file=b)
    b.seek(0)
    return b.readline(), b.read(), b.getvalue(), list(io.StringIO(s)), b.tell() > 0


@idiom
def paths(h):
    import os
    s = _s(h, n=2, ab='ab')
    return os.path.join('x', s, 'y'), os.path.basename('d/' + s), os.path.splitext(s + '.txt'), os.path.dirname(s + '/q'), os.path.normpath('x/../' + s)


@idiom
def jsons(h):
    import json
    x, s = h.int('x', 0, 2), _s(h, n=1, ab='a"')
    return json.dumps({'a': x, 'b': [s]}), json.loads('{"a": [1]}')['a'], json.dumps([x, None, True])


@idiom
def strfmt2(h):
    x, s = h.int('x', -1, 11), _s(h, n=2, ab='ab')
    return '{:<5}|{:^5}|{:>5}'.format(s, s, s), '{:5d}|{:<4d}'.format(x, x), '%5s|%-5s|%03d|%x' % (s, s, x, abs(x)), '{a[k]} {b.real}'.format(a={'k': s}, b=x), f'{s:*^6}', f'{x:,}', f'{x!s}', f'{[x, s]}', f'{ {"k": x} }', '%r' % s, '%%%s' % x, f'{x:{5}}', '{:{w}}'.format(s, w=4), str([s, (x,), {s: x}])


@idiom
def nested_dicts(h):
    a, b, c = _ints(h)
    d = {}
    for i, k in enumerate((a, b, c)):
        d.setdefault(k, {}).setdefault('n', []).append(i)
    inv = {tuple(v['n']): k for k, v in d.items()}
    e = {k: {**v, 'm': len(v['n'])} for k, v in sorted(d.items())}
    return d, inv, e, sorted(d, key=lambda k: (-len(d[k]['n']), k)), max(d, key=lambda k: len(d[k]['n'])), {v: k for k, v in enumerate(sorted(set((a, b, c))))}


@idiom
def tuple_keys(h):
    a, b, c = _ints(h)
    d = {(a, 'x'): 1}
    d[(b, 'x')] = 2
    s = {(a, b), (b, c)}
    return d, (c, 'x') in d, len(s), sorted(s), d.get((c, 'y')), (a, b) in s, {frozenset([a, b]), frozenset([b, a])} == {frozenset([b, a])}


@idiom
def list_cmp(h):
    a, b, c = _ints(h)
    return [a, b] < [b, c], [a] == [b], [a, b] != [a, c], (a,) + (b,) == (c, c), [[a], b] == [[b], c], {a: b} == {b: a}, {a, b} == {c}, [None, a] == [None, b], (a, 'x') > (b, 'a'), [a, b].count(c), c in (a, b), [a, b][::-1] == [b, a]


@idiom
def text_scan(h):
    s = _s(h, n=4, ab='a b')
    words, start = [], None
    for i, ch in enumerate(s + ' '):
        if ch.isspace():
            if start is not None:
                words.append((start, i, s[start:i]))
            start = None
        elif start is None:
            start = i
    at, found = 0, []
    while True:
        at = s.find('a', at)
        if at < 0:
            break
        found.append(at)
        at += 1
    return words, found, [s[b:e] for b, e, _ in words] == s.split()


@idiom
def dynamic(h):
    x = h.int('x', 0, 2)
    o = SimpleNamespace()
    setattr(o, 'f%d' % x, x)
    cls = type('Dyn', (Impl.__mro__[-1],), {'_step': lambda self, y: y - x})
    return vars(o), getattr(o, f'f{x}'), cls()._step(5), [n for n in dir(o) if n.startswith('f')], (lambda: x)(), [f() for f in [lambda i=i: i + x for i in range(2)]], eval('1 + 1'), cls.__name__, sum(map(int, str(x)))


@idiom
def recursion(h):
    xs = _ints(h)

    def quick(v):
        if len(v) < 2:
            return v
        p, *r = v
        return quick([y for y in r if y < p]) + [p] + quick([y for y in r if y >= p])

    def perms(v):
        if not v:
            yield []
        for i in range(len(v)):
            for r in perms(v[:i] + v[i + 1:]):
                yield [v[i]] + r

    def flat(t):
        for y in t:
            if isinstance(y, (list, tuple)):
                yield from flat(y)
            else:
                yield y
    return quick(xs), len(list(perms(xs))), list(flat([xs, [(xs[0],)], 1])), sorted(xs) == quick(xs)


@idiom
def lev(h):
    a, b = _s(h, 's', 2, 'ab'), _s(h, 't', 2, 'ab')
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        prev, row[0] = row[0], i
        for j, y in enumerate(b, 1):
            prev, row[j] = row[j], min(row[j] + 1, row[j - 1] + 1, prev + (x != y))
    import os
    pre = os.path.commonprefix([a, b])
    return row[-1], pre, sum(1 for _ in itertools.takewhile(lambda p: p[0] == p[1], zip(a, b))), next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))


@idiom
def numeric(h):
    x = h.real('r', -4, 8, 4)
    y = h.real('q', 1, 6, 2)
    return x + y, x - 1, x * 2, -x, abs(x), x < y, x == y, max(x, y), sum([x, y, 1]), x / 2, x > 0 and y > 1, round(x * 4), int(x), x // 1, min([x, y], key=lambda v: -v), bool(x), sorted([x, y, 0]), math.floor(x), statistics_mean([x, y]), x ** 2, float(x), x != 1, '%.2f' % x, x in (0, 1)


@idiom
def rounding(h):
    x = h.real('r', -40, 40, 16)
    y = round(x, 1)
    return y, round(x, 2), round(x), y == 0.5, y > 0.3, y == x, sum([x, 0]), 0 + x - 0, round(x, 2) < y, sum([y])


def statistics_mean(v):
    return sum(v) / len(v)


def cases(tier):
    return [(n, 'run', {'n': n}, ['ran']) for n in I]


def run(h, n):
    v = I[n](h)
    h.check('ran', True)
    h.observe('value', v)
