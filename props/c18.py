"""C18 shuffling delivers every document once, reproducibly and near its place"""
import time

BOUNDS = {'documents': '0 to 5 (thorough 6) with every random choice; 12 and 20 with the shuffle fixed and every batch size',
          'maximal batch size': '1 to 7; 50 by default', 'passes': '1 to 3'}
ASSUMPTIONS = ['the random generator may return any value of the requested range and is a function of its seed']


def cases(tier):
    out = []
    top = 5 if tier == 'quick' else 6
    for n in range(top + 1):
        for m in (1, 2, 3, 4, 5, 7):
            if n >= 5 and m in (4, 5) and tier == 'quick':
                continue
            out.append(('n%d_max%d' % (n, m), 'single', {'n': n, 'm': m}, ['each document once', 'near its place']))
    out += [('passes%d_%d' % (n, m), 'passes', {'n': n, 'm': m}, ['each document once']) for n, m in ((2, 1), (2, 2), (3, 2)) + (((2, 3),) if tier == 'thorough' else ())]
    out += [('same_seed%d_%d' % (n, m), 'same_seed', {'n': n, 'm': m}, ['same order']) for n, m in ((3, 2), (3, 3), (4, 2))]
    out += [('default', 'default', {}, ['each document once']), ('no_seed', 'no_seed', {}, ['each document once']),
            ('long12', 'long', {'n': 12, 'm': 6}, ['each document once', 'near its place']),
            ('long20', 'long', {'n': 20, 'm': 10}, ['each document once', 'near its place']),
            ('file', 'file', {}, ['each document once']), ('interleaved', 'interleaved', {}, ['each document once']),
            ('abandoned', 'abandoned', {}, ['same order'])]
    return out


class Docs(object):
    """a data set that can be read again and again"""

    def __init__(self, n):
        self.items = ['d%d' % i for i in range(n)]
        self.passes = 0

    def __iter__(self):
        self.passes += 1
        return iter(list(self.items))


def _near(got, items, m):
    """the result is a sequence of shuffled consecutive batches of more than half and at most m"""
    n = len(items)
    place = {d: i for i, d in enumerate(items)}
    order = [place[d] for d in got]
    ok = [False] * (n + 1)
    ok[0] = True
    for i in range(n):
        if not ok[i]:
            continue
        for size in range(1, m + 1):
            j = min(i + size, n)
            if 2 * size > m and sorted(order[i:j]) == list(range(i, j)):
                ok[j] = True
    return ok[n]


def _verify(h, got, docs, m):
    h.observe('order', got)
    h.check('each document once', sorted(got) == sorted(docs.items), [got])
    h.check('near its place', _near(got, docs.items, m), [got])


def _set(h, docs, m, seed=2000001):
    return h.mod('evaluation.dataset').ShuffledDataset(docs, seed, m)


def single(h, n, m):
    h.use_random()
    docs = Docs(n)
    got = list(_set(h, docs, m))
    _verify(h, got, docs, m)
    h.check('read once', docs.passes == 1)
    h.check('data unchanged', docs.items == ['d%d' % i for i in range(n)])


def passes(h, n, m):
    h.use_random()
    docs = Docs(n)
    s = _set(h, docs, m)
    for k in range(3 if n < 3 else 2):
        _verify(h, list(s), docs, m)
    # documents that appear between two passes are delivered by the next one
    docs.items.append('new')
    _verify(h, list(s), docs, m)


def same_seed(h, n, m):
    """two data sets with the same seed agree pass by pass, however their passes are interleaved"""
    h.use_random()
    seed = h.choice('seed', [0, 2000001])
    now = [1000.0]

    def clock():
        now[0] += 1000.0
        return now[0]
    real = time.time
    time.time = clock
    try:
        a = _set(h, Docs(n), m, seed)
        x = [list(a)]
        b = _set(h, Docs(n), m, seed)
        if h.bool('first twice'):
            x.append(list(a))
        y = [list(b)]
        if len(x) == 2:
            y.append(list(b))
    finally:
        time.time = real
    h.check('same order', x == y, [x, y])


def default(h):
    h.use_random()
    docs = Docs(3)
    ds = h.mod('evaluation.dataset')
    kw = h.choice('given', [{}, {'seed': 2000003}, {'max_batch_size': 2}, {'seed': 0, 'max_batch_size': 2}])
    _verify(h, list(ds.ShuffledDataset(docs, **kw)), docs, kw.get('max_batch_size', 50))


def no_seed(h):
    h.use_random()
    docs = Docs(3)
    s = h.mod('evaluation.dataset').ShuffledDataset(docs, None, 2)
    _verify(h, list(s), docs, 2)
    _verify(h, list(s), docs, 2)


def long(h, n, m):
    """many batches of every size; the shuffle itself is one fixed permutation"""
    h.use_random()
    docs = Docs(n)
    ds = h.mod('evaluation.dataset')
    kinds = h.choice('shuffle', ['keep', 'reverse', 'rotate'])
    from vp.rnd import RandomCore

    def shuffle(self, x):
        if kinds == 'reverse':
            x[:] = x[::-1]
        elif kinds == 'rotate':
            x[:] = x[1:] + x[:1]
    old = RandomCore.shuffle
    RandomCore.shuffle = shuffle
    try:
        got = list(_set(h, docs, m))
    finally:
        RandomCore.shuffle = old
    _verify(h, got, docs, m)


def interleaved(h):
    """two passes over one data set at the same time"""
    h.use_random()
    docs = Docs(3)
    s = _set(h, docs, 2)
    a = iter(s)
    x = [next(a)]
    y = list(s)
    x += list(a)
    _verify(h, x, docs, 2)
    _verify(h, y, docs, 2)


def abandoned(h):
    """a pass that was left early counts as a pass"""
    h.use_random()
    n, m = h.choice('n', [2, 3]), 2
    a, b = _set(h, Docs(n), m), _set(h, Docs(n), m)
    i = iter(a)
    got = [next(i)]
    x, y = list(b), list(b)
    h.check('same order', x[:1] == got, [got, x])
    if h.bool('further'):
        got += [next(i)]
        h.check('same order', x[:2] == got, [got, x])
    second = list(a)
    h.check('same order', second == y, [second, y])


def file(h):
    """documents of a file"""
    h.use_random()
    n = h.choice('n', [1, 2, 3])
    path = h.file('data.conllu', ''.join(['1\tw%d\t_\tN\t_\t_\t0\troot\t_\t_\n\n' % i for i in range(n)]))
    ds = h.mod('evaluation.dataset')
    data = ds.CoNLLUDataSet(path)
    s = ds.ShuffledDataset(data, 2000001, 2)
    for k in range(2):
        got = [d.get_token(0).text for d in s]
        h.check('each document once', sorted(got) == ['w%d' % i for i in range(n)], [got])
        h.check('in order', [d.get_token(0).text for d in data] == ['w%d' % i for i in range(n)])
