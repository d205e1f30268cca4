"""C21 padding makes batches rectangular without touching the data; sparsification keeps the shape"""
BOUNDS = {'batch': '1 to 4 sequences, 1 to 4 levels of nesting, lengths 0 to 3 (12 and 260 in the long cases), 40 sequences in the large one', 'values': 'arbitrary integers 0 to 9',
          'rate': 'multiples of 1/16 between 0 and 1', 'draws': 'multiples of 1/16 below 1'}
ASSUMPTIONS = ['values of a feature are integers or truth values, as all extractors deliver']


def cases(tier):
    out = [('flat%d' % n, 'flat', {'n': n}, ['padded']) for n in (1, 3)]
    out += [('level2_%d' % n, 'nested', {'shape': [n, 3]}, ['padded']) for n in (1, 2, 3)]
    out += [('level3_%d_%d_%d' % tuple(s), 'nested', {'shape': s}, ['padded']) for s in ([1, 2, 2], [2, 2, 2], [3, 2, 1])]
    out += [('level4', 'nested', {'shape': [2, 2, 1, 1]}, ['padded']), ('long', 'long', {}, ['padded']), ('very_long', 'very_long', {}, ['padded']), ('many', 'many', {}, ['padded']), ('features', 'features', {}, ['padded']),
            ('mixed2', 'mixed', {'depth': 1}, ['refused']), ('mixed3', 'mixed', {'depth': 2}, ['refused']), ('mixed4', 'mixed', {'depth': 3}, ['refused']),
            ('built', 'built', {}, ['padded']),
            ('sparse_value', 'sparse', {'shape': []}, ['shape and values']), ('sparse1', 'sparse', {'shape': [3]}, ['shape and values', 'alone']),
            ('sparse2', 'sparse', {'shape': [2, 2]}, ['shape and values', 'alone']), ('sparse_default', 'sparse_default', {}, ['rate 0']),
            ('sparse_bool', 'sparse_bool', {}, ['shape and values']), ('sparse_batch', 'sparse_batch', {}, ['padded']),
            ('sparse_plain', 'sparse_plain', {}, ['only where asked for'])]
    if tier == 'thorough':
        out += [('level2_4', 'nested', {'shape': [4, 3]}, ['padded']), ('level3_deep', 'nested', {'shape': [3, 2, 2]}, ['padded']),
                ('level4_deep', 'nested', {'shape': [2, 2, 2, 1]}, ['padded']), ('sparse_long', 'sparse', {'shape': [3, 2]}, ['shape and values', 'alone'])]
    return out


class Fixed(object):
    """a builder of an extractor that delivers fresh copies of given features"""

    def __init__(self, features):
        self.features = features

    def build(self, dataset):
        return self, None, None

    def get_features(self, obj, **kwargs):
        return self.features


def _lens(x, level, out):
    """greatest length of every level below the top one"""
    for e in x:
        if isinstance(e, list):
            while len(out) <= level:
                out.append(0)
            if len(e) > out[level]:
                out[level] = len(e)
            _lens(e, level + 1, out)
    return out


def _pad(x, lens):
    """x with every sequence of level i brought to lens[i]"""
    if not lens:
        return x
    out = []
    for e in x:
        p = _pad(e, lens[1:])
        out.append(p + [_empty(lens[1:]) for _ in range(lens[0] - len(e))])
    return out


def _empty(lens):
    if not lens:
        return 0
    return [_empty(lens[1:]) for _ in range(lens[0])]


def _copy(x):
    return [_copy(e) for e in x] if isinstance(x, list) else x


def _tree(h, name, shape, top=False):
    """a nested list: shape[0] is the number of elements at most, exactly at the top"""
    if not shape:
        return h.int(name, 0, 9)
    n = shape[0] if top else h.choice('len.' + name, list(range(shape[0] + 1)))
    return [_tree(h, '%s.%d' % (name, i), shape[1:]) for i in range(n)]


def _run(h, features):
    b = h.mod('features.builder')
    want = {k: _pad(_copy(v), _lens(v, 0, [])) for k, v in features.items()}
    extractor, _, _ = b.PaddingFeatureExtractorBuilder(Fixed({k: _copy(v) for k, v in features.items()})).build([])
    got = extractor.get_features('batch')
    h.check('padded', h.same(got, want), [got, want])


def flat(h, n):
    _run(h, {'f': _tree(h, 'v', [n], True)})


def nested(h, shape):
    _run(h, {'f': _tree(h, 'v', shape, True)})


def long(h):
    n = h.choice('n', [0, 1, 7, 11, 12])
    v = [h.int('v%d' % i, 0, 9) for i in range(n)]
    _run(h, {'f': [v, [1] * h.choice('m', [0, 3, 12]), [2], [3] * 5]})


def very_long(h):
    """one long sequence, of words and of characters"""
    n = h.choice('n', [130, 260])
    v = [i % 10 for i in range(n)]
    v[h.choice('at', [0, 101, 129])] = h.int('v', 0, 9)
    _run(h, {'f': [v, [1], []], 'g': [[v, [2]], [[h.int('w', 0, 9)]]]})


def many(h):
    """a large batch of sequences of many lengths; the longest one anywhere"""
    at = h.choice('at', [0, 17, 39])
    v = [[(i + j) % 10 for j in range(1 + i % 5 if i != at else 9)] for i in range(40)]
    v[h.choice('where', [1, 20, 39])].append(h.int('v', 0, 9))
    deep = [[[k % 10] * (1 + (i + j) % 3 if (i, j) != (at, 1) else 7) for j in range(2) for k in [i]] for i in range(40)]
    deep[30][0][0] = h.int('w', 0, 9)
    _run(h, {'f': v, 'g': deep})


def features(h):
    """every feature of its own shape"""
    _run(h, {'a': _tree(h, 'a', [2, 2], True), 'b': _tree(h, 'b', [2, 1, 2], True), 'len': _tree(h, 'l', [2], True),
             'mask': [[[True, False], [False, h.bool('m')]], [[True, True]]]})


def mixed(h, depth):
    """one value is a sequence where others are numbers"""
    b = h.mod('features.builder')
    v = [h.int('x', 0, 9), [h.int('y', 0, 9)]]
    k = h.choice('order', [0, 1, 2])
    v = [v, v[::-1], [5] + v][k]
    where = h.choice('where', [0, 1, 2])
    for i in range(depth - 1):
        v = [[v], [v, [1]], [[1], [2], v]][where]
    extractor, _, _ = b.PaddingFeatureExtractorBuilder(Fixed({'f': _copy(v)})).build([])
    out = h.call(lambda: extractor.get_features('batch'))
    h.check('refused', out.error == 'ValueError', [out.exc, v])


def built(h):
    """through the helpers: batches of sentences of words"""
    b = h.mod('features.builder')

    class Chars(object):
        def build(self, dataset):
            return self, None, None

        def get_features(self, obj, **kwargs):
            return {'c': list(obj), 'n': len(obj)}
    batch = _tree(h, 'v', [2, 2, 1], True)
    extractor, _, _ = b.wrap_word_level(Chars()).build([])
    got = extractor.get_features(batch)
    want = {'c': _pad(batch, _lens(batch, 0, [])), 'n': _pad([[len(w) for w in s] for s in batch], [max([len(s) for s in batch])])}
    if not any([len(s) for s in batch]):
        h.check('padded', h.same(got, {}), [got])
        return
    if all([len(s) for s in batch]):
        h.check('padded', h.same(got, want), [got, want])


def _sparse(h, value, rate):
    b = h.mod('features.builder')
    h.use_random()
    extractor, _, _ = b.SparseFeatureExtractorBuilder(Fixed({'f': _copy(value)})).build([])
    return extractor.get_features('word', sparse_rate=rate)


def _leaves(x):
    return [l for e in x for l in _leaves(e)] if isinstance(x, list) else [x]


def _form(x):
    return [_form(e) for e in x] if isinstance(x, list) else 0


def sparse(h, shape):
    value = _tree(h, 'v', shape, True)
    k = h.int('rate', 0, 16)
    rate = k / 16
    got = _sparse(h, value, rate)
    h.check('names', list(got) == ['f'])
    h.check('shape', _form(got['f']) == _form(value), [got])
    a, z = _leaves(value), _leaves(got['f'])
    h.check('shape and values', h.all([h.any([x == y, y == 1]) for x, y in zip(a, z)]), [got])
    h.check('rate 0', h.implies(k == 0, h.all([x == y for x, y in zip(a, z)])), [got])
    h.check('rate 1', h.implies(k == 16, h.all([y == 1 for y in z])), [got])
    if len(a) > 1:
        # values are replaced one by one: the first one alone, and the last one alone
        if h.all([x != 1 for x in a]):
            if h.all([z[0] == 1, z[-1] == a[-1]]):
                h.reach('alone')


def sparse_default(h):
    b = h.mod('features.builder')
    h.use_random()
    value = _tree(h, 'v', [2], True)
    extractor, _, _ = b.SparseFeatureExtractorBuilder(Fixed({'f': value[0], 'g': [value[1]]})).build([])
    got = extractor.get_features('word')
    h.check('rate 0', h.same(got, {'f': value[0], 'g': [value[1]]}), [got])


def sparse_bool(h):
    value = [h.bool('a'), h.bool('b')]
    got = _sparse(h, value, 0)
    h.check('shape and values', h.all([h.iff(x, y) for x, y in zip(value, got['f'])] + [len(got['f']) == 2]), [got])


def sparse_batch(h):
    """a sparsified batch: padding is padding, values are themselves or unknown"""
    b = h.mod('features.builder')
    h.use_random()

    class Ids(object):
        def build(self, dataset):
            return self, None, None

        def get_features(self, obj, **kwargs):
            return {'id': obj}
    batch = [[h.int('v0', 2, 5), h.int('v1', 2, 5)], [h.int('v2', 2, 5)]]
    extractor, _, _ = b.wrap_word_level(Ids(), sparsify=True).build([])
    k = h.int('rate', 0, 16)
    got = extractor.get_features(batch, sparse_rate=k / 16)['id']
    h.check('padded', [len(s) for s in got] == [2, 2])
    h.check('padding', got[1][1] == 0, [got])
    for x, y in ((batch[0][0], got[0][0]), (batch[0][1], got[0][1]), (batch[1][0], got[1][0])):
        h.check('value or unknown', h.any([x == y, y == 1]), [got])
        h.check('rate 0', h.implies(k == 0, x == y))
        h.check('rate 1', h.implies(k == 16, y == 1))


def sparse_plain(h):
    """extractors that were not to be sparsified are not"""
    b = h.mod('features.builder')
    h.use_random()

    class Ids(object):
        def __init__(self, name):
            self.name = name

        def build(self, dataset):
            return self, b.DoNothingInterpreter(), b.EmptyFeatureInitializer()

        def get_features(self, obj, **kwargs):
            return {self.name: obj}
    batch = [[h.int('v0', 2, 5), h.int('v1', 2, 5)]]
    merged = b.merge([b.wrap_word_level(Ids('a')), b.wrap_word_level(Ids('b'), sparsify=True)])
    extractor, _, _ = merged.build([])
    got = extractor.get_features(batch, sparse_rate=1)
    h.check('only where asked for', h.same(got, {'a': batch, 'b': [[1, 1]]}), [got])
