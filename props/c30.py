"""C30 the network computes what its configuration describes"""
from props import tfmini
from props.tfmini import Arr, LOWEST, Q, add, div, dropped, eq, gt, ite, lstm, mul, sigmoid, softmax, sub, tanh, total, weights
from props.c33 import same_numbers

BOUNDS = {'batches': '1 or 2 sentences of 1 to 3 words of 1 to 3 pieces, padded', 'vocabularies': '2 to 4 entries, vectors of 1 to 4 numbers',
          'values': 'arbitrary identifiers, labels, applicable rules; embeddings in -2..2; loss weights in -3..3; weights of layers fixed by their shape',
          'configurations': 'every word feature alone and all together, every aggregator with and without highway layer, 1 or 2 recurrent layers, '
                            '(or 5), 1 or 2 convolutions with dilation 1 or 2 (or 5 with dilations up to 16), '
                            ' every skip connection, every task, label parts 1 to 3'}
ASSUMPTIONS = ['TensorFlow is replaced by props/tfmini.py: linear and structural operations are computed exactly; recurrent cells, tanh, sigmoid, softmax, '
               'cross entropy and dropout are stand-ins that depend on all of their arguments and their order',
               'layers start with weights that depend on their shape only, as the names and order of variables are not observable']


def cases(tier):
    out = []
    for f in ('word_embedding', 'word_embedding_dense', 'word_trained_embedding', 'average', 'average_pretrained', 'cnn', 'cnn2', 'cnn_pretrained', 'rnn',
              'rnn2', 'self-attention', 'average_highway', 'pretrained_highway', 'cnn_highway'):
        for s in (('one', 'two') if f not in SLOW else ('one',)):
            out.append(('feature_%s_%s' % (f, s), 'feature', {'which': f, 'shape': s}, ['features']))
    out += [('frozen', 'frozen', {}, ['trained or not']), ('features_all', 'features_all', {}, ['features', 'order', 'initializers']), ('features_order', 'features_order', {}, ['order']),
            ('mask', 'mask', {}, ['mask', 'words counted'])]
    for skip in (None, 'sum', 'concat'):
        for n in (1, 2):
            out.append(('bilstm_%s_%d' % (skip, n), 'bilstm', {'skip': skip, 'layers': n}, ['bilstm']))
        out.append(('dilated_%s' % skip, 'dilated', {'skip': skip}, ['dilated']))
        out.append(('bilstm_cnn_%s' % skip, 'bilstm_cnn', {'skip': skip}, ['bilstm_cnn']))
    out += [('bilstm_deep_%s' % skip, 'bilstm_deep', {'skip': skip}, ['bilstm']) for skip in ('none', 'concat')]
    out += [('dilated_deep', 'dilated_deep', {}, ['dilated'])]
    out += [('refused', 'refused', {}, ['refused'])]
    for parts in (1, 2, 3):
        out.append(('pos_%d' % parts, 'pos', {'parts': parts, 'lens': [2, 1]}, ['loss', 'predictions']))
    out += [('pos_single', 'pos', {'parts': 2, 'lens': [1]}, ['loss', 'predictions']), ('pos_long', 'pos', {'parts': 2, 'lens': [1, 3]}, ['loss', 'predictions'])]
    out += [('pos_many', 'pos_many', {}, ['loss', 'predictions'])]
    out += [('weights_%s' % k, 'loss_weights', {'kind': k}, ['loss']) for k in ('none', 'all', 'default', 'some')]
    out += [('lemma_dense', 'lemma_dense', {}, ['loss', 'predictions'])]
    out += [('lemma_suffix', 'rules', {'task': 'lemma_suffix'}, ['loss', 'predictions', 'applicable']),
            ('lemma_binary', 'rules', {'task': 'lemma_binary'}, ['loss', 'predictions', 'applicable'])]
    out += [('%s_more' % k, 'rules', {'task': k, 'n': 5, 'lens': (1,)}, ['loss', 'predictions', 'applicable']) for k in ('lemma_suffix', 'lemma_binary')]
    out += [('combo_%s' % k, 'combo', {'chars': c, 'kind': k}, ['loss', 'predictions']) for k, c in
            (('shorter', 1), ('same', 2), ('longer', 3), ('pretrained', 2), ('highway', 2), ('both', 2))]
    out += [('joint', 'joint', {}, ['loss', 'predictions']), ('dropout', 'dropout', {}, ['loss', 'predictions'])]
    out += [('whole_%s' % k, 'whole', {'kind': k}, ['loss', 'predictions']) for k in ('bilstm', 'bilstm_sum', 'dilated', 'bilstm_cnn')]
    return out


SLOW = ('self-attention', 'average_highway', 'pretrained_highway', 'cnn_highway', 'cnn2', 'rnn2')
SHAPES = {'one': [[2, 1]], 'two': [[1], [2, 1]]}           # pieces per word, words per sentence


# ------------------------------------------------------------------ reference
def dense(x, units, act=None):
    n = len(x)
    w, b = weights([n, units]), weights([units])
    out = [add(total([mul(x[j], w[j * units + u]) for j in range(n)]), b[u]) for u in range(units)]
    return [act(o) for o in out] if act else out


class Ref(object):
    def __init__(self, h):
        self.h = h

    def relu(self, x):
        return ite(self.h, gt(x, 0), x, 0)

    def biggest(self, xs):
        out = xs[0]
        for x in xs[1:]:
            out = ite(self.h, gt(x, out), x, out)
        return out

    def argmax(self, xs):
        """the first of the largest"""
        best, k = xs[0], 0
        for i in range(1, len(xs)):
            c = gt(xs[i], best)
            best, k = ite(self.h, c, xs[i], best), ite(self.h, c, i, k)
        return k

    def row(self, table, i):
        """table: list of rows; i may be symbolic"""
        out = list(table[0])
        for r in range(1, len(table)):
            c = eq(i, r)
            out = [ite(self.h, c, x, y) for x, y in zip(table[r], out)]
        return out

    def table(self, n, size):
        w = weights([n, size])
        return [w[i * size:(i + 1) * size] for i in range(n)]

    def conv(self, seq, kernels):
        """consecutive convolutions with as many outputs as inputs, zeros outside"""
        for k in kernels:
            ch = len(seq[0])
            w = weights([1, k['size'], ch, k['count']])
            left = (k['size'] - 1) * k['dilation'] // 2
            out = []
            for x in range(len(seq)):
                vec = []
                for o in range(k['count']):
                    s = 0
                    for j in range(k['size']):
                        p = x + j * k['dilation'] - left
                        if 0 <= p < len(seq):
                            s = add(s, total([mul(seq[p][c], w[(j * ch + c) * k['count'] + o]) for c in range(ch)]))
                    vec.append(self.relu(s))
                out.append(vec)
            seq = out
        return seq

    def pool(self, seq):
        return [self.biggest([v[i] for v in seq]) for i in range(len(seq[0]))]

    def rnn(self, seq, size, layers, n=None):
        for i in range(layers):
            f, b = lstm(seq, size, n)
            new = [x + y for x, y in zip(f, b)]
            seq = new if i == 0 else [[add(p, q) for p, q in zip(x, y)] for x, y in zip(seq, new)]
        return seq

    def highway(self, x, y):
        g = dense(x, len(x), sigmoid)
        return [add(mul(a, b), mul(sub(1, a), c)) for a, b, c in zip(g, y, x)]

    def aggregate(self, kind, config, ids, vecs):
        if kind == 'average':
            n = 0
            s = [0] * len(vecs[0])
            for i, v in zip(ids, vecs):
                real = self.h.not_(eq(i, 0))
                n = n + self.h.ite(real, 1, 0)
                s = [add(a, ite(self.h, real, b, 0)) for a, b in zip(s, v)]
            n = int(n)
            return [div(x, max(n, 1)) for x in s]
        if kind == 'cnn':
            return self.pool(self.conv(vecs, config['cnn_kernels']))
        if kind == 'rnn':
            out = self.rnn(vecs, config['lstm_cell_size'], config['bilstm_layer_count'])
            return self.pool([dense(v, len(v), self.relu) for v in out])
        s = [total([v[i] for v in vecs]) for i in range(len(vecs[0]))]
        scale = {1: 1, 4: 2, 9: 3}[len(s)]
        at = softmax([total([mul(a, mul(b, scale)) for a, b in zip(v, s)]) for v in vecs])
        return [total([mul(v[i], a) for v, a in zip(vecs, at)]) for i in range(len(s))]

    def subwords(self, config, table, ids):
        v = self.aggregate(config['aggregator'], config.get('aggregator_config', {}), ids, [self.row(table, i) for i in ids])
        if config.get('highway_layer', False):
            v = self.highway(v, dense(v, len(v), self.relu))
        return v


# ------------------------------------------------------------------ inputs
def ids(h, name, n, lo, hi):
    return [h.int('%s.%d' % (name, i), lo, hi) for i in range(n)]


def words(h, name, shape, vocabulary):
    """identifiers of words, padded with 0"""
    width = max([len(s) for s in shape])
    return [ids(h, '%s%d' % (name, i), len(s), 1, vocabulary - 1) + [0] * (width - len(s)) for i, s in enumerate(shape)]


def pieces(h, name, shape, vocabulary):
    width, long = max([len(s) for s in shape]), max([n for s in shape for n in s])
    out = []
    for i, s in enumerate(shape):
        out.append([ids(h, '%s%d.%d' % (name, i, j), n, 1, vocabulary - 1) + [0] * (long - n) for j, n in enumerate(s)]
                   + [[0] * long for _ in range(width - len(s))])
    return out


def lengths(shape):
    return [len(s) for s in shape]


def table(h, name, n, size):
    return [[h.int('%s:%d.%d' % (name, i, j), -2, 2) for j in range(size)] for i in range(n)]


CNN = {'aggregator': 'cnn', 'aggregator_config': {'cnn_kernels': [{'size': 2, 'count': 2, 'dilation': 1}]}}
CNN2 = {'aggregator': 'cnn', 'aggregator_config': {'cnn_kernels': [{'size': 3, 'count': 2, 'dilation': 1}, {'size': 2, 'count': 3, 'dilation': 2}]}}
SEG = {'segmenter': 'char', 'min_frequency': 1, 'trainable': True, 'embed_size': 2}
SUB = {
    'average': dict(SEG, aggregator='average'),
    'average_pretrained': dict(SEG, aggregator='average', embedding_path='e'),
    'average_highway': dict(SEG, aggregator='average', highway_layer=True),
    'pretrained_highway': dict(SEG, aggregator='average', embedding_path='e', highway_layer=True),
    'cnn': dict(SEG, **CNN),
    'cnn2': dict(SEG, **CNN2),
    'cnn_pretrained': dict(SEG, embedding_path='e', **CNN),
    'cnn_highway': dict(SEG, highway_layer=True, **CNN),
    'rnn': dict(SEG, aggregator='rnn', aggregator_config={'lstm_cell_size': 1, 'bilstm_layer_count': 1}),
    'rnn2': dict(SEG, aggregator='rnn', aggregator_config={'lstm_cell_size': 1, 'bilstm_layer_count': 2}),
    'self-attention': dict(SEG, aggregator='self-attention', embed_size=4),
}
for k in SUB:
    if 'embedding_path' in SUB[k]:
        del SUB[k]['embed_size']


class Shared(object):
    """builds the shared part alone and evaluates parts of it"""

    def __init__(self, h, tf, builder, shapes):
        F = tfmini.Facade(tf)
        self.tf = tf
        self.graph = F.Graph()
        with self.graph.as_default():
            self.dropout = F.placeholder_with_default(1.0, [], name='dropout')
            self.inputs = builder.inputs(shapes)
            self.result, self.initializers = builder.build(shapes, self.inputs, self.dropout)
            init = F.global_variables_initializer()
        self.session = F.Session(graph=self.graph)
        self.session.run(init)

    def initialize(self, **values):
        for i in self.initializers:
            i.initialize(self.session, **values)

    def run(self, name, features, keep=None):
        feed = {self.inputs[k]: v for k, v in features.items()}
        if keep is not None:
            feed[self.dropout] = keep
        return self.session.run(self.result[name], feed)


WE = {'path': 'p', 'trainable': False, 'lowercase': True}
TW = {'size': 2, 'trainable': True, 'min_frequency': 1, 'lowercase': False}


def we(h):
    sb = h.mod('neural.tagger.shared_builders')
    return sb.WECharCNNSharedNetworkBuilder


def feature(h, which, shape):
    tf = tfmini.install(h)
    r = Ref(h)
    shp = SHAPES[shape]
    feats = {'sentences_lengths': lengths(shp)}
    values = {}
    if which.startswith('word_embedding'):
        config = {'word_embedding': dict(WE, we_dense_size=3) if which.endswith('dense') else WE}
        shapes = {'word_embeddings': [4, 2]}
        # embeddings are arbitrary, words fixed; or the other way round
        if h.choice('symbolic', ['words', 'embeddings']) == 'words':
            feats['words'] = words(h, 'w', shp, 4)
            rows = r.table(4, 2)
            rows[1], rows[3] = [5, -4], [1, 7]
            values = {'word_embeddings': [(1, rows[1]), (3, rows[3])]}
        else:
            rows = table(h, 'e', 4, 2)
            feats['words'] = [[3, 1][:len(s)] + [0] * (max(lengths(shp)) - len(s)) for s in shp]
            values = {'word_embeddings': list(enumerate(rows))}
        want = [[r.row(rows, i) for i in s] for s in feats['words']]
        if which.endswith('dense'):
            want = [[dense(v, 3, r.relu) for v in s] for s in want]
        name = 'word_embedding'
    elif which == 'word_trained_embedding':
        config = {'word_trained_embedding': TW}
        shapes = {'trained_words': [4]}
        feats['trained_words'] = words(h, 'w', shp, 4)
        want = [[r.row(r.table(4, 2), i) for i in s] for s in feats['trained_words']]
        name = 'trained_embedding'
    else:
        source, name = h.choice('source', [('word_characters', 'characters'), ('bpe_subwords', 'bpe_subwords'), ('morfessor_subwords', 'morfessor_subwords')])
        c = SUB[which]
        config = {source: c}
        rows = r.table(3, c.get('embed_size', 2))
        shapes = {name: [3]}
        if 'embedding_path' in c:
            shapes = {name: [3, 2]}
            rows[2] = [6, -5]
            values = {name: [(2, rows[2])]}
        feats[name] = pieces(h, 'p', shp, 3)
        want = [[r.subwords(c, rows, w) for w in s] for s in feats[name]]
    sh = Shared(h, tf, we(h)({}, config), shapes)
    sh.initialize(**values)
    got = sh.run('word_features', feats)
    h.check('features', same_numbers(h, got, want))
    h.check('features', same_numbers(h, sh.run(name, feats), want))
    h.check('features', len(sh.initializers) == len(values))


ALL = {'word_embedding': WE, 'word_trained_embedding': TW, 'word_characters': SUB['cnn'], 'bpe_subwords': SUB['average_pretrained'],
       'morfessor_subwords': SUB['rnn']}
ALL_SHAPES = {'word_embeddings': [3, 2], 'trained_words': [4], 'characters': [3], 'bpe_subwords': [4, 2], 'morfessor_subwords': [3]}


def all_features(h, shp):
    return {'sentences_lengths': lengths(shp), 'words': words(h, 'w', shp, 3), 'trained_words': words(h, 't', shp, 4),
            'characters': pieces(h, 'c', shp, 3), 'bpe_subwords': pieces(h, 'b', shp, 4), 'morfessor_subwords': pieces(h, 'm', shp, 3)}


def all_wanted(h, r, f, bpe):
    out = []
    for i in range(len(f['words'])):
        out.append([r.row(r.table(3, 2), f['words'][i][j]) + r.row(r.table(4, 2), f['trained_words'][i][j])
                    + r.subwords(SUB['cnn'], r.table(3, 2), f['characters'][i][j]) + r.subwords(SUB['average_pretrained'], bpe, f['bpe_subwords'][i][j])
                    + r.subwords(SUB['rnn'], r.table(3, 2), f['morfessor_subwords'][i][j]) for j in range(len(f['words'][i]))])
    return out


def features_all(h):
    tf = tfmini.install(h)
    r = Ref(h)
    b = we(h)({}, ALL)
    sh = Shared(h, tf, b, ALL_SHAPES)
    bpe = r.table(4, 2)
    bpe[1] = [9, 8]
    sh.initialize(word_embeddings=[(0, r.table(3, 2)[0])], bpe_subwords=[(1, bpe[1])])
    f = all_features(h, [[1, 2]])
    h.check('features', same_numbers(h, sh.run('word_features', f), all_wanted(h, r, f, bpe)))
    h.check('order', sorted(sh.inputs) == sorted(f))
    h.check('mask', same_numbers(h, sh.run('sentence_mask', f), [[1, 1]]))
    h.check('words counted', same_numbers(h, [sh.run('sentence_norm', f)], [2]))
    h.check('initializers', len(sh.initializers) == 2)
    trainable = sorted([(list(v.shape), v.trainable) for v in sh.graph.variables.values() if list(v.shape) in ([3, 2], [4, 2])])
    h.check('initializers', trainable == sorted([([3, 2], False), ([4, 2], True), ([3, 2], True), ([4, 2], True), ([3, 2], True)]))


def frozen(h):
    """given vectors are trained further only when the configuration says so, whatever follows them"""
    tf = tfmini.install(h)
    which = h.choice('which', ['word_embedding', 'word_embedding_dense', 'word_trained_embedding', 'average_pretrained', 'cnn_pretrained', 'pretrained_highway'])
    flag = h.bool('trainable')
    if which.startswith('word_embedding'):
        config, shapes = {'word_embedding': dict(WE, trainable=flag, **({'we_dense_size': 3} if which.endswith('dense') else {}))}, {'word_embeddings': [7, 2]}
    elif which == 'word_trained_embedding':
        config, shapes = {'word_trained_embedding': dict(TW, trainable=flag)}, {'trained_words': [7]}
    else:
        source, name = h.choice('source', [('word_characters', 'characters'), ('bpe_subwords', 'bpe_subwords'), ('morfessor_subwords', 'morfessor_subwords')])
        config, shapes = {source: dict(SUB[which], trainable=flag)}, {name: [7, 2]}
    others = h.bool('others')
    if others:
        for k, (n, s) in {'word_embedding': ('word_embeddings', [3, 2]), 'word_trained_embedding': ('trained_words', [4])}.items():
            if k not in config:
                config[k], shapes[n] = dict(ALL[k], trainable=not flag), s
    sh = Shared(h, tf, we(h)({}, config), shapes)
    got = [v.trainable for v in sh.graph.variables.values() if list(v.shape) == [7, 2]]
    h.check('trained or not', got == [flag], [got])
    rest = [v.trainable for v in sh.graph.variables.values() if list(v.shape) in ([3, 2], [4, 2])]
    h.check('trained or not', not others or all([x == (not flag) for x in rest]) and len(rest) > 0, [rest])


def features_order(h):
    """the representation does not depend on the order of the configuration; features that are not configured play no part"""
    tf = tfmini.install(h)
    r = Ref(h)
    names = [n for n in ALL if h.choice('has ' + n, [True, False])]
    h.assume(len(names) > 0)
    if h.choice('reversed', [False, True]):
        names.reverse()
    sh = Shared(h, tf, we(h)({}, {n: ALL[n] for n in names}), ALL_SHAPES)
    sh.initialize(word_embeddings=[(0, r.table(3, 2)[0])], bpe_subwords=[(1, r.table(4, 2)[1])])
    f = {'sentences_lengths': [1]}
    want = []
    if 'word_embedding' in names:
        f['words'] = [[h.int('w', 0, 2)]]
        want += r.row(r.table(3, 2), f['words'][0][0])
    if 'word_trained_embedding' in names:
        f['trained_words'] = [[h.int('t', 0, 3)]]
        want += r.row(r.table(4, 2), f['trained_words'][0][0])
    if 'word_characters' in names:
        f['characters'] = [[ids(h, 'c', 2, 0, 2)]]
        want += r.subwords(SUB['cnn'], r.table(3, 2), f['characters'][0][0])
    if 'bpe_subwords' in names:
        f['bpe_subwords'] = [[[h.int('b', 1, 3)]]]
        want += r.subwords(SUB['average_pretrained'], r.table(4, 2), f['bpe_subwords'][0][0])
    if 'morfessor_subwords' in names:
        f['morfessor_subwords'] = [[[h.int('m', 0, 2)]]]
        want += r.subwords(SUB['rnn'], r.table(3, 2), f['morfessor_subwords'][0][0])
    h.check('order', same_numbers(h, sh.run('word_features', f), [[want]]))
    h.check('order', sorted(sh.inputs) == sorted(f))


def trained_words(h, tf, builder, config, shp, vocabulary=3):
    """a shared part over trained word embeddings only: the network, the features, the word vectors"""
    r = Ref(h)
    sh = Shared(h, tf, builder(config, {'word_trained_embedding': TW}), {'trained_words': [vocabulary]})
    f = {'sentences_lengths': lengths(shp), 'trained_words': words(h, 'w', shp, vocabulary)}
    return r, sh, f, [[r.row(r.table(vocabulary, 2), i) for i in s] for s in f['trained_words']]


def mask(h):
    tf = tfmini.install(h)
    n = [h.int('n%d' % i, 1, 3) for i in range(2)]
    r, sh, _, _ = trained_words(h, tf, we(h), {}, [[1]])
    f = {'sentences_lengths': n, 'trained_words': [[1] * int(max(n))] * 2}
    got = sh.run('sentence_mask', f)
    w = int(max(n))
    h.check('mask', h.all([same_numbers(h, got, [[h.ite(j < k, 1, 0) for j in range(w)] for k in n])]))
    h.check('words counted', eq(sh.run('sentence_norm', f), n[0] + n[1]))


def scaled(seq, keep):
    return [[dropped(x, keep) for x in v] for v in seq]


def skipped(skip, a, b):
    if skip == 'sum':
        return [[[add(p, q) for p, q in zip(x, y)] for x, y in zip(s, t)] for s, t in zip(a, b)]
    return [[x + y for x, y in zip(s, t)] for s, t in zip(a, b)]


def bilstm(h, skip, layers):
    tf = tfmini.install(h)
    config = {'lstm_cell_size': 1 if skip != 'concat' else 2, 'bilstm_layer_count': layers}
    if skip is not None:
        config['skip_connection'] = skip
    if layers == 1 and h.choice('default', [True, False]):
        del config['bilstm_layer_count']
    sb = h.mod('neural.tagger.shared_builders')
    shp = [[1], [1, 1, 1]]
    r, sh, f, vecs = trained_words(h, tf, sb.CharCNNBiLSTMSharedNetworkBuilder, config, shp)
    keep = h.choice('keep', [None, 0.5])
    dropout = [scaled(s, keep or 1) for s in vecs]
    want = [r.rnn(s, config['lstm_cell_size'], layers, len(n)) for s, n in zip(dropout, shp)]
    h.check('bilstm', same_numbers(h, sh.run('word_features', f, keep), vecs))
    h.check('bilstm', same_numbers(h, sh.run('bilstm', f, keep), want))
    if skip is None:
        h.check('bilstm', 'bilstm_and_word_features' not in sh.result)
    else:
        h.check('bilstm', same_numbers(h, sh.run('bilstm_and_word_features', f, keep), skipped(skip, want, dropout)))


def deep_words(h, tf, builder, config, n):
    """as trained_words, one sentence with one arbitrary word"""
    r = Ref(h)
    sh = Shared(h, tf, builder(config, {'word_trained_embedding': TW}), {'trained_words': [3]})
    ws = [1 + i % 2 for i in range(n)]
    ws[h.choice('at', [0, n - 1])] = h.int('w', 1, 2)
    f = {'sentences_lengths': [n], 'trained_words': [ws]}
    return r, sh, f, [r.row(r.table(3, 2), i) for i in ws]


def bilstm_deep(h, skip):
    """five recurrent layers"""
    tf = tfmini.install(h)
    n = h.choice('layers', [3, 4, 5])
    config = {'lstm_cell_size': 1, 'bilstm_layer_count': n}
    if skip != 'none':
        config['skip_connection'] = skip
    sb = h.mod('neural.tagger.shared_builders')
    r, sh, f, vecs = deep_words(h, tf, sb.CharCNNBiLSTMSharedNetworkBuilder, config, 2)
    h.check('bilstm', same_numbers(h, sh.run('bilstm', f), [r.rnn(vecs, 1, n, 2)]))


def dilated_deep(h):
    """five convolutions with growing dilation"""
    tf = tfmini.install(h)
    d = h.choice('dilations', [[1, 2, 4, 8, 16], [16], [8, 1], [1, 1, 1, 1, 1], [3, 5]])
    kernels = [{'size': 3, 'count': 1, 'dilation': x} for x in d]
    sb = h.mod('neural.tagger.shared_builders')
    r, sh, f, vecs = deep_words(h, tf, sb.DilatedCNNSharedNetworkBuilder, {'cnn_kernels': kernels}, 18)
    h.check('dilated', same_numbers(h, sh.run('dilated_cnn', f), [r.conv(vecs, kernels)]))


KERNELS = [{'size': 2, 'count': 1, 'dilation': 1}, {'size': 3, 'count': 2, 'dilation': 2}]


def dilated(h, skip):
    tf = tfmini.install(h)
    config = {'cnn_kernels': KERNELS}
    if skip is not None:
        config['skip_connection'] = skip
    sb = h.mod('neural.tagger.shared_builders')
    shp = [[1, 1], [1, 1, 1]]
    r, sh, f, vecs = trained_words(h, tf, sb.DilatedCNNSharedNetworkBuilder, config, shp)
    keep = h.choice('keep', [None, 0.5])
    dropout = [scaled(s, keep or 1) for s in vecs]
    want = [r.conv(s, KERNELS) for s in dropout]
    h.check('dilated', same_numbers(h, sh.run('dilated_cnn', f, keep), want))
    if skip is None:
        h.check('dilated', 'dilated_cnn_and_word_features' not in sh.result)
    else:
        h.check('dilated', same_numbers(h, sh.run('dilated_cnn_and_word_features', f, keep), skipped(skip, want, dropout)))


def bilstm_cnn(h, skip):
    tf = tfmini.install(h)
    config = {'lstm_cell_size': 1, 'cnn_kernels': KERNELS}
    if skip is not None:
        config['skip_connection'] = skip
    sb = h.mod('neural.tagger.shared_builders')
    shp = [[1], [1, 1]]
    r, sh, f, vecs = trained_words(h, tf, sb.CharCNNBiLSTMCNNSharedNetworkBuilder, config, shp)
    keep = h.choice('keep', [None, 0.5])
    dropout = [scaled(s, keep or 1) for s in vecs]
    hidden = [r.rnn(s, 1, 1, len(n)) for s, n in zip(dropout, shp)]
    if skip is not None:
        hidden = skipped(skip, hidden, dropout)
    want = [[r.pool(r.conv([[x] for x in v], KERNELS)) for v in scaled(s, keep or 1)] for s in hidden]
    h.check('bilstm_cnn', same_numbers(h, sh.run('bilstm_cnn', f, keep), want))


def refused(h):
    """configurations that make no sense do not build"""
    tf = tfmini.install(h)
    sb = h.mod('neural.tagger.shared_builders')
    kind = h.choice('kind', ['layers', 'skip', 'skip_cnn', 'kernels', 'sum', 'sum_cnn'])
    if kind == 'layers':
        b, c = sb.CharCNNBiLSTMSharedNetworkBuilder, {'lstm_cell_size': 1, 'bilstm_layer_count': h.int('n', -2, 0)}
    elif kind == 'skip':
        b, c = sb.CharCNNBiLSTMSharedNetworkBuilder, {'lstm_cell_size': 1, 'skip_connection': h.choice('s', ['Sum', 'add', 'mean', ''])}
    elif kind == 'skip_cnn':
        b, c = sb.DilatedCNNSharedNetworkBuilder, {'cnn_kernels': KERNELS, 'skip_connection': h.choice('s', ['Sum', 'add', 'mean', ''])}
    elif kind == 'kernels':
        b, c = sb.DilatedCNNSharedNetworkBuilder, {}
    elif kind == 'sum':
        b, c = sb.CharCNNBiLSTMSharedNetworkBuilder, {'lstm_cell_size': h.choice('size', [2, 3]), 'skip_connection': 'sum'}
    else:
        b, c = sb.DilatedCNNSharedNetworkBuilder, {'cnn_kernels': [{'size': 1, 'count': h.choice('size', [1, 3]), 'dilation': 1}], 'skip_connection': 'sum'}
    o = h.call(trained_words, h, tf, b, c, [[1]])
    h.check('refused', h.all([not o.ok, o.error == 'ValueError']))


# ------------------------------------------------------------------ tasks
def network(h, tasks, shared=None, shapes=None, features=None):
    """the network of the configuration as a model, initialised"""
    prov, model = h.mod('neural.tagger.network_provider'), h.mod('neural.model')
    b = prov.get_nn_builder(shared or {'builder': 'WE_charCNN', 'config': {}, 'features_config': {'word_trained_embedding': TW}},
                            tasks, {'optimizer': {'type': 'Adam'}}, 1)
    s = {'trained_words': [3]}
    s.update(shapes or {})
    nn, graph = b.build(s)
    m = model.Model.new(nn, graph)
    m.initialize(**(features or {}))
    return m


def batch(h, lens, symbolic=True):
    w = max(lens)
    if symbolic:
        return {'sentences_lengths': lens, 'trained_words': words(h, 'w', [[1] * n for n in lens], 3)}
    return {'sentences_lengths': lens, 'trained_words': [[1 + (i + j) % 2 if j < n else 0 for j in range(w)] for i, n in enumerate(lens)]}


def vectors(h, f):
    r = Ref(h)
    return r, [[r.row(r.table(3, 2), i) for i in s] for s in f['trained_words']]


def task_pos(parts, weight=None, size=2, name='word_features'):
    c = {'shared_name': name, 'dense_size': size, 'splitting': 'pos_UXF'}
    if weight is not None:
        c['loss_weights'] = weight
    return {'builder': 'pos_dense', 'config': c}


PARTS = {'UPOS': 3, 'XPOS': 2, 'FEATS': 2}


def dense_task(r, vecs, lens, sizes, gold, keep=1, dsize=2, masks=None):
    """losses by part and predictions"""
    losses, preds = [], [[[] for _ in s] for s in vecs]
    words_ = sum(lens)
    for p, n in enumerate(sizes):
        s = 0
        for i, sent in enumerate(vecs):
            for j, v in enumerate(sent):
                logits = dense([dropped(x, keep) for x in dense(v, dsize, r.relu)], n)
                if masks is not None:
                    logits = [ite(r.h, c, x, LOWEST) for c, x in zip(masks[i][j], logits)]
                preds[i][j].append(r.argmax(logits))
                if j < lens[i] and gold is not None:
                    s = add(s, tfmini.sparse_cross_entropy(r.h, logits, gold[i][j][p]))
        losses.append(div(s, words_))
    return losses, preds


def labels(h, lens, sizes, name='g'):
    w = max(lens)
    return [[[h.int('%s%d.%d.%d' % (name, i, j, p), 0, n - 1) for p, n in enumerate(sizes)] for j in range(w)] for i in range(len(lens))]


def pos(h, parts, lens):
    tfmini.install(h)
    names = list(PARTS)[:parts]
    sizes = [PARTS[n] for n in names]
    m = network(h, [task_pos(parts, {'default': 1})], shapes={'pos_labels': {n: PARTS[n] for n in names}})
    what = h.choice('symbolic', ['words', 'labels'])
    f = batch(h, lens, what == 'words')
    r, vecs = vectors(h, f)
    if what == 'labels':
        gold = labels(h, lens, sizes)
    else:
        gold = [[[(i + j + p) % n for p, n in enumerate(sizes)] for j in range(max(lens))] for i in range(len(lens))]
    losses, preds = dense_task(r, vecs, lens, sizes, gold)
    h.check('loss', eq(m.train(f, {'pos_labels': gold, 'learning_rate': 1}), total(losses)))
    out = m.predict(f)
    h.check('predictions', h.all([sorted(out) == ['pos_labels'], same_numbers(h, out['pos_labels'], preds)]))


def pos_many(h):
    """tags of many parts: features one by one"""
    tfmini.install(h)
    parts = [('UPOS', 3), ('XPOS', 2), ('Case', 2), ('Gender', 3), ('Number', 2), ('Tense', 1)]
    k = h.int('k', -3, 3)
    m = network(h, [task_pos(6, {'default': 1, 'Number': k})], shapes={'pos_labels': dict(parts)})
    lens = [1]
    f = batch(h, lens, False)
    r, vecs = vectors(h, f)
    sizes = [n for _, n in parts]
    gold = labels(h, lens, sizes)
    losses, preds = dense_task(r, vecs, lens, sizes, gold)
    h.check('loss', eq(m.train(f, {'pos_labels': gold, 'learning_rate': 1}), total([mul(x, k) if p[0] == 'Number' else x for x, p in zip(losses, parts)])))
    h.check('predictions', same_numbers(h, m.predict(f)['pos_labels'], preds))


def loss_weights(h, kind):
    tfmini.install(h)
    names = list(PARTS)
    k = [h.int('k%d' % i, -3, 3) for i in range(3)]
    config, by = {'none': (None, [1, 1, 1]), 'all': ({'UPOS': k[0], 'XPOS': k[1], 'FEATS': k[2]}, k), 'default': ({'default': k[0]}, [k[0]] * 3),
                  'some': ({'default': k[2], 'XPOS': k[1]}, [k[2], k[1], k[2]])}[kind]
    m = network(h, [task_pos(3, config)], shapes={'pos_labels': PARTS})
    lens = [2, 1]
    f = batch(h, lens, False)
    r, vecs = vectors(h, f)
    gold = [[[(i + j + p) % PARTS[n] for p, n in enumerate(names)] for j in range(2)] for i in range(2)]
    losses, _ = dense_task(r, vecs, lens, [PARTS[n] for n in names], gold)
    h.check('loss', eq(m.train(f, {'pos_labels': gold, 'learning_rate': 1}), total([mul(a, b) for a, b in zip(losses, by)])))


def lemma_dense(h):
    tfmini.install(h)
    m = network(h, [{'builder': 'lemma_dense', 'config': {'shared_name': 'trained_embedding', 'dense_size': 3}}], shapes={'lemma_labels': {'LEMMA': 4}})
    lens = [1, 2]
    f = batch(h, lens)
    r, vecs = vectors(h, f)
    gold = labels(h, lens, [4])
    losses, preds = dense_task(r, vecs, lens, [4], gold, dsize=3)
    h.check('loss', eq(m.train(f, {'lemma_labels': gold, 'learning_rate': 1}), total(losses)))
    out = m.predict(f)
    h.check('predictions', h.all([sorted(out) == ['lemma_labels'], same_numbers(h, out['lemma_labels'], preds)]))


def task_rules(task):
    return {'builder': task, 'config': {'shared_name': 'word_features', 'dense_size': 2},
            'features_config': {'lemma_suffix_transformation': {'rules_threshold': 1}}}


def rules(h, task, n=3, lens=(2, 1)):
    tfmini.install(h)
    lens = list(lens)
    keep = 1 if n == 3 else h.choice('keep', [0.5, 1.0])
    m = network(h, [task_rules(task)], shapes={'lemma_rule_labels': {'LEMMA': n}, 'applicable_rules': [n]})
    f = batch(h, lens, h.choice('symbolic words', [True, False]))
    w = max(lens)
    r, vecs = vectors(h, f)
    masks = [[[h.bool('a%d.%d.%d' % (i, j, k)) if j < lens[i] else False for k in range(n)] for j in range(w)] for i in range(len(lens))]
    f['applicable_rules'] = masks
    gold = [[[(i + j) % n if n == 3 else h.choice('gold', [0, n - 1])] for j in range(w)] for i in range(len(lens))]

    def reference(keep):
        if task == 'lemma_suffix':
            losses, preds = dense_task(r, vecs, lens, [n], gold, keep, masks=masks)
            return total(losses), preds
        s, preds = 0, [[None] * w for _ in lens]
        for i, sent in enumerate(vecs):
            for j, v in enumerate(sent):
                x = [dropped(y, keep) for y in dense(v, 2)]
                logits = [dense(x + [1 if k == q else 0 for q in range(n)], 1)[0] for k in range(n)]
                logits = [ite(h, c, y, LOWEST) for c, y in zip(masks[i][j], logits)]
                preds[i][j] = [r.argmax(logits)]
                if j < lens[i]:
                    s = add(s, total([tfmini.sigmoid_cross_entropy(h, y, 1 if k == gold[i][j][0] else 0) for k, y in enumerate(logits)]))
        return div(s, sum(lens)), preds
    fed = {'lemma_rule_labels': gold, 'learning_rate': 1}
    if keep != 1:
        fed['dropout_probability'] = keep
    h.check('loss', eq(m.train(f, fed), reference(keep)[0]))
    preds = reference(1)[1]
    out = m.predict(f)
    h.check('predictions', h.all([sorted(out) == ['lemma_rule_labels'], same_numbers(h, out['lemma_rule_labels'], preds)]))
    o = out['lemma_rule_labels']
    h.check('applicable', h.all([h.implies(h.any(masks[i][j]), h.any([h.all([eq(o[i][j][0], k), masks[i][j][k]]) for k in range(n)]))
                                 for i in range(len(lens)) for j in range(lens[i])]))


def task_combo(highway=False, pretrained=False, weight=1.0, name='word_features'):
    inp = {'segmenter': 'char', 'min_frequency': 1, 'trainable': True, 'embed_size': 2}
    if highway:
        inp['highway_layer'] = True
    if pretrained:
        inp['embedding_path'] = 'e'
    return {'builder': 'lemma_combo', 'config': {'shared_name': name, 'cnn_bilstm_dense_size': 2, 'cnn_kernels': COMBO, 'loss_weights': {'LEMMA': weight}},
            'features_config': {'input_subwords': inp, 'output_subwords': {'min_frequency': 1, 'max_word_length': 2, 'segmenter': 'char'}}}


COMBO = [{'size': 2, 'count': 3, 'dilation': 1}, {'size': 2, 'count': 2, 'dilation': 1}]


def combo_task(r, vecs, lens, chars, rows, gold, highway=False):
    s, preds = 0, [[None] * len(x) for x in vecs]
    for i, sent in enumerate(vecs):
        for j, v in enumerate(sent):
            ce = ([r.row(rows, c) for c in chars[i][j]] + [[0, 0]] * 2)[:2]
            d = dense(v, 2, tanh)
            seq = r.conv([d + c for c in ce], COMBO)
            if highway:
                seq = [r.highway(x, y) for x, y in zip(ce, seq)]
            w = weights([1, 1, 2, 3])
            logits = [[total([mul(x[c], w[c * 3 + o]) for c in range(2)]) for o in range(3)] for x in seq]
            preds[i][j] = [r.argmax(x) for x in logits]
            if j < lens[i]:
                s = add(s, total([tfmini.sparse_cross_entropy(r.h, x, g) for x, g in zip(logits, gold[i][j])]))
    return div(s, sum(lens) * 2), preds


def combo(h, chars, kind):
    tfmini.install(h)
    r = Ref(h)
    rows = r.table(3, 2)
    values = {}
    if kind in ('pretrained', 'both'):
        rows[1] = [4, -3]
        values = {'input_subwords': [(1, rows[1])]}
    weight = h.choice('weight', [0.5, 0, 3] if kind == 'same' else [0.5])
    m = network(h, [task_combo(kind in ('highway', 'both'), kind in ('pretrained', 'both'), weight)], shapes={'input_subwords': [3], 'output_subwords': [3]}, features=values)
    lens = [2, 1] if kind not in ('highway', 'both') else [1]
    what = h.choice('symbolic', ['characters', 'labels'])
    f = batch(h, lens, False)
    _, vecs = vectors(h, f)
    w = max(lens)
    f['input_subwords'] = [[ids(h, 'c%d.%d' % (i, j), chars, 0, 2) if what == 'characters' and j < lens[i] else [2, 1, 2][:chars] if j < lens[i] else [0] * chars
                            for j in range(w)] for i in range(len(lens))]
    gold = [[[h.int('g%d.%d.%d' % (i, j, k), 0, 2) if what == 'labels' else (i + j + k) % 3 for k in range(2)] for j in range(w)] for i in range(len(lens))]
    loss, preds = combo_task(r, vecs, lens, f['input_subwords'], rows, gold, kind in ('highway', 'both'))
    h.check('loss', eq(m.train(f, {'output_subwords': gold, 'learning_rate': 1}), mul(loss, weight)))
    out = m.predict(f)
    h.check('predictions', h.all([sorted(out) == ['output_subwords'], same_numbers(h, out['output_subwords'], preds)]))


def joint(h):
    """two tasks: weighted sum of their losses"""
    tfmini.install(h)
    four = [{'builder': 'lemma_dense', 'config': {'shared_name': 'word_features', 'dense_size': 3}}] if h.bool('four') else []
    m = network(h, [task_pos(2, {'UPOS': 2, 'default': 3}), task_combo(weight=0.25), task_rules('lemma_suffix')] + four,
                shapes={'pos_labels': {'UPOS': 3, 'XPOS': 2}, 'input_subwords': [3], 'output_subwords': [3], 'lemma_rule_labels': {'LEMMA': 2}, 'applicable_rules': [2], 'lemma_labels': {'LEMMA': 3}})
    lens = [1, 2]
    f = batch(h, lens)
    r, vecs = vectors(h, f)
    f['input_subwords'] = [[[1, 2], [0, 0]], [[2, 0], [1, 1]]]
    f['applicable_rules'] = [[[True, True], [False, False]], [[True, False], [True, True]]]
    gp = labels(h, lens, [3, 2])
    gc = [[[1, 0], [0, 0]], [[2, 1], [0, 2]]]
    gr = [[[1], [0]], [[0], [h.int('rule', 0, 1)]]]
    lp, pp = dense_task(r, vecs, lens, [3, 2], gp)
    lc, pc = combo_task(r, vecs, lens, f['input_subwords'], r.table(3, 2), gc)
    lr, pr = dense_task(r, vecs, lens, [2], gr, masks=f['applicable_rules'])
    want = [mul(lp[0], 2), mul(lp[1], 3), div(lc, 4), lr[0]]
    gold = {'pos_labels': gp, 'output_subwords': gc, 'lemma_rule_labels': gr, 'learning_rate': 1}
    pl = None
    if four:
        gold['lemma_labels'] = [[[2], [0]], [[1], [0]]]
        ll, pl = dense_task(r, vecs, lens, [3], gold['lemma_labels'], dsize=3)
        want.append(ll[0])
    h.check('loss', eq(m.train(f, gold), total(want)))
    out = m.predict(f)
    h.check('predictions', h.all([sorted(out) == (['lemma_labels'] if four else []) + ['lemma_rule_labels', 'output_subwords', 'pos_labels'], pl is None or same_numbers(h, out['lemma_labels'], pl), same_numbers(h, out['pos_labels'], pp),
                                  same_numbers(h, out['output_subwords'], pc), same_numbers(h, out['lemma_rule_labels'], pr)]))


def dropout(h):
    """dropout acts on training alone"""
    tfmini.install(h)
    m = network(h, [task_pos(1, {'default': 1})], shapes={'pos_labels': {'UPOS': 3}})
    lens = [1, 2]
    f = batch(h, lens)
    r, vecs = vectors(h, f)
    gold = labels(h, lens, [3])
    keep = h.choice('keep', [0.5, 0.75, 1.0])
    losses, _ = dense_task(r, vecs, lens, [3], gold, keep)
    h.check('loss', eq(m.train(f, {'pos_labels': gold, 'learning_rate': 1, 'dropout_probability': keep}), total(losses)))
    _, preds = dense_task(r, vecs, lens, [3], None)
    h.check('predictions', same_numbers(h, m.predict(f)['pos_labels'], preds))


def whole(h, kind):
    """a complete configuration from its description"""
    tfmini.install(h)
    config = {'bilstm': {'lstm_cell_size': 1, 'skip_connection': 'concat', 'bilstm_layer_count': 2}, 'bilstm_sum': {'lstm_cell_size': 1, 'skip_connection': 'sum'},
              'dilated': {'cnn_kernels': KERNELS}, 'bilstm_cnn': {'lstm_cell_size': 1, 'cnn_kernels': KERNELS}}[kind]
    builder, name = {'bilstm': ('BiLSTM', 'bilstm_and_word_features'), 'bilstm_sum': ('BiLSTM', 'bilstm_and_word_features'), 'dilated': ('Dilated_CNN', 'dilated_cnn'),
                     'bilstm_cnn': ('BiLSTM_CNN', 'bilstm_cnn')}[kind]
    m = network(h, [task_pos(2, {'default': 1}, name=name)], {'builder': builder, 'config': config, 'features_config': {'word_trained_embedding': TW}},
                {'pos_labels': {'UPOS': 3, 'XPOS': 2}})
    lens = [1, 2]
    f = batch(h, lens)
    r, vecs = vectors(h, f)
    hidden = {}
    keep = h.choice('keep', [1.0, 0.5])
    for k in (1, keep):
        d = [scaled(s, k) for s in vecs]
        if kind.startswith('bilstm'):
            x = [r.rnn(s, 1, config.get('bilstm_layer_count', 1), n) for s, n in zip(d, lens)]
            if 'skip_connection' in config:
                x = skipped(config['skip_connection'], x, d)
            if kind == 'bilstm_cnn':
                x = [[r.pool(r.conv([[y] for y in v], KERNELS)) for v in scaled(s, k)] for s in x]
        else:
            x = [r.conv(s, KERNELS) for s in d]
        hidden[k] = x
    gold = [[[(i + j) % 3, (i + 2 * j) % 2] for j in range(2)] for i in range(2)]
    losses, _ = dense_task(r, hidden[keep], lens, [3, 2], gold, keep)
    h.check('loss', eq(m.train(f, {'pos_labels': gold, 'learning_rate': 1, 'dropout_probability': keep}), total(losses)))
    _, preds = dense_task(r, hidden[1], lens, [3, 2], None)
    h.check('predictions', same_numbers(h, m.predict(f)['pos_labels'], preds))
