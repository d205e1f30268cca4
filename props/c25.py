"""C25 merging feature extractors gives all their features, once, in shape"""
from props.c21 import _pad, _lens

BOUNDS = {'extractors': 'up to 4 (thorough 5) of 4 kinds (word, sparsified word, sentence, empty), merged at once or in any nesting of merges',
          'batch': '1 to 3 sentences of 1 to 3 words; interpretation up to 5 sentences or words; 260 sentences, sentences of 150 words and 9 extractors in the large cases', 'values': 'arbitrary integers'}
ASSUMPTIONS = ['sentences have at least one word', 'builders of extractors can be built from one data set again and again',
               'different interpreters change different annotations of a word']

KINDS = ['word', 'chars', 'sparse', 'sentence', 'empty']


FEATURES = ['length', 'words', 'trained', 'subword', 'chars', 'mask']
LABELS = ['lemma', 'rule', 'pos', 'lemma_chars']


def cases(tier):
    out = [('merge%d' % n, 'merged', {'n': n}, ['features', 'sizes']) for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]
    out += [('fixed_%s' % '_'.join(k), 'fixed', {'kinds': k}, ['features', 'sizes']) for k in
            (['word', 'sentence', 'word', 'sparse', 'empty'], ['chars', 'chars', 'sparse', 'sparse', 'word'], ['empty', 'empty', 'empty'],
             ['sentence', 'sentence', 'sentence', 'word'], ['sparse', 'empty', 'sentence', 'sparse'])]
    out += [('shapes%s' % '_'.join(map(str, s)), 'batch', {'sizes': s}, ['features']) for s in ([1], [3], [1, 2], [2, 1], [1, 3, 2])]
    out += [('nested', 'nested', {}, ['features', 'sizes']), ('many', 'many', {}, ['features', 'sizes']), ('large', 'large', {}, ['features']), ('interpret_large', 'interpret_large', {}, ['right word']), ('mixed', 'mixed', {}, ['features', 'sizes']), ('single', 'single', {}, ['features', 'sizes']), ('duplicate', 'duplicate', {}, ['refused']), ('duplicate_far', 'duplicate_far', {}, ['refused']),
            ('duplicate_shapes', 'duplicate_shapes', {}, ['refused']), ('no_builders', 'no_builders', {}, ['refused']),
            ('interpret1', 'interpreted', {'n': 1}, ['right word']), ('interpret2', 'interpreted', {'n': 2}, ['right word']),
            ('interpret3', 'interpreted', {'n': 3}, ['right word']), ('interpret_sentence', 'interpret_sentence', {}, ['right sentence']),
            ('interpret_nothing', 'interpret_nothing', {}, ['unchanged']),
            ('provider', 'provider', {}, ['features', 'labels', 'sizes']), ('provider_one', 'provider_one', {}, ['features']),
            ('rate', 'rate', {}, ['rate reaches the extractors']), ('real', 'real', {}, ['features', 'labels', 'interpreted'])]
    out += [('each_' + k, 'each', {'kind': k}, ['features' if k in FEATURES else 'labels', 'sizes', 'rate reaches the extractors']) for k in FEATURES + LABELS]
    return out


def _fakes(h):
    b = h.mod('features.builder')

    class Extractor(b.FeatureExtractorInterface):
        def __init__(self, owner):
            self.owner = owner

        def get_features(self, obj, **kwargs):
            self.owner.rates.append(dict(kwargs))
            return {self.owner.name: self.owner.feature(obj)}

    class Interpreter(b.InterpreterInterface):
        def __init__(self, owner):
            self.owner = owner

        def interpret(self, obj, value):
            return self.owner.interpret(obj, value[self.owner.name])

    class Init(b.FeatureInitializerInterface):
        def __init__(self, owner):
            self.owner = owner

        def shapes(self):
            return {self.owner.name: ['size', self.owner.name]}

        def initial_values(self):
            return {self.owner.name: 'values of ' + self.owner.name}

    class Builder(b.FeatureExtractorBuilder):
        def __init__(self, name, kind, interprets=False):
            self.name = name
            self.kind = kind
            self.interprets = interprets
            self.rates = []
            self.data = []

        def build(self, dataset):
            self.data.append(dataset)
            return Extractor(self), Interpreter(self) if self.interprets else b.DoNothingInterpreter(), Init(self)

        def feature(self, obj):
            return _feature(self.name, self.kind, obj)

        def interpret(self, obj, value):
            return obj.annotated(self.name, value)
    return Builder


def _feature(name, kind, obj):
    """what this extractor delivers for a word or a sentence"""
    i = int(name[1:])
    if kind == 'sentence':
        return len(list(obj)) + 100 * i
    if kind == 'chars':
        return [w + i for w in obj.chars]
    return obj.number + 10 * i


class Word(object):
    def __init__(self, number, chars, marks=()):
        self.number = number
        self.chars = chars
        self.marks = list(marks)

    def annotated(self, name, value):
        return Word(self.number, self.chars, self.marks + [(name, value)])


class Sentence(object):
    def __init__(self, words, marks=()):
        self.words = words
        self.marks = list(marks)

    def __iter__(self):
        return iter(self.words)

    def annotated(self, name, value):
        return Sentence(self.words, self.marks + [(name, value)])


def _batch(h, sizes):
    out = []
    for i, n in enumerate(sizes):
        out.append(Sentence([Word(h.int('w%d_%d' % (i, j), 0, 9), [h.int('c%d_%d' % (i, j), 0, 9), 7, 8][:1 + (i + j) % 3]) for j in range(n)]))
    return out


def _wrap(h, Builder, name, kind, interprets=False):
    """the batch-level builder and the fake inside"""
    b = h.mod('features.builder')
    if kind == 'empty':
        return b.EmptyFeatureExtractorBuilder(), None
    fake = Builder(name, kind, interprets)
    if kind == 'sentence':
        return b.wrap_sentence_level(fake), fake
    if kind == 'sparse':
        return b.wrap_word_level(fake, sparsify=True), fake
    return b.wrap_word_level(fake), fake


def _want(kinds, batch):
    out = {}
    for i, kind in enumerate(kinds):
        name = 'f%d' % i
        if kind == 'empty':
            continue
        if kind == 'sentence':
            out[name] = [_feature(name, kind, s) for s in batch]
        else:
            rows = [[_feature(name, kind, w) for w in s] for s in batch]
            out[name] = _pad(rows, _lens(rows, 0, []))
    return out


def _check(h, kinds, built, batch, fakes, data):
    extractor, interpreter, init = built
    got = extractor.get_features(batch)
    want = _want(kinds, batch)
    h.check('features', h.same(got, want), [got, want])
    names = sorted(want)
    shapes, values = init.shapes(), init.initial_values()
    h.check('sizes', sorted(shapes) == names and all([shapes[n] == ['size', n] for n in names]), [shapes])
    h.check('initial values', sorted(values) == names and all([values[n] == 'values of ' + n for n in names]), [values])
    h.check('built from the data', all([len(f.data) > 0 and all([d is data for d in f.data]) for f in fakes if f]))


def _go(h, kinds, sizes):
    b = h.mod('features.builder')
    Builder = _fakes(h)
    pairs = [_wrap(h, Builder, 'f%d' % i, k) for i, k in enumerate(kinds)]
    data = ['data']
    built = b.merge([p[0] for p in pairs]).build(data)
    _check(h, kinds, built, _batch(h, sizes), [p[1] for p in pairs], data)


def merged(h, n):
    kinds = [h.choice('kind%d' % i, KINDS) for i in range(n)]
    h.use_random()
    _go(h, kinds, [2, 1])


def fixed(h, kinds):
    h.use_random()
    _go(h, kinds, [1, 2])


def batch(h, sizes):
    h.use_random()
    _go(h, ['chars', 'sentence', h.choice('kind', ['sparse', 'word', 'chars'])], sizes)


def nested(h):
    """merging merged builders; builders given by an iterator"""
    b = h.mod('features.builder')
    h.use_random()
    Builder = _fakes(h)
    kinds = [h.choice('kind%d' % i, ['word', 'sparse', 'sentence', 'empty']) for i in range(3)] + ['chars']
    pairs = [_wrap(h, Builder, 'f%d' % i, k) for i, k in enumerate(kinds)]
    w = [p[0] for p in pairs]
    m = h.choice('nesting', [0, 1, 2, 3])
    if m == 0:
        r = b.merge(iter([b.merge(iter(w[:2])), w[2], w[3]]))
    elif m == 1:
        r = b.merge([w[0], b.merge([w[1], b.merge([w[2], w[3]])])])
    elif m == 2:
        r = b.merge([b.merge([w[0], w[1]]), b.merge([w[2], w[3]])])
    else:
        r = b.merge([b.CompositeFeatureExtractorBuilder([w[0], w[2]]), b.CompositeFeatureExtractorBuilder([w[1], w[3]])])
    data = ['data']
    _check(h, kinds, r.build(data), _batch(h, [2, 1]), [p[1] for p in pairs], data)


def many(h):
    """nine extractors, of one kind or of several"""
    kinds = [h.choice('kind', ['word', 'sparse', 'sentence', 'chars'])] * 8 + [h.choice('last', ['word', 'sparse', 'sentence', 'empty'])]
    h.use_random()
    _go(h, kinds, [2, 1])


def large(h):
    """a large batch, and a long sentence"""
    h.use_random()
    sizes = [h.choice('first', [1, 150])] + [1 + i % 2 for i in range(259)] if h.bool('many') else [2, 150]
    Builder = _fakes(h)
    b = h.mod('features.builder')
    kinds = ['word', 'sentence', h.choice('kind', ['word', 'sparse'])]
    pairs = [_wrap(h, Builder, 'f%d' % i, k) for i, k in enumerate(kinds)]
    sents = [Sentence([Word((3 * i + j) % 10, [1]) for j in range(n)]) for i, n in enumerate(sizes)]
    sents[-1].words[-1].number = h.int('w', 0, 9)
    data = ['data']
    _check(h, kinds, b.merge([p[0] for p in pairs]).build(data), sents, [p[1] for p in pairs], data)


def interpret_large(h):
    b = h.mod('features.builder')
    Builder = _fakes(h)
    sizes = [[1] * 150, [150], [130, 2, 140]][h.choice('sizes', [0, 1, 2])]
    pairs = [_wrap(h, Builder, 'f%d' % i, 'word', True) for i in range(2)]
    _, interpreter, _ = b.merge([p[0] for p in pairs]).build(['data'])
    sents = [Sentence([Word((3 * i + j) % 10, [1]) for j in range(n)]) for i, n in enumerate(sizes)]
    value = {'f%d' % k: [[(7 * i + j + k) % 100 for j in range(max(sizes) + 1)] for i in range(len(sizes))] for k in range(2)}
    value['f1'][-1][sizes[-1] - 1] = h.int('v', 0, 9)
    got = [list(s) for s in interpreter.interpret(sents, value)]
    h.check('as many words', [len(s) for s in got] == sizes)
    for i, s in enumerate(got):
        h.check('right word', h.all([w.number == v.number for w, v in zip(s, sents[i].words)]))
        h.check('right prediction', h.all([h.same(sorted([list(m) for m in w.marks], key=lambda m: m[0]), [['f%d' % k, value['f%d' % k][i][j]] for k in range(2)]) for j, w in enumerate(s)]))


def mixed(h):
    """builders of other types than the usual ones among the wrapped ones"""
    b = h.mod('features.builder')
    h.use_random()
    Builder = _fakes(h)
    kinds = [h.choice('kind%d' % i, ['word', 'sparse', 'sentence', 'plain', 'rows']) for i in range(3)] + ['empty', h.choice('last', ['word', 'plain'])]

    class Rows(b.FeatureExtractorBuilder):
        """a builder for batches that does not take part in merging"""

        def __init__(self, fake):
            self.fake = fake

        def build(self, data):
            return b.wrap_word_level(self.fake).build(data)
    pairs = []
    for i, k in enumerate(kinds):
        if k == 'plain':       # words without padding
            fake = Builder('f%d' % i, 'word')
            pairs.append((b.IterableFeatureExtractorBuilder(b.IterableFeatureExtractorBuilder(fake)), fake))
        elif k == 'rows':
            fake = Builder('f%d' % i, 'word')
            pairs.append((Rows(fake), fake))
        else:
            pairs.append(_wrap(h, Builder, 'f%d' % i, k))
    if h.bool('reversed'):
        order = [p[0] for p in pairs][::-1]
    else:
        order = [p[0] for p in pairs]
    data = ['data']
    _check(h, ['word' if k in ('plain', 'rows') else k for k in kinds], b.merge(order).build(data), _batch(h, [2, 2]), [p[1] for p in pairs], data)


def single(h):
    """a composition of one"""
    b = h.mod('features.builder')
    h.use_random()
    Builder = _fakes(h)
    kind = h.choice('kind', ['word', 'sparse', 'sentence', 'chars'])
    w, fake = _wrap(h, Builder, 'f0', kind)
    data = ['data']
    _check(h, [kind], b.CompositeFeatureExtractorBuilder([w]).build(data), _batch(h, [2, 1]), [fake], data)


def _refused(h, builders, batch):
    b = h.mod('features.builder')

    def run():
        extractor, _, init = b.merge(builders).build(['data'])
        extractor.get_features(batch)
    r = h.call(run)
    h.check('refused', r.error == 'ValueError', [r.error])


def duplicate(h):
    """two extractors for one name, of any kinds"""
    Builder = _fakes(h)
    h.use_random()
    kinds = [h.choice('kind%d' % i, ['word', 'chars', 'sparse', 'sentence']) for i in range(2)]
    _refused(h, [_wrap(h, Builder, 'f1', k)[0] for k in kinds], _batch(h, [h.choice('n', [1, 2])]))


def duplicate_far(h):
    """among others"""
    Builder = _fakes(h)
    h.use_random()
    names = [['f0', 'f1', 'f2', 'f0'], ['f0', 'f1', 'f1', 'f2'], ['f3', 'f1', 'f2', 'f1']][h.choice('names', [0, 1, 2])]
    kinds = [h.choice('kind%d' % i, ['word', 'sparse', 'sentence']) for i in range(4)]
    _refused(h, [_wrap(h, Builder, n, k)[0] for n, k in zip(names, kinds)], _batch(h, [1, 2]))


def duplicate_shapes(h):
    b = h.mod('features.builder')
    init = b.CompositeInitializer([b.ConstantFeatureInitializer(n, [1]) for n in (['a', 'b', 'a'] if h.bool('far') else ['a', 'a'])])
    r = h.call(lambda: init.shapes())
    h.check('refused', r.error == 'ValueError', [r.error])


def no_builders(h):
    b = h.mod('features.builder')
    r = h.call(lambda: b.merge([] if h.bool('list') else iter([])))
    h.check('refused', r.error == 'ValueError', [r.error])


def _predictions(h, n, sizes, names):
    """arbitrary predictions, longer than the sentences where others are longer or by choice"""
    width = max(sizes) + h.choice('more', [0, 1])
    return {m: [[h.int('%s_%d_%d' % (m, i, j), 0, 9) for j in range(width)] for i in range(len(sizes))] for m in names}


def interpreted(h, n):
    """every word of every sentence gets its own prediction by every interpreter"""
    b = h.mod('features.builder')
    Builder = _fakes(h)
    sizes = [[1], [2, 1], [1, 3], [4, 5], [1, 2, 1, 2, 1]][h.choice('sizes', [0, 1, 2, 3, 4] if n < 3 else [0, 1, 2])]
    inter = [n < 3 or h.bool('interprets%d' % i) for i in range(n)]
    pairs = [_wrap(h, Builder, 'f%d' % i, 'word', inter[i]) for i in range(n)]
    if n == 3:
        pairs.append(_wrap(h, Builder, 'f9', 'empty'))
    _, interpreter, _ = b.merge([p[0] for p in pairs]).build(['data'])
    batch = _batch(h, sizes)
    value = _predictions(h, n, sizes, ['f%d' % i for i in range(n)])
    if sum(sizes) < 7 and h.bool('other order'):
        value = {k: value[k] for k in sorted(value, reverse=True)}
    got = [list(s) for s in interpreter.interpret(batch, value)]
    h.check('as many words', [len(s) for s in got] == sizes, [[len(s) for s in got]])
    for i, s in enumerate(got):
        for j, w in enumerate(s):
            h.check('right word', w.number == list(batch[i])[j].number)
            want = [('f%d' % k, value['f%d' % k][i][j]) for k in range(n) if inter[k]]
            have = sorted(w.marks, key=lambda m: m[0])
            h.check('right prediction', h.same([list(m) for m in have], [list(m) for m in want]), [have, want])
    h.check('words untouched', all([not w.marks for s in batch for w in s]))


def interpret_sentence(h):
    """interpreters of sentences and interpreters of words of one batch"""
    b = h.mod('features.builder')
    Builder = _fakes(h)
    one = b.wrap_sentence_level(Builder('f1', 'sentence', True))
    _, interpreter, _ = b.merge([one, b.EmptyFeatureExtractorBuilder()]).build(['data'])
    batch = _batch(h, [1, 2])
    value = {'f1': [h.int('v0', 0, 9), h.int('v1', 0, 9)]}
    got = list(interpreter.interpret(batch, value))
    h.check('right sentence', h.same([[list(m) for m in s.marks] for s in got], [[['f1', value['f1'][0]]], [['f1', value['f1'][1]]]]), [[s.marks for s in got]])
    h.check('same words', [[w for w in s] for s in got] == [[w for w in s] for s in batch])


def interpret_nothing(h):
    """extractors without interpretation leave the words alone"""
    b = h.mod('features.builder')
    Builder = _fakes(h)
    pairs = [_wrap(h, Builder, 'f%d' % i, 'word') for i in range(h.choice('n', [1, 2]))]
    _, interpreter, _ = b.merge([p[0] for p in pairs]).build(['data'])
    batch = _batch(h, [2, 1])
    value = _predictions(h, 2, [2, 1], ['f0', 'f1'])
    got = [list(s) for s in interpreter.interpret(batch, value)]
    h.check('unchanged', [[w for w in s] for s in batch] == got, [got])


def _provider(Provider, features, labels):
    class P(Provider):
        def feature_extractor_builder(self):
            return features if features is not None else Provider.feature_extractor_builder(self)

        def labels_extractor_builder(self):
            return labels if labels is not None else Provider.labels_extractor_builder(self)
    return P()


def provider(h):
    """features and labels of several providers"""
    pr = h.mod('features.provider')
    h.use_random()
    Builder = _fakes(h)
    fk = [h.choice('f%d' % i, ['word', 'sentence', 'sparse', 'none']) for i in range(3)]
    lk = ['word', 'none', h.choice('l2', ['word', 'none'])]
    fs = [_wrap(h, Builder, 'f%d' % i, k) if k != 'none' else (None, None) for i, k in enumerate(fk)]
    ls = [_wrap(h, Builder, 'f%d' % (i + 5), k, True) if k != 'none' else (None, None) for i, k in enumerate(lk)]
    data = ['data']
    providers = [_provider(pr.AbstractExtractorBuilderProvider, f[0], l[0]) for f, l in zip(fs, ls)]
    fe, le, interpreter, init = pr.FeatureExtractorBuilderProvider(providers).build(data)
    batch = _batch(h, [2, 1])
    kinds = [k if k != 'none' else 'empty' for k in fk]
    h.check('features', h.same(fe.get_features(batch), _want(kinds, batch)))
    want = _want(['empty'] * 5 + [k if k != 'none' else 'empty' for k in lk], batch)
    h.check('labels', h.same(le.get_features(batch), want))
    names = sorted(['f%d' % i for i, k in enumerate(fk) if k != 'none'] + ['f%d' % (i + 5) for i, k in enumerate(lk) if k != 'none'])
    h.check('sizes', sorted(init.shapes()) == names and sorted(init.initial_values()) == names, [init.shapes()])
    value = {n: [[1, 2], [3, 0]] for n in want}
    got = interpreter.interpret(batch, value)
    for i, s in enumerate(got):
        for j, w in enumerate(s):
            h.check('interpreted', sorted(w.marks) == [(n, value[n][i][j]) for n in sorted(want)], [w.marks])


def provider_one(h):
    pr = h.mod('features.provider')
    Builder = _fakes(h)
    h.use_random()
    kind = h.choice('kind', ['word', 'sentence', 'sparse'])
    f, _ = _wrap(h, Builder, 'f0', kind)
    fe, le, interpreter, init = pr.FeatureExtractorBuilderProvider([_provider(pr.AbstractExtractorBuilderProvider, f, None)]).build(['data'])
    batch = _batch(h, [1, 2])
    h.check('features', h.same(fe.get_features(batch), _want([kind], batch)))
    h.check('no labels', le.get_features(batch) == {})
    h.check('nothing to interpret', interpreter.interpret(batch, {}) is batch)
    h.check('sizes', init.shapes() == {'f0': ['size', 'f0']})


def rate(h):
    """the rate of sparsification reaches exactly the sparsified extractors, whatever they are merged with"""
    b = h.mod('features.builder')
    h.use_random()
    Builder = _fakes(h)
    kinds = [h.choice('kind%d' % i, ['word', 'sparse', 'sentence', 'empty']) for i in range(3)]
    pairs = [_wrap(h, Builder, 'f%d' % i, k) for i, k in enumerate(kinds)]
    extractor, _, _ = b.merge([p[0] for p in pairs]).build(['data'])
    batch = _batch(h, [2])
    got = extractor.get_features(batch, sparse_rate=1)
    want = _want(kinds, batch)
    for i, k in enumerate(kinds):
        if k == 'sparse':
            want['f%d' % i] = [[1, 1]]
    h.check('rate reaches the extractors', h.same(got, want), [got, want])


class Data(object):
    def __init__(self, docs):
        self.docs = docs

    def __iter__(self):
        return iter(self.docs)


def real(h):
    """the extractors of the repository together: like each of them alone"""
    pr = h.mod('features.provider')
    ex = h.mod('features.extractors')
    dm = h.mod('datamodel')
    h.use_random()
    words = [('ab', h.str('l0', 1, 'ab'), dm.Pos(h.str('u0', 1, 'NV'))), ('b', 'b', dm.Pos('N', None, {'K': 'v'})), (h.str('w2', 2, 'ab'), 'ba', dm.Pos('V'))]
    text, toks = '', []
    for w, l, p in words:
        toks.append(dm.Token(len(text), len(text) + len(w), p, l))
        text = text + w + ' '
    doc = dm.Document(text, toks, [dm.Sentence(0, 2), dm.Sentence(2, 3)])
    data = Data([doc])
    rules = h.bool('rules')
    providers = [pr.SentenceLengthExtractorProvider('len'), pr.TrainableWordEmbeddingExtractorProvider('we', {'min_frequency': 1, 'lowercase': True}),
                 pr.SubwordsExtractorProvider('ch', {'min_frequency': 1, 'segmenter': 'char'}), pr.PosDictExtractorProvider('pos', 'pos_UXF'),
                 pr.LemmaTransformationExtractorProvider('mask', 'lemma', {'rules_threshold': 0}) if rules else pr.LemmaDictExtractorProvider('lemma')]
    fe, le, interpreter, init = pr.FeatureExtractorBuilderProvider(providers).build(data)
    batch = list(doc.sentences)
    alone = [('we', ex.TrainableEmbeddingsExtractorBuilder('we', 1, True)),
             ('ch', ex.TokenCharactersFeatureExtractorBuilder('ch', {'min_frequency': 1, 'segmenter': 'char'}))]
    labels = [('pos', ex.PosDictFeatureExtractorBuilder('pos', 'pos_UXF'))]
    rb = ex.CachedSuffixRulesBuilder(0)
    if rules:
        alone.append(('mask', ex.ApplicableSuffixTransformationsBuilder('mask', rb)))
        labels.append(('lemma', ex.LemmaSuffixTransformationFeatureExtractorBuilder('lemma', rb)))
    else:
        labels.append(('lemma', ex.LemmaDictFeatureExtractorBuilder('lemma')))
    want = {'len': [2, 1]}
    sizes = {}
    for target, builders in ((want, alone), ({}, labels)):
        for name, bl in builders:
            e, _, i = bl.build(data)
            rows = [[e.get_features(w)[name] for w in s.tokens] for s in batch]
            target[name] = _pad(rows, _lens(rows, 0, []))
            sizes.update(i.shapes())
        if target is not want:
            wanted_labels = target
    got = fe.get_features(batch)
    h.check('features', h.same(got, want), [got, want])
    got = le.get_features(batch)
    h.check('labels', h.same(got, wanted_labels), [got, wanted_labels])
    h.check('sizes', init.shapes() == sizes, [init.shapes(), sizes])
    back = [list(s) for s in interpreter.interpret(batch, got)]
    for s, t in zip(batch, back):
        for w, v in zip(s.tokens, t):
            h.check('interpreted', v.lemma == w.lemma.lower() and v.pos == w.pos, [v])
    h.check('as many words', [len(t) for t in back] == [2, 1])


def each(h, kind):
    """every provider of the repository alone: the extractor it is for, with its configuration, padded and sparsified as it should be"""
    pr = h.mod('features.provider')
    ex = h.mod('features.extractors')
    dm = h.mod('datamodel')
    h.use_random()
    words = [('ab', 'Ab', dm.Pos('N')), ('B', h.str('l1', 1, 'ab'), dm.Pos('V', 'x', {'K': 'v'})), (h.str('w2', 2, 'abB'), 'ba', dm.Pos('V'))]
    text, toks = '', []
    for w, l, p in words:
        toks.append(dm.Token(len(text), len(text) + len(w), p, l))
        text = text + w + ' '
    doc = dm.Document(text, toks, [dm.Sentence(0, 1), dm.Sentence(1, 3)])
    data = Data([doc])
    low = h.bool('low') if kind in ('words', 'trained') else False
    n = h.choice('n', [1, 2]) if kind in ('trained', 'chars', 'lemma_chars') else 1
    path = h.file('vectors', 'ab 1 2\nb 3 4\nB 5 6\na 7 8\n') if kind in ('words', 'subword') else None
    chars = {'min_frequency': n, 'segmenter': 'char'}
    if kind == 'length':
        p, one = pr.SentenceLengthExtractorProvider('f'), ex.SentenceLengthFeatureExtractorBuilder('f')
    elif kind == 'words':
        p, one = pr.WordEmbeddingExtractorProvider('f', 'i', {'path': path, 'lowercase': low}), ex.WordEmbeddingFeatureExtractorBuilder('f', 'i', path, low)
    elif kind == 'trained':
        p, one = pr.TrainableWordEmbeddingExtractorProvider('f', {'min_frequency': n, 'lowercase': low}), ex.TrainableEmbeddingsExtractorBuilder('f', n, low)
    elif kind == 'subword':
        c = {'embedding_path': path, 'segmenter': 'char'}
        p, one = pr.SubwordEmbeddingExtractorProvider('f', 'i', c), ex.SubwordEmbeddingFeatureExtractorBuilder('f', 'i', c)
    elif kind == 'chars':
        p, one = pr.SubwordsExtractorProvider('f', chars), ex.TokenCharactersFeatureExtractorBuilder('f', chars)
    elif kind in ('mask', 'rule'):
        p = pr.LemmaTransformationExtractorProvider('f', 'l', {'rules_threshold': 0})
        rb = ex.CachedSuffixRulesBuilder(0)
        one = ex.ApplicableSuffixTransformationsBuilder('f', rb) if kind == 'mask' else ex.LemmaSuffixTransformationFeatureExtractorBuilder('l', rb)
    elif kind == 'lemma':
        p, one = pr.LemmaDictExtractorProvider('l'), ex.LemmaDictFeatureExtractorBuilder('l')
    elif kind == 'pos':
        split = h.choice('split', ['pos_joint', 'pos_XF', 'pos_UXF', 'pos_gran'])
        p, one = pr.PosDictExtractorProvider('l', split), ex.PosDictFeatureExtractorBuilder('l', split)
    else:
        c = {'min_frequency': n, 'segmenter': 'char', 'max_word_length': 4}
        p, one = pr.LemmaCharExtractorProvider('l', c), ex.LemmaCharFeatureExtractorBuilder('l', c)
    fe, le, interpreter, init = pr.FeatureExtractorBuilderProvider([p]).build(data)
    batch = list(doc.sentences)
    e, _, i = one.build(data)
    name = 'f' if kind in FEATURES else 'l'
    if kind == 'length':
        want = [e.get_features(s)[name] for s in batch]
    else:
        want = [[e.get_features(w)[name] for w in s.tokens] for s in batch]
        want = _pad(want, _lens(want, 0, []))
    for rate in (0, 1):
        got = (fe if name == 'f' else le).get_features(batch, sparse_rate=rate) if rate or name == 'f' else le.get_features(batch)
        if rate:
            if kind in ('words', 'trained', 'subword', 'chars'):
                sparse = [[([1] * (len(words[k][0]) + 2) if kind in ('subword', 'chars') else 1) for k in ks] for ks in ([0], [1, 2])]
                want = _pad(sparse, _lens(sparse, 0, []))
            h.check('rate reaches the extractors', h.same(got, {name: want}), [got, want])
        else:
            h.check('features' if name == 'f' else 'labels', h.same(got, {name: want}), [got, want])
    other = (le if name == 'f' else fe).get_features(batch)
    h.check('nothing else', sorted(other) == (['l'] if kind == 'mask' else ['f'] if kind == 'rule' else []), [other])
    mine = {k: v for k, v in init.shapes().items() if kind not in ('mask', 'rule') or k == name}
    h.check('sizes', mine == i.shapes(), [mine, i.shapes()])
    a, b = init.initial_values(), i.initial_values()
    h.check('initial values', sorted(a) == sorted(b) and all([list(a[k]) == list(b[k]) for k in b]))
    back = interpreter.interpret(batch, le.get_features(batch)) if name == 'l' else None
    if kind in ('lemma', 'pos'):
        h.check('interpreted', all([v.lemma == w.lemma and v.pos == w.pos for s, t in zip(batch, back) for v, w in zip(t, s.tokens)]))
