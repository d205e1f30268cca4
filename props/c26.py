"""C26 neural tagging annotates every word with its own prediction and nothing else"""
from props.common import doc_fields, structure, syntax, pos_key

BOUNDS = {'stream': '1 to 3 documents of 0 to 3 sentences of 1 to 3 words, with multiword tokens; one document of 8 sentences, one of 40, 30 documents, a sentence of 120 words; 3 sentences of the same text',
          'predictions': 'arbitrary one-character lemmas and tags, arbitrary labels for the real interpreters, with 0 to 2 columns of padding'}
ASSUMPTIONS = ['the network delivers at least as many values per sentence as it has words']

SHAPES = {'one': [[1]], 'two': [[2, 1]], 'docs': [[1], [2]], 'three': [[1, 1], [], [3]], 'mixed': [[2], [1, 2, 1]], 'long': [[1, 2, 1, 1, 3, 1, 2, 1]], 'wide': [[2], [120, 1]], 'many': [[1] * 40, [1, 2]], 'documents': [[1]] * 30,
          'empty_first': [[], [1]]}


def cases(tier):
    must = ['own prediction', 'nothing else', 'asked once per sentence']
    out = [('stream_' + k, 'stream', {'shape': k}, must) for k in SHAPES]
    out += [('same_text', 'same_text', {}, must), ('multiword', 'multiword', {}, must), ('annotated', 'annotated', {}, must), ('lazy', 'lazy', {}, ['lazily']),
            ('real', 'real', {}, ['own prediction']), ('real_rules', 'real_rules', {}, ['own prediction']), ('saved', 'saved', {}, ['own prediction', 'released']),
            ('saved_partly', 'saved_partly', {}, ['released']), ('twice', 'twice', {}, ['own prediction'])]
    return out


class Features(object):
    """features that name the sentence"""

    def __init__(self):
        self.calls = []

    def get_features(self, batch, **kwargs):
        batch = list(batch)
        self.calls.append([_place(s) for s in batch])
        return {'where': [_place(s) for s in batch], 'call': len(self.calls)}


def _place(s):
    return [s.document_text, s.get_token(0).start, s.tokens_count]


class Model(object):
    """arbitrary predictions, one per sentence asked for; padding behind them"""

    def __init__(self, h, padding, answer):
        self.h = h
        self.padding = padding
        self.answer = answer
        self.asked = []
        self.closed = 0
        self.saved = []

    def predict(self, features):
        self.asked.append(features)
        words = features['where'][0][2]
        i = len(self.asked) - 1
        return {k: [[f(i, j) for j in range(words)] + ['padding'] * self.padding] for k, f in self.answer.items()}

    def save(self, path):
        self.saved.append(path)

    def close(self):
        self.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Direct(object):
    """predictions are the annotations"""

    def __init__(self, dm):
        self.dm = dm

    def interpret(self, obj, value):
        return obj.with_morphology(obj, pos=self.dm.Pos(value['tag'], None, {'F': 'x'}), lemma=value['lemma'])


def _interpreter(h):
    b = h.mod('features.builder')
    return b.IterableInterpreter(b.IterableInterpreter(Direct(h.mod('datamodel'))))


def _documents(h, shape, annotated=False):
    dm = h.mod('datamodel')
    docs = []
    for d, sizes in enumerate(shape):
        toks, sents, text = [], [], ''
        for n in sizes:
            first = len(toks)
            for j in range(n):
                kw = dict(pos=dm.Pos('old'), lemma='old', deprel='r%d' % j, head_sentence_index=j - 1, extras=dm.TokenExtras({'x': j})) if annotated else {}
                toks.append(dm.Token(len(text), len(text) + 1, **kw))
                text += 'abcdefghijklmnop'[(d + len(toks)) % 16] + ' '
            sents.append(dm.Sentence(first, len(toks)))
        docs.append(dm.Document(text, toks, sents))
    return docs


def _symbols(h):
    """arbitrary annotation for the first words, fixed for the others"""
    def lemma(i, j):
        return h.str('lemma%d_%d' % (i, j), 1, 'abя') if i < 3 and j < 5 else 'l%d%d' % (i, j)

    def tag(i, j):
        return h.str('tag%d_%d' % (i, j), 1, 'NV') if i < 3 and j < 5 else 't%d%d' % (i, j)
    cache = {}

    def memo(kind, f):
        def get(i, j):
            if (kind, i, j) not in cache:
                cache[(kind, i, j)] = f(i, j)
            return cache[(kind, i, j)]
        return get
    return {'lemma': memo('lemma', lemma), 'tag': memo('tag', tag)}


def _verify(h, docs, got, features, model, before):
    h.check('one document per input', len(got) == len(docs), [len(got)])
    sentences = [s for d in docs for s in d.sentences]
    h.check('asked once per sentence', len(model.asked) == len(sentences), [len(model.asked)])
    h.check('features of that sentence', [f['where'] for f in model.asked] == [[_place(s)] for s in sentences], [model.asked])
    i = 0
    for d, g in zip(docs, got):
        h.check('nothing else', h.same(structure(g), structure(d)) and h.same(syntax(g), syntax(d)), [structure(g)])
        h.check('extras', all([x.extras == y.extras for x, y in zip(d.tokens, g.tokens)]))
        if d.sentences_count != g.sentences_count:
            continue
        for s, t in zip(d.sentences, g.sentences):
            for j, w in enumerate(t.tokens):
                h.check('own prediction', h.all([h.same(w.lemma, model.answer['lemma'](i, j)), h.same(pos_key(w.pos), [model.answer['tag'](i, j), None, [['F', 'x']]])]), [w])
            i += 1
    h.check('input untouched', h.same([doc_fields(d) for d in docs], before))


def _run(h, docs):
    nt = h.mod('neural.tagger.neural_tagger')
    features, model = Features(), Model(h, h.choice('padding', [0, 2]), _symbols(h))
    before = [doc_fields(d) for d in docs]
    got = list(nt.NeuralTagger(features, model, _interpreter(h)).tag(iter(docs)))
    _verify(h, docs, got, features, model, before)
    return got


def stream(h, shape):
    _run(h, _documents(h, SHAPES[shape]))


def annotated(h):
    """existing annotation: morphology is replaced, syntax and extras stay"""
    _run(h, _documents(h, [[2, 1], [2]], True))


def multiword(h):
    dm = h.mod('datamodel')
    toks = [dm.Token(0, 2, sub_index=i, text_replacement=h.str('form%d' % i, 1, 'pq'), head_sentence_index=[-1, 0, 0][i], deprel='d') for i in range(3)]
    docs = [dm.Document('xy zu', toks + [dm.Token(3, 4, head_sentence_index=-1), dm.Token(4, 5, head_sentence_index=0)], [dm.Sentence(0, 3), dm.Sentence(3, 5)])]
    _run(h, docs)


def same_text(h):
    """sentences and documents with the same text: other words, or the same words in other places"""
    dm = h.mod('datamodel')
    kinds = [h.choice('kind%d' % i, ['plain', 'split', 'multi']) for i in range(3)]
    cut = h.choice('documents', [[3], [1, 2]])
    docs, k = [], 0
    for n in cut:
        toks, sents = [], []
        for i in range(n):
            p, first = 3 * i, len(toks)
            if kinds[k] == 'plain':
                toks.append(dm.Token(p, p + 2))
            elif kinds[k] == 'split':
                toks += [dm.Token(p, p + 1), dm.Token(p + 1, p + 2)]
            else:
                toks += [dm.Token(p, p + 2, sub_index=j, text_replacement='xyz'[j]) for j in range(2)]
            sents.append(dm.Sentence(first, len(toks)))
            k += 1
        docs.append(dm.Document('ab ' * n, toks, sents))
    _run(h, docs)


def lazy(h):
    """a document is delivered before the next one is taken"""
    nt = h.mod('neural.tagger.neural_tagger')
    docs = _documents(h, [[1], [1, 1], [2]])
    taken = []

    def source():
        for d in docs:
            taken.append(d)
            yield d
    model = Model(h, 0, _symbols(h))
    out = nt.NeuralTagger(Features(), model, _interpreter(h)).tag(source())
    h.check('nothing before it is asked for', not taken and not model.asked)
    for i in range(3):
        g = next(out)
        h.check('lazily', len(taken) == i + 1 and len(model.asked) == [1, 3, 4][i], [len(taken)])
        h.check('in order', g.text == docs[i].text)
    h.check('no more', next(out, None) is None)


def real(h):
    """labels of the real dictionaries"""
    nt = h.mod('neural.tagger.neural_tagger')
    dm = h.mod('datamodel')
    b = h.mod('features.builder')
    ex = h.mod('features.extractors')
    train = [dm.Document('a b c', [dm.Token(0, 1, dm.Pos('N', 'x'), 'la'), dm.Token(2, 3, dm.Pos('V', None, {'K': 'v'}), 'lb'), dm.Token(4, 5, dm.Pos('N', 'x'), 'la')])]
    builder = b.merge([b.wrap_word_level(ex.PosDictFeatureExtractorBuilder('pos', 'pos_UXF')), b.wrap_word_level(ex.LemmaDictFeatureExtractorBuilder('lemma'))])
    _, interpreter, _ = builder.build(train)
    ids = {}

    def pick(kind, i, j):
        if (kind, i, j) not in ids:
            ids[(kind, i, j)] = h.choice('%s%d_%d' % (kind, i, j), [0, 1])
        return ids[(kind, i, j)]
    model = Model(h, h.choice('padding', [0, 1]), {'pos': lambda i, j: [pick('pos', i, j)] * 3, 'lemma': lambda i, j: [pick('lemma', i, j)]})
    docs = _documents(h, [[2], [1]], True)
    got = list(nt.NeuralTagger(Features(), model, interpreter).tag(iter(docs)))
    h.check('one document per input', len(got) == 2)
    i = 0
    for d, g in zip(docs, got):
        h.check('nothing else', h.same(structure(g), structure(d)) and h.same(syntax(g), syntax(d)))
        for s in g.sentences:
            for j, w in enumerate(s.tokens):
                p, l = ids[('pos', i, j)], ids[('lemma', i, j)]
                h.check('own prediction', w.lemma == ['la', 'lb'][l] and pos_key(w.pos) == [['N', 'x', []], ['V', None, [['K', 'v']]]][p], [w, p, l])
            i += 1


def real_rules(h):
    """rules are applied to the words they were predicted for"""
    nt = h.mod('neural.tagger.neural_tagger')
    dm = h.mod('datamodel')
    b = h.mod('features.builder')
    ex = h.mod('features.extractors')

    class Data(object):
        def __iter__(self):
            return iter([dm.Document('Aba cd', [dm.Token(0, 3, None, 'ab'), dm.Token(4, 6, None, 'cc')])])
    _, interpreter, init = b.wrap_word_level(ex.LemmaSuffixTransformationFeatureExtractorBuilder('lemma', ex.CachedSuffixRulesBuilder(0))).build(Data())
    ids = [h.choice('rule%d' % i, [0, 1]) for i in range(3)]
    first = {0: 'a', 1: 'd'}
    toks = [dm.Token(0, 2), dm.Token(3, 5), dm.Token(6, 8)]
    doc = dm.Document('XA yD zq', toks, [dm.Sentence(0, 2), dm.Sentence(2, 3)])
    model = Model(h, 1, {'lemma': lambda i, j: [ids[2 * i + j]]})
    got, = nt.NeuralTagger(Features(), model, interpreter).tag(iter([doc]))
    rules = [('a', ''), ('d', 'c')]
    for w, i in zip(got.tokens, ids):
        low = w.text.lower()
        s, l = rules[i]
        h.check('own prediction', w.lemma == (low[:-1] + l if low.endswith(s) else low), [w.lemma, i])


def _saved(h, nt):
    h.use_pickle()
    features, model = Features(), Model(h, h.choice('padding', [0, 1]), _symbols(h))
    loaded = []

    def load(path):
        loaded.append(path)
        return model
    h.patch(nt.Model, 'load', load)
    path = h.path('models/epoch-0')
    if h.bool('the directory exists'):
        h.dir('models')
        h.dir('models/epoch-0')
        h.file('models/epoch-0/extractor-interpreter', 'of an earlier run')
    lazy = nt.NeuralTagger(features, model, _interpreter(h)).save(path)
    return features, model, lazy, path, loaded


def saved(h):
    """a tagger used through its saved form does the same and releases the network once"""
    nt = h.mod('neural.tagger.neural_tagger')
    features, model, lazy, path, loaded = _saved(h, nt)
    h.check('saved under its name', model.saved == [path], [model.saved])
    docs = _documents(h, [[2], [1, 1]], True)
    before = [doc_fields(d) for d in docs]
    got = list(lazy.tag(iter(docs)))
    _verify(h, docs, got, features, model, before)
    h.check('released', loaded == [path] and model.closed == 1, [loaded, model.closed])
    del model.asked[:]
    got = list(lazy.tag(iter(docs)))
    _verify(h, docs, got, features, model, before)
    h.check('released', loaded == [path, path] and model.closed == 2, [loaded, model.closed])


def saved_partly(h):
    """the network is released when the stream fails or is abandoned"""
    nt = h.mod('neural.tagger.neural_tagger')
    features, model, lazy, path, loaded = _saved(h, nt)
    docs = _documents(h, [[1], [1]])
    fails = h.bool('fails')

    def source():
        yield docs[0]
        if fails:
            raise RuntimeError('broken stream')
        yield docs[1]
    out = lazy.tag(source())
    g = next(out)
    h.check('in order', g.text == docs[0].text and model.closed == 0)
    if fails:
        r = h.call(lambda: next(out))
        h.check('failure is passed on', r.error == 'RuntimeError', [r.error])
    else:
        out.close()
    h.check('released', model.closed == 1, [model.closed])


def twice(h):
    """one tagger for two streams"""
    nt = h.mod('neural.tagger.neural_tagger')
    features, model = Features(), Model(h, 1, _symbols(h))
    tagger = nt.NeuralTagger(features, model, _interpreter(h))
    a, b = _documents(h, [[2]]), _documents(h, [[1], [1]], True)
    for docs in (a, b):
        before = [doc_fields(d) for d in docs]
        del model.asked[:]
        _verify(h, docs, list(tagger.tag(iter(docs))), features, model, before)
