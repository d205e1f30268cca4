"""C31 subword segmentation by external segmenters loses no characters"""
MARK = '\u2581'
START, END, UNKNOWN = 2, 3, 1
BOUNDS = {'words': '1 to 4 characters (thorough 6), up to 3 words; one of 130 characters', 'segmentation': 'every way of cutting the marked word; no pieces at all; words with an inner mark',
          'models': 'the trained model is a stand-in that delivers an arbitrary segmentation'}
ASSUMPTIONS = ['a byte-pair model (bpemb, sentencepiece) cuts the word, preceded by the mark of a word boundary, into non-empty pieces, or yields no pieces at all',
               'a morpheme model (Morfessor) returns the pieces of the word and their cost']


def cases(tier):
    out = []
    for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6):
        out.append(('bpe%d' % n, 'bpe', {'n': n}, ['all characters', 'pieces of the model']))
        out.append(('morfessor%d' % n, 'morfessor', {'n': n}, ['all characters', 'pieces of the model']))
        out.append(('char%d' % n, 'char', {'n': n}, ['all characters']))
    out += [('long_bpe', 'long', {'kind': 'bpe'}, ['all characters', 'pieces of the model']), ('long_morfessor', 'long', {'kind': 'morfessor'}, ['all characters', 'pieces of the model']),
            ('long_char', 'long', {'kind': 'char'}, ['all characters', 'pieces of the model']), ('morfessor_inner', 'morfessor_inner', {}, ['all characters', 'pieces of the model']), ('bpe_inner', 'bpe_inner', {}, ['pieces of the model']), ('bpe_plain', 'bpe_plain', {}, ['pieces of the model']),
            ('bpe_nothing', 'bpe_nothing', {}, ['no pieces']), ('models', 'models', {}, ['model of the configuration']), ('again', 'again', {}, ['same pieces again'])]
    for kind in ('bpe', 'morfessor'):
        out += [('vocabulary_' + kind, 'vocabulary', {'kind': kind}, ['own pieces', 'sizes']), ('vectors_' + kind, 'vectors', {'kind': kind}, ['own pieces']),
                ('lemma_' + kind, 'lemma', {'kind': kind}, ['lemma again'])]
    out += [('nothing_' + k, 'nothing', {'what': k}, ['framed']) for k in ('chars', 'lemma', 'vectors')]
    return out


class Models(object):
    """stand-ins of the packages; cuts[word] are the pieces of the word as the model sees them"""

    def __init__(self, h):
        self.asked = []
        self.loaded = []
        self.pieces = []
        ex = h.mod('features.extractors')
        me = self

        class BPEmb(object):
            def __init__(self, **kwargs):
                me.loaded.append(kwargs)

            def encode(self, text):
                return me.cut(text)

        class Model(object):
            def viterbi_segment(self, text, *a, **k):
                return me.cut(text), 1.5

        class IO(object):
            def read_any_model(self, path):
                me.loaded.append({'path': path})
                return Model()

            def read_binary_model_file(self, path):
                return self.read_any_model(path)

        class mf(object):
            MorfessorIO = IO
        h.patch(ex, 'BPEmb', BPEmb)
        h.patch(ex, 'mf', mf)

    def add(self, word, pieces):
        self.pieces.append((word, pieces))

    def cut(self, text):
        self.asked.append(text)
        for w, p in self.pieces:
            if len(w) == len(text) and w == text:
                return list(p)
        raise AssertionError('asked for %r' % (text,))


def _cut(h, name, text):
    """any way of cutting it into non-empty pieces"""
    out = [text[:1]]
    for i in range(1, len(text)):
        if h.bool('%s%d' % (name, i)):
            out.append(text[i:i + 1])
        else:
            out[-1] = out[-1] + text[i:i + 1]
    return out


def _unmarked(pieces):
    """the specification: the first piece loses the mark, and vanishes if nothing else is in it"""
    if not pieces:
        return []
    first = pieces[0]
    if first[:1] == MARK:
        first = first[1:]
    return ([first] if len(first) else []) + list(pieces[1:])


def _joined(parts):
    out = ''
    for p in parts:
        out = out + p
    return out


def _segmenter(h, kind):
    ex = h.mod('features.extractors')
    if kind == 'bpe':
        return ex.TokenBPESegmenter('en', 1000)
    if kind == 'morfessor':
        return ex.TokenMorfessorSegmenter('/some/model')
    return ex.TokenCharSegmenter()


def _compare(h, got, want, word):
    got = list(got)
    h.check('as many pieces', len(got) == len(want), [got, want])
    h.check('pieces of the model', h.same(got, want), [got, want])
    h.check('all characters', h.same(_joined(got), word), [got])
    h.check('no empty piece', all([len(p) > 0 for p in got]), [got])


def bpe(h, n):
    m = Models(h)
    word = h.str('w', n, 'abЖ' if n > 3 else 'aЖ' + MARK)      # the mark may be a character of the word as well
    pieces = _cut(h, 'cut', MARK + word)
    m.add(word, pieces)
    _compare(h, _segmenter(h, 'bpe').segment(word), _unmarked(pieces), word)


def bpe_inner(h):
    """a word with a space inside is marked there as well: only the first mark is dropped"""
    m = Models(h)
    word = h.str('a', 1, 'ab') + ' ' + h.str('b', 1, 'ab')
    seen = word[:1] + MARK + word[2:]
    pieces = _cut(h, 'cut', MARK + seen)
    m.add(word, pieces)
    _compare(h, _segmenter(h, 'bpe').segment(word), _unmarked(pieces), seen)


def bpe_plain(h):
    """a model that does not mark the beginning of the word"""
    m = Models(h)
    word = h.str('a', 3, 'ab')
    pieces = _cut(h, 'cut', word)
    m.add(word, pieces)
    _compare(h, _segmenter(h, 'bpe').segment(word), pieces, word)


def bpe_nothing(h):
    """characters that the model drops"""
    m = Models(h)
    word = h.choice('w', ['\u200b', '\ufeff', '\u3000'])
    m.add(word, [MARK] if h.bool('mark') else [])
    r = h.call(lambda: list(_segmenter(h, 'bpe').segment(word)))
    h.check('no pieces', r.ok and r.value == [], [r.error])


def morfessor(h, n):
    m = Models(h)
    word = h.str('w', n, 'abЖ')
    pieces = _cut(h, 'cut', word)
    m.add(word, pieces)
    _compare(h, _segmenter(h, 'morfessor').segment(word), pieces, word)


def long(h, kind):
    """a word of many pieces, or of few long ones"""
    m = Models(h)
    word = 'строительство' * 10
    at = h.choice('at', [0, 64, 129])
    word = word[:at] + h.str('w', 1, 'aЖ') + word[at + 1:]
    seen = MARK + word if kind == 'bpe' else word
    k = h.choice('piece', [1, 3, 70, 200]) if kind != 'char' else 1
    pieces = [seen[i:i + k] for i in range(0, len(seen), k)]
    m.add(word, pieces)
    _compare(h, _segmenter(h, kind).segment(word), _unmarked(pieces) if kind == 'bpe' else pieces, word)


def morfessor_inner(h):
    """pieces of any characters, white space and marks too"""
    m = Models(h)
    word = 'a' + h.str('b', 1, 'b' + MARK + '  ') + h.str('c', 1, 'c ' + MARK)
    pieces = _cut(h, 'cut', word)
    m.add(word, pieces)
    _compare(h, _segmenter(h, 'morfessor').segment(word), pieces, word)


def char(h, n):
    word = h.str('w', n, 'abЖ' + MARK)
    _compare(h, _segmenter(h, 'char').segment(word), [word[i:i + 1] for i in range(n)], word)


def models(h):
    """the configured model is loaded"""
    m = Models(h)
    ex = h.mod('features.extractors')
    size = h.int('size', 1, 100000)
    lang = h.str('lang', 2, 'ruen')
    path = '/models/' + lang
    how = h.choice('how', ['chars', 'lemma', 'direct'])
    kind = h.choice('kind', ['bpe', 'morfessor'])
    config = {'language': lang, 'vocab_size': size} if kind == 'bpe' else {'path': path}
    if how == 'direct':
        (ex.TokenBPESegmenter if kind == 'bpe' else ex.TokenMorfessorSegmenter)(**config)
    elif how == 'chars':
        ex.TokenCharactersFeatureExtractorBuilder('f', {'min_frequency': 1, 'segmenter': kind, 'segmenter_config': config}).build([])
    else:
        ex.LemmaCharFeatureExtractorBuilder('f', {'min_frequency': 1, 'max_word_length': 9, 'segmenter': kind, 'segmenter_config': config}).build([])
    h.check('loaded', len(m.loaded) > 0)
    for k in m.loaded:
        if kind == 'bpe':
            h.check('model of the configuration', h.all([h.same(k.get('lang'), lang), h.same(k.get('vs'), size)]), [k])
        else:
            h.check('model of the configuration', h.same(k.get('path'), path), [k])


def again(h):
    """segmenting has no memory"""
    m = Models(h)
    kind = h.choice('kind', ['bpe', 'morfessor', 'char'])
    words = [h.str('w%d' % i, 2, 'ab') for i in range(2)]
    h.assume(words[0] != words[1])
    want = []
    for i, w in enumerate(words):
        pieces = _cut(h, 'cut%d_' % i, MARK + w if kind == 'bpe' else w)
        if kind == 'char':
            pieces = [w[:1], w[1:]]
        m.add(w, pieces)
        want.append(_unmarked(pieces) if kind == 'bpe' else pieces)
    s = _segmenter(h, kind)
    for i in (0, 1, 0, 0, 1):
        h.check('same pieces again', h.same(list(s.segment(words[i])), want[i]))


def _data(h, kind, words, m, lemmas=False):
    """a document of these words, their pieces"""
    dm = h.mod('datamodel')
    text, toks, want = '', [], []
    for i, w in enumerate(words):
        pieces = _cut(h, 'cut%d_' % i, MARK + w if kind == 'bpe' else w)
        m.add(w, pieces)
        want.append(_unmarked(pieces) if kind == 'bpe' else pieces)
        n = 1 if lemmas else len(w)
        toks.append(dm.Token(len(text), len(text) + n, None, w) if lemmas else dm.Token(len(text), len(text) + n))
        text = text + ('x' if lemmas else w) + ' '
    return dm.Document(text, toks), want


def _config(kind):
    return {'language': 'en', 'vocab_size': 1000} if kind == 'bpe' else {'path': '/some/model'}


def _numbers(h, doc, ext, want, known, first=4):
    """equal pieces have equal numbers, different ones different numbers; unknown pieces the one of unknown pieces"""
    seen = []
    for got, pieces in zip([ext.get_features(t)['f'] for t in doc.tokens], want):     # all of them at once, as in a batch
        h.check('framed', len(got) == len(pieces) + 2 and got[0] == START and got[-1] == END, [got, pieces])
        for x, p in zip(got[1:-1], pieces):
            if known(p):
                h.check('own pieces', x >= first, [got, pieces])
                for y, q in seen:
                    h.check('own pieces', h.iff(x == y, h.same(p, q)), [got, pieces])
                seen.append((x, p))
            else:
                h.check('own pieces', x == UNKNOWN, [got, pieces])
    return seen


def vocabulary(h, kind):
    m = Models(h)
    ex = h.mod('features.extractors')
    words = ['ab', h.str('w', 2, 'ab')]
    h.assume(words[1] != 'ab')
    threshold = h.choice('threshold', [1, 2])
    doc, want = _data(h, kind, words, m)
    ext, _, init = ex.TokenCharactersFeatureExtractorBuilder('f', {'min_frequency': threshold, 'segmenter': kind, 'segmenter_config': _config(kind)}).build([doc])
    pieces = [p for w in want for p in w]
    seen = _numbers(h, doc, ext, want, lambda p: len([q for q in pieces if q == p]) >= threshold)
    numbers = []
    for x, _ in seen:
        if x not in numbers:
            numbers.append(x)
    h.check('sizes', init.shapes()['f'] == [len(numbers) + 4] and all([4 <= x < len(numbers) + 4 for x in numbers]), [init.shapes(), numbers])


def vectors(h, kind):
    m = Models(h)
    ex = h.mod('features.extractors')
    path = h.file('pieces', 'a 1 2\nab 3 4\nba 5 6\n')
    words = ['ab', h.str('w', 2, 'ab')]
    h.assume(words[1] != 'ab')
    doc, want = _data(h, kind, words, m)
    ext, _, init = ex.SubwordEmbeddingFeatureExtractorBuilder('f', 'i', {'embedding_path': path, 'segmenter': kind, 'segmenter_config': _config(kind)}).build([])
    seen = _numbers(h, doc, ext, want, lambda p: p in ('a', 'ab', 'ba'))
    rows = {}
    for i, v in init.initial_values()['i']:
        rows[i] = list(v)
    vec = {'a': [1, 2], 'ab': [3, 4], 'ba': [5, 6]}
    for x, p in seen:
        h.check('own vector', all([rows[x] == v for k, v in vec.items() if k == p]), [rows, p])


def lemma(h, kind):
    """labels of pieces decode to the lemma"""
    m = Models(h)
    ex = h.mod('features.extractors')
    words = [h.str('w', 2, 'ab'), 'bab']
    doc, want = _data(h, kind, words, m, lemmas=True)
    ext, interpreter, init = ex.LemmaCharFeatureExtractorBuilder('f', {'min_frequency': 1, 'max_word_length': 5, 'segmenter': kind,
                                                                       'segmenter_config': _config(kind)}).build([doc])
    for t, w, pieces, got in zip(doc.tokens, words, want, [ext.get_features(t)['f'] for t in doc.tokens]):
        h.check('length', len(got) == 5, [got])
        h.check('framed', got[0] == START and got[len(pieces) + 1] == END and all([x == 0 for x in got[len(pieces) + 2:]]), [got])
        h.check('lemma again', h.same(interpreter.interpret(t, {'f': got}).lemma, w), [got])


def nothing(h, what):
    """a word without pieces is just framed"""
    m = Models(h)
    ex = h.mod('features.extractors')
    dm = h.mod('datamodel')
    empty = h.choice('w', ['\u200b', '\ufeff'])
    m.add(empty, [])
    m.add('ab', [MARK + 'ab'])
    if what == 'lemma':
        doc = dm.Document('a b', [dm.Token(0, 1, None, empty), dm.Token(2, 3, None, 'ab')])
    else:
        doc = dm.Document(empty + ' ab', [dm.Token(0, 1), dm.Token(2, 4)])
    c = {'segmenter': 'bpe', 'segmenter_config': _config('bpe'), 'min_frequency': 1, 'max_word_length': 4}
    if what == 'chars':
        b = ex.TokenCharactersFeatureExtractorBuilder('f', c)
    elif what == 'lemma':
        b = ex.LemmaCharFeatureExtractorBuilder('f', c)
    else:
        c['embedding_path'] = h.file('pieces', 'a 1 2\nab 3 4\n')
        b = ex.SubwordEmbeddingFeatureExtractorBuilder('f', 'i', c)
    ext = b.build([doc])[0]
    got = [ext.get_features(t)['f'] for t in doc.tokens]
    number = 5 if what == 'vectors' else 4
    pad = [0] if what == 'lemma' else []
    h.check('framed', got == [[START, END] + pad + pad, [START, number, END] + pad], [got])
