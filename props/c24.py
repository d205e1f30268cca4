"""C24 word and character features index exactly the vocabulary"""
BOUNDS = {'embedding file': '1 to 3 arbitrary words of 1 or 2 characters, 12 or 300 fixed ones; 1 to 3 dimensions, with and without header',
          'training': '1 to 4 words of 1 or 2 characters, 10 and 200 in the large cases, 130 different characters', 'thresholds': '0 to 3', 'words looked up': '1 to 3 characters, both cases'}
ASSUMPTIONS = ['the embedding file has a word and its numbers in every line, separated by white space; without a header vectors have more than one dimension',
               'words of the file contain no white space']

UNKNOWN, START, END = 1, 2, 3


def cases(tier):
    out = []
    for n in (1, 2, 3):
        for header in (False, True):
            out.append(('file%d%s' % (n, '_header' if header else ''), 'words_file', {'n': n, 'header': header},
                        ['own number', 'looked up', 'own vector', 'zero row']))
    out += [('file_case', 'file_case', {}, ['looked up']), ('letters', 'letters', {}, ['looked up']), ('file_digits', 'file_digits', {}, ['own vector']),
            ('file_many', 'file_many', {}, ['own number', 'own vector', 'looked up']), ('trained_many', 'trained_many', {}, ['looked up']), ('chars_many', 'chars_many', {}, ['framed characters']), ('file_large', 'file_large', {}, ['own number', 'own vector']),
            ('file_sizes', 'file_sizes', {}, ['refused', 'accepted']), ('file_twice', 'file_twice', {}, ['rows again']),
            ('file_one', 'file_one', {}, ['own vector']), ('file_multiword', 'file_multiword', {}, ['looked up'])]
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for low in (False, True):
            out.append(('trained%d%s' % (n, '_lower' if low else ''), 'trained', {'n': n, 'low': low}, ['looked up']))
    out += [('trained_threshold', 'trained_threshold', {}, ['looked up']), ('trained_large', 'trained_large', {}, ['looked up']),
            ('trained_multiword', 'trained_multiword', {}, ['looked up'])]
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        out.append(('chars%d' % n, 'chars', {'n': n}, ['framed characters']))
    out += [('chars_threshold', 'chars_threshold', {}, ['framed characters']), ('chars_large', 'chars_large', {}, ['framed characters']),
            ('no_words', 'no_words', {}, ['looked up', 'zero row']), ('subwords', 'subwords', {}, ['framed characters', 'own vector', 'zero row']), ('segmenter', 'segmenter', {}, ['refused'])]
    return out


def _words(dm, texts, split=None):
    """documents of these words, the words"""
    split = len(texts) if split is None else split
    docs = []
    for part in (texts[:split], texts[split:]):
        text, toks = '', []
        for w in part:
            toks.append(dm.Token(len(text), len(text) + len(w)))
            text = text + w + ' '
        if toks:
            docs.append(dm.Document(text, toks))
    return docs, [t for d in docs for t in d.tokens]


def _file(h, entries, header=None):
    path = h.path('emb/vectors.txt')
    text = header + '\n' if header else ''
    for w, vec in entries:
        text = text + w + ' ' + ' '.join(vec) + '\n'
    h.dir('emb')
    h.file('emb/vectors.txt', text)
    return path


def _embeddings(h, path, low=False):
    ex = h.mod('features.extractors')
    return ex.WordEmbeddingFeatureExtractorBuilder('f', 'init', path, low).build([])


def _vocabulary(h, words, ext, size, reserved=2):
    """the words of the vocabulary have the numbers after the reserved ones"""
    numbers = [ext.get_features(w)['f'] for w in words]
    h.check('own number', sorted(numbers) == list(range(reserved, reserved + len(words))) and size == reserved + len(words), [numbers, size])
    return numbers


def _rows(h, init, numbers, vectors, size, dim):
    shape = init.shapes()['init']
    h.check('shape', list(shape) == [size, dim], [shape])
    rows = list(init.initial_values()['init'])
    h.check('a row for every word and padding', len(rows) == len(numbers) + 1, [rows])
    h.check('zero row', len([r for r in rows if r[0] == 0]) == 1 and [list(r[1]) for r in rows if r[0] == 0][0] == [0] * dim, [rows])
    for n, vec in zip(numbers, vectors):
        mine = [r for r in rows if r[0] == n]
        h.check('own vector', len(mine) == 1 and list(mine[0][1]) == [float(x) for x in vec], [mine, vec])


VECTORS = [['0.5', '-1', '2e-1'], ['1.25', '0', '3'], ['-0.75', '4', '0.1']]


def _distinct(h, words):
    for i in range(len(words)):
        for j in range(i):
            h.assume(h.not_(h.same(words[i], words[j])))


def words_file(h, n, header):
    dm = h.mod('datamodel')
    dim = h.choice('dim', [1, 2, 3] if header else [2, 3])
    words = [h.str('w%d' % i, h.choice('n%d' % i, [1, 2]), 'abЯ') for i in range(n)]
    _distinct(h, words)
    vectors = [v[:dim] for v in VECTORS[:n]]
    path = _file(h, list(zip(words, vectors)), '%d %d' % (n, dim) if header else None)
    ext, interp, init = _embeddings(h, path)
    _, toks = _words(dm, words)
    numbers = _vocabulary(h, toks, ext, n + 2)
    _rows(h, init, numbers, vectors, n + 2, dim)
    other = h.str('other', h.choice('no', [1, 2]), 'abя')
    _, (t,) = _words(dm, [other])
    got = ext.get_features(t)
    h.check('one feature', list(got) == ['f'])
    known = [m for w, m in zip(words, numbers) if other == w]
    h.check('looked up', got['f'] == (known[0] if known else UNKNOWN), [got, known])
    h.check('words stay as they are', interp.interpret(t, {}) is t)


def no_words(h):
    """a file of a header alone"""
    dm = h.mod('datamodel')
    dim = h.choice('dim', [1, 3])
    ext, _, init = _embeddings(h, _file(h, [], '0 %d' % dim), h.bool('low'))
    _rows(h, init, [], [], 2, dim)
    _, (t,) = _words(dm, [h.str('word', 1, 'aB')])
    h.check('looked up', ext.get_features(t)['f'] == UNKNOWN)


def file_case(h):
    """lower-casing exactly on request: the file is taken as it is"""
    dm = h.mod('datamodel')
    low = h.bool('low')
    words = ['ab', 'Ab', 'жа', 'ЖА', 'B']
    ext, _, init = _embeddings(h, _file(h, [(w, VECTORS[i % 3]) for i, w in enumerate(words)]), True if low else False)
    order = [r[0] for r in init.initial_values()['init']]
    word = h.str('word', 2, 'aAbжЖ')
    rows = list(init.initial_values()['init'])
    _, (t,) = _words(dm, [word])
    got = ext.get_features(t)['f']
    key = word.lower() if low else word
    known = [i + 2 for i, w in enumerate(words) if key == w]
    h.check('looked up', got == (known[0] if known else UNKNOWN), [got, known])
    one = h.str('one', 1, 'bBж')
    _, (t,) = _words(dm, [one])
    got = ext.get_features(t)['f']
    h.check('looked up', got == (6 if one == 'B' and not low else UNKNOWN), [got])


def letters(h):
    """lower-casing is not folding: letters whose folded form is another one"""
    dm = h.mod('datamodel')
    low = h.bool('low')
    words = ['straße', 'strasse', 'σ', 'ς', 's', 'ſ', 'ẞ', 'ß', 'ss', 'e', 'ë', 'е', 'ё']
    word = h.choice('word', ['Straße', 'STRASSE', 'Σ', 'ς', 'ſ', 'ẞ', 'SS', 'Ë', 'Ё', 'Е', 'E'])
    key = word.lower() if low else word
    if h.bool('file'):
        ext, _, init = _embeddings(h, _file(h, [(w, VECTORS[i % 3]) for i, w in enumerate(words)]), True if low else False)
        _, (t,) = _words(dm, [word])
        h.check('looked up', ext.get_features(t)['f'] == (words.index(key) + 2 if key in words else UNKNOWN))
    else:
        texts = words + [word]
        ext, init, toks = _train(h, texts, 1, True if low else False, 5)
        _check_trained(h, ext, init, toks, texts, 1, True if low else False, [])


def file_digits(h):
    """vectors are exactly the numbers of the file"""
    dm = h.mod('datamodel')
    vectors = [['0.123456789012', '-0.000012345', '1e-07'], ['123456.789', '-1.5E+3', '.5'], ['-0.0000001', '+2', '7.']]
    k = h.choice('first', [0, 1, 2])
    vectors = vectors[k:] + vectors[:k]
    words = [h.str('w', 1, 'ab'), 'c', '0.5']
    ext, _, init = _embeddings(h, _file(h, list(zip(words, vectors)), '3 3' if h.bool('header') else None))
    _, toks = _words(dm, words)
    _rows(h, init, _vocabulary(h, toks, ext, 5), vectors, 5, 3)


def file_many(h):
    """many words"""
    dm = h.mod('datamodel')
    words = ['w%d' % i for i in range(300)]
    at = h.choice('at', [0, 150, 299])
    words[at] = h.str('w', 2, 'яz')
    vectors = [['%d.5' % i, '-%d' % i] for i in range(300)]
    ext, _, init = _embeddings(h, _file(h, list(zip(words, vectors)), '300 2' if h.bool('header') else None))
    _, toks = _words(dm, words)
    numbers = _vocabulary(h, toks, ext, 302)
    rows = dict([(r[0], list(r[1])) for r in init.initial_values()['init']])
    h.check('own vector', len(rows) == 301 and rows[0] == [0, 0] and all([rows[n] == [float(x) for x in v] for n, v in zip(numbers, vectors)]))
    _, (t,) = _words(dm, ['W12'])
    h.check('looked up', ext.get_features(t)['f'] == UNKNOWN)


def trained_many(h):
    """many words, and one very long one"""
    texts = ['w%d' % i for i in range(200)] + ['w%d' % i for i in range(0, 200, 7)] + ['donau' * 20, 'Donau' * 20]
    texts.insert(h.choice('at', [0, 229]), h.str('w', 1, 'ab'))
    threshold = h.choice('threshold', [1, 2])
    low = True if h.bool('low') else False
    ext, init, toks = _train(h, texts, threshold, low, 100)
    forms = [t.lower() if low else t for t in texts]
    counts = {}
    for f in forms:
        counts[f] = counts.get(f, 0) + 1
    known = [f for f in counts if counts[f] >= threshold]
    h.check('size', list(init.shapes()['f']) == [len(known) + 2])
    numbers = {}
    for f, t in zip(forms, toks):
        v = ext.get_features(t)['f']
        if f in known:
            h.check('looked up', numbers.setdefault(f, v) == v and v > 1, [f, v])
        else:
            h.check('looked up', v == UNKNOWN, [f, v])
    h.check('own number', sorted(numbers.values()) == list(range(2, 2 + len(known))))


def chars_many(h):
    """many characters, in words of up to 130"""
    dm = h.mod('datamodel')
    al = ''.join([chr(c) for c in range(0x410, 0x450)]) + ''.join([chr(c) for c in range(33, 97)])
    texts = [al, al[:70], h.str('w', 1, 'Яяa')]
    threshold = h.choice('threshold', [1, 2])
    docs, toks = _words(dm, texts, 2)
    ext, _, init = _char_builder(h, threshold, docs)
    numbers, vocabulary = _characters(h, toks, ext, init, texts, threshold)
    h.check('own number', sorted(numbers.values()) == list(range(4, 4 + len(vocabulary))), [numbers])


def file_large(h):
    dm = h.mod('datamodel')
    base = ['the', 'a', '.', ',', 'дом', 'Дом', 'x1', '1', '0.5', "n't", '#', '_']
    words = list(base)
    words[h.choice('at', [0, 5, 11])] = h.str('w', 2, 'яz')
    vectors = [[str(i), '0.%d' % i] for i in range(12)]
    ext, _, init = _embeddings(h, _file(h, list(zip(words, vectors)), '12 2' if h.bool('header') else None))
    _, toks = _words(dm, words)
    numbers = _vocabulary(h, toks, ext, 14)
    _rows(h, init, numbers, vectors, 14, 2)


def file_sizes(h):
    """vectors of another size than the header or the first one are refused"""
    sizes = [h.choice('s%d' % i, [1, 2, 3]) for i in range(3)]
    head = h.choice('header', [None, 2, 3])
    if head is None and sizes[0] == 1:
        sizes[0] = 2
    words = [h.str('w0', 1, 'ab'), 'c', 'd']
    path = _file(h, [(w, VECTORS[i][:s]) for i, (w, s) in enumerate(zip(words, sizes))], None if head is None else '3 %d' % head)
    dim = sizes[0] if head is None else head
    r = h.call(lambda: _embeddings(h, path))
    if all([s == dim for s in sizes]):
        h.check('accepted', r.ok, [r.error])
    else:
        h.check('refused', r.error == 'ValueError', [r.error])


def file_twice(h):
    """rows are delivered on every request"""
    ext, _, init = _embeddings(h, _file(h, [(h.str('w', 1, 'ab'), VECTORS[0]), ('c', VECTORS[1])]))
    one = [(r[0], list(r[1])) for r in init.initial_values()['init']]
    two = [(r[0], list(r[1])) for r in init.initial_values()['init']]
    h.check('rows again', sorted(one) == sorted(two) and len(one) == 3, [one, two])
    h.check('shape', list(init.shapes()['init']) == [4, 3])


def file_one(h):
    """one word, any layout of white space"""
    dm = h.mod('datamodel')
    w = h.str('w', 1, 'ab')
    h.dir('emb')
    h.file('emb/vectors.txt', w + h.choice('gap', [' ', '\t', '  ']) + '0.5' + h.choice('gap2', [' ', '\t']) + '1' + h.choice('end', ['\n', '', ' \n']))
    ext, _, init = _embeddings(h, h.path('emb/vectors.txt'))
    _, (t,) = _words(dm, [w])
    numbers = _vocabulary(h, [t], ext, 3)
    _rows(h, init, numbers, [['0.5', '1']], 3, 2)


def _multiword(h, dm, first, second):
    return list(dm.Document('xyz', [dm.Token(0, 2, sub_index=0, text_replacement=first), dm.Token(0, 2, sub_index=1, text_replacement=second), dm.Token(2, 3)]).tokens)


def file_multiword(h):
    """the words of a multiword token are looked up by their own forms"""
    dm = h.mod('datamodel')
    low = h.bool('low')
    ext, _, init = _embeddings(h, _file(h, [(w, VECTORS[0]) for w in ('xy', 'a', 'b', 'z')]), low)
    a, b = h.str('a', 1, 'abqB'), h.str('b', 1, 'abzZ')
    toks = _multiword(h, dm, a, b)
    want = [[2 + ['xy', 'a', 'b', 'z'].index(w)] if w in ['xy', 'a', 'b', 'z'] else [UNKNOWN] for w in [x.lower() if low else x for x in (str(a), str(b), 'z')]]
    got = [[ext.get_features(t)['f']] for t in toks]
    h.check('looked up', got == want, [got, want])


def _train(h, texts, threshold, low, split=None):
    dm = h.mod('datamodel')
    ex = h.mod('features.extractors')
    docs, toks = _words(dm, texts, split)
    ext, interp, init = ex.TrainableEmbeddingsExtractorBuilder('f', threshold, low).build(docs)
    return ext, init, toks


def _check_trained(h, ext, init, toks, texts, threshold, low, extra):
    """words at least as frequent as the threshold have numbers of their own, others are unknown"""
    forms = [t.lower() if low else t for t in texts]
    vocabulary = []
    for f in forms:
        if len([1 for g in forms if g == f]) >= threshold and not any([v == f for v in vocabulary]):
            vocabulary.append(f)
    size = init.shapes()['f']
    h.check('size', list(size) == [len(vocabulary) + 2], [size])
    numbers = {}
    for t, got in [(t, ext.get_features(t)) for t in toks + extra]:     # all of them at once, as in a batch
        h.check('one feature', list(got) == ['f'])
        got = got['f']
        f = t.text.lower() if low else t.text
        mine = [i for i, v in enumerate(vocabulary) if v == f]
        if mine:
            numbers.setdefault(mine[0], got)
            h.check('looked up', h.all([got == numbers[mine[0]], got > 1]), [got])
        else:
            h.check('looked up', got == UNKNOWN, [got])
    h.check('own number', sorted(numbers.values()) == list(range(2, 2 + len(vocabulary))), [numbers])


def trained(h, n, low):
    dm = h.mod('datamodel')
    texts = [h.str('w%d' % i, h.choice('n%d' % i, [1, 2] if n < 4 else [1]), 'aA' if i else 'aЖж') for i in range(n)]
    threshold = h.choice('threshold', [0, 1, 2])
    ext, init, toks = _train(h, texts, threshold, low, 1)
    _, extra = _words(dm, [h.str('new', 1, 'aBж')])
    _check_trained(h, ext, init, toks, texts, threshold, low, extra)


def trained_threshold(h):
    texts = ['b'] * h.choice('nb', [1, 2, 3]) + ['Aa', 'aA'] + ['aa'] * h.choice('na', [0, 1, 2]) + [h.str('w', 1, 'bcB')]
    low = True if h.bool('low') else False
    threshold = h.choice('threshold', [0, 1, 2, 3, 4])
    ext, init, toks = _train(h, texts, threshold, low, 3)
    _check_trained(h, ext, init, toks, texts, threshold, low, [])


def trained_large(h):
    texts = ['the', 'cat', 'The', 'dog', 'дом', 'Дом', '.', ',', 'a', 'A', 'cat']
    texts.insert(h.choice('at', [0, 6, 11]), h.str('w', 1, 'aAб'))
    low = True if h.bool('low') else False
    threshold = h.choice('threshold', [1, 2, 3])
    ext, init, toks = _train(h, texts, threshold, low, 5)
    _check_trained(h, ext, init, toks, texts, threshold, low, [])


def trained_multiword(h):
    dm = h.mod('datamodel')
    ex = h.mod('features.extractors')
    a = h.str('a', 1, 'abzB')
    low = h.bool('low')
    toks = _multiword(h, dm, a, 'b')
    docs = [dm.Document('xyz', toks)]
    ext, _, init = ex.TrainableEmbeddingsExtractorBuilder('f', 1, low).build(docs)
    _check_trained(h, ext, init, toks, [a, 'b', 'z'], 1, low, _words(dm, [h.str('new', 2, 'xy')])[1])


def _characters(h, toks, ext, init, texts, threshold, name='f', known=None):
    """the numbers of the characters, framed; known: numbers given elsewhere"""
    text = [c for w in texts for c in w]
    vocabulary = []
    if known is None:
        for c in text:
            if len([1 for d in text if d == c]) >= threshold and not any([v == c for v in vocabulary]):
                vocabulary.append(c)
        size = init.shapes()[name]
        h.check('size', list(size) == [len(vocabulary) + 4], [size])
    else:
        vocabulary = known
    numbers = {}
    for t, got in [(t, ext.get_features(t)) for t in toks]:
        h.check('one feature', list(got) == [name])
        got = got[name]
        w = t.text
        h.check('framed characters', len(got) == len(w) + 2 and got[0] == START and got[-1] == END, [got])
        for c, x in zip(w, got[1:-1]):
            mine = [i for i, v in enumerate(vocabulary) if v == c]
            if mine:
                numbers.setdefault(mine[0], x)
                h.check('own character', h.all([x == numbers[mine[0]], x > 3]), [got])
            else:
                h.check('unknown character', x == UNKNOWN, [got])
    return numbers, vocabulary


def _char_builder(h, threshold, docs):
    ex = h.mod('features.extractors')
    return ex.TokenCharactersFeatureExtractorBuilder('f', {'min_frequency': threshold, 'segmenter': 'char'}).build(docs)


def chars(h, n):
    dm = h.mod('datamodel')
    texts = [h.str('w%d' % i, h.choice('n%d' % i, [1, 2] if n < 3 else [1]), 'aAж') for i in range(n)]
    threshold = h.choice('threshold', [0, 1, 2])
    docs, toks = _words(dm, texts, 1)
    ext, _, init = _char_builder(h, threshold, docs)
    _, extra = _words(dm, [h.str('new', 2, 'aЖ')])
    numbers, vocabulary = _characters(h, toks + extra, ext, init, texts, threshold)
    h.check('own number', sorted(numbers.values()) == list(range(4, 4 + len(vocabulary))), [numbers])


def chars_threshold(h):
    dm = h.mod('datamodel')
    texts = ['abba', h.str('w', 2, 'abc'), 'c' * h.choice('c', [1, 2]), 'b']
    threshold = h.choice('threshold', [1, 2, 3, 4])
    docs, toks = _words(dm, texts, 2)
    ext, _, init = _char_builder(h, threshold, docs)
    numbers, vocabulary = _characters(h, toks, ext, init, texts, threshold)
    h.check('own number', sorted(numbers.values()) == list(range(4, 4 + len(vocabulary))), [numbers])


def chars_large(h):
    dm = h.mod('datamodel')
    texts = ['Преобразование', 'the', 'cat', '.', '—', "don't", '2019', h.str('w', 2, 'яT9')]
    threshold = h.choice('threshold', [1, 2])
    docs, toks = _words(dm, texts, 4)
    ext, _, init = _char_builder(h, threshold, docs)
    numbers, vocabulary = _characters(h, toks, ext, init, texts, threshold)
    h.check('own number', sorted(numbers.values()) == list(range(4, 4 + len(vocabulary))), [numbers])


def subwords(h):
    """embeddings of characters from a file"""
    dm = h.mod('datamodel')
    ex = h.mod('features.extractors')
    chars = [h.str('c0', 1, 'ab'), h.str('c1', 1, 'bЖ'), 'x']
    _distinct(h, chars)
    dim = h.choice('dim', [2, 3])
    vectors = [v[:dim] for v in VECTORS]
    path = _file(h, list(zip(chars, vectors)), '3 %d' % dim if h.bool('header') else None)
    ext, _, init = ex.SubwordEmbeddingFeatureExtractorBuilder('f', 'init', {'embedding_path': path, 'segmenter': 'char'}).build([])
    _, toks = _words(dm, [chars[0] + chars[1] + 'x', h.str('new', 2, 'aЖж')])
    numbers, _ = _characters(h, toks, ext, init, [], 0, known=chars)
    h.check('own number', sorted(numbers.values()) == [4, 5, 6], [numbers])
    _rows(h, init, [numbers[i] for i in range(3)], vectors, 7, dim)


def segmenter(h):
    ex = h.mod('features.extractors')
    dm = h.mod('datamodel')
    name = h.choice('s', ['words', '', 'CHAR'])
    if h.bool('embeddings'):
        b = ex.SubwordEmbeddingFeatureExtractorBuilder('f', 'init', {'embedding_path': _file(h, [('a', VECTORS[0])]), 'segmenter': name})
    else:
        b = ex.TokenCharactersFeatureExtractorBuilder('f', {'min_frequency': 1, 'segmenter': name})
    r = h.call(lambda: b.build(_words(dm, ['a'])[0]))
    h.check('refused', r.error == 'ValueError', [r.error])
