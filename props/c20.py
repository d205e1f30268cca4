"""C20 the rule index returns exactly the rules that fit a word"""
BOUNDS = {'rules': 'up to 4 arbitrary rules with suffixes of 0 to 2 characters, or 6 fixed ones of 0 to 4, or up to 4 of 6 to 33, or 25 of 1 to 12', 'words': '0 to 4 characters; longer ones with one or two arbitrary characters',
          'training': 'up to 4 words of 2 to 3 characters, thresholds 0 to 2; 131 different rules in the large case'}
ASSUMPTIONS = ['rules of one index are pairwise different']


def cases(tier):
    out = []
    for sh in ([0], [1], [2], [1, 1], [0, 2], [2, 1], [2, 2], [1, 1, 2]) + (([2, 2, 2], [0, 1, 2, 1], [3, 2, 1]) if tier == 'thorough' else ()):
        for n in (0, 1, 2, 3):
            out.append(('rules%s_word%d' % ('_'.join(map(str, sh)), n), 'index', {'shape': sh, 'n': n}, ['exactly the fitting rules']))
    out += [('fixed', 'fixed', {}, ['exactly the fitting rules']), ('long', 'long', {}, ['exactly the fitting rules']),
            ('many', 'many', {}, ['exactly the fitting rules']), ('vector_many', 'vector_many', {}, ['own rule marked', 'marks']), ('known', 'known', {}, ['own rule found']),
            ('known_whole', 'known_whole', {}, ['own rule found']), ('vector', 'vector', {'words': 3}, ['own rule marked', 'marks']),
            ('vector_threshold', 'vector_threshold', {}, ['marks']), ('vector_shared', 'vector_shared', {}, ['same numbers'])]
    if tier == 'thorough':
        out.append(('vector4', 'vector', {'words': 4}, ['own rule marked', 'marks']))
    return out


def _fits(h, rule, word):
    """whole-word rules fit that word only, suffix rules fit longer words with that ending"""
    s, n = rule.word_suffix, len(word)
    k = len(s)
    whole = h.same(s, word)
    proper = k < n and h.same(word[n - k:], s)
    return h.ite(rule.is_regular, proper, whole)


def _check(h, trie, rules, word):
    got = trie.get_applicable_rules(word)
    for i, (r, num) in enumerate(rules):
        hits = [g for g in got if g[1] == num]
        h.check('exactly the fitting rules', h.iff(len(hits) == 1, _fits(h, r, word)) if len(hits) < 2 else False, [got])
        h.check('its own rule', h.all([g[0] == r for g in hits]))
    h.check('nothing else', all([any([g[1] == num for _, num in rules]) for g in got]), [got])


def index(h, shape, n):
    lr = h.mod('lemmas.transformation_rules')
    rules = []
    for i, k in enumerate(shape):
        rules.append((lr.LemmaSuffixTransformation(h.str('suffix%d' % i, k, 'abA'), 'x%d' % i, h.bool('whole%d' % i)), 7 - 2 * i))
    trie = lr.LemmaTransformationTrie.build(iter(rules))
    word = h.str('word', n, 'abcA')
    _check(h, trie, rules, word)


FIXED = [('', '', False), ('а', 'й', False), ('ла', '', False), ('ела', 'ть', False), ('бела', 'бел', True), ('а', 'б', True), ('', 'q', True)]


def fixed(h):
    lr = h.mod('lemmas.transformation_rules')
    rules = [(lr.LemmaSuffixTransformation(*FIXED[i]), i) for i in range(len(FIXED))]
    if h.bool('reverse'):
        rules = rules[::-1]
    trie = lr.LemmaTransformationTrie.build(rules)
    n = h.choice('n', [0, 1, 2, 3, 4, 5])
    word = h.str('word', n, 'аблeе') if n < 4 else 'ддддд'[:n - 4] + h.str('word', 4, 'абле')
    _check(h, trie, rules, word)


def long(h):
    """long suffixes that differ in one place, and the empty one"""
    lr = h.mod('lemmas.transformation_rules')
    k = h.choice('length', [6, 9, 17, 33])
    base = ('подразумеваемость' * 2)[-k:]
    at = h.choice('at', [0, 1, k // 2, k - 1])
    suffix = base[:at] + h.str('different', 1, 'xю' + base[at]) + base[at + 1:]
    rules = [(lr.LemmaSuffixTransformation(base, 'x', h.bool('whole')), 3), (lr.LemmaSuffixTransformation(base[1:], 'ть', False), 2),
             (lr.LemmaSuffixTransformation('', '', False), 5)]
    if not h.same(suffix, base):
        rules.append((lr.LemmaSuffixTransformation(suffix, 'y', h.bool('other whole')), 0))
    trie = lr.LemmaTransformationTrie.build(rules)
    words = {'itself': base, 'the other': suffix, 'longer': 'пре' + suffix, 'shorter': suffix[1:]}
    _check(h, trie, rules, words[h.choice('word', sorted(words))])


def many(h):
    """many rules at one place and many places"""
    lr = h.mod('lemmas.transformation_rules')
    suffixes = ['ab'] * 12 + ['b'] * 3 + ['a' * i + 'b' for i in range(2, 12)]
    rules = [(lr.LemmaSuffixTransformation(s, 'q%d' % i, i % 5 == 4), 100 - i) for i, s in enumerate(suffixes)]
    trie = lr.LemmaTransformationTrie.build(iter(rules))
    n = h.choice('n', [0, 1, 2, 3, 7, 11, 12])
    _check(h, trie, rules, h.str('first', 2, 'abж')[2 - min(n, 2):] + 'a' * max(n - 3, 0) + h.str('last', 1, 'bж')[:max(0, n - 2)])


def known(h):
    """the rule of a known pair is found for its word"""
    lr = h.mod('lemmas.transformation_rules')
    T = lr.LemmaSuffixTransformation
    n, m = h.choice('n', [1, 2, 3]), h.choice('m', [0, 1, 2, 3])
    word, lemma = h.str('word', n, 'abж'), h.str('lemma', m, 'abж')
    r = T.get_rule(word, lemma)
    others = [T('b', 'q'), T('', 'z'), T('ab', 'ba', True)]
    rules = [(r, 0)] + [(o, 1 + i) for i, o in enumerate(others) if not r == o]
    trie = lr.LemmaTransformationTrie.build(rules)
    got = trie.get_applicable_rules(word)
    h.check('own rule found', h.total([g[1] == 0 for g in got]) == 1, [got])
    h.check('and yields the lemma', h.all([h.same(g[0].transform(word), lemma) for g in got if g[1] == 0]))


def known_whole(h):
    """two words, one an ending of the other"""
    lr = h.mod('lemmas.transformation_rules')
    T = lr.LemmaSuffixTransformation
    a = h.str('a', 1, 'ab')
    b = h.str('b', 1, 'ab') + a
    ra, rb = T.get_rule(a, h.str('la', 1, 'abx')), T.get_rule(b, h.str('lb', 2, 'abx'))
    rules = [(ra, 0), (rb, 1)] if not ra == rb else [(ra, 0)]
    trie = lr.LemmaTransformationTrie.build(rules)
    h.check('own rule found', h.total([g[0] == ra for g in trie.get_applicable_rules(a)]) == 1)
    h.check('own rule found', h.total([g[0] == rb for g in trie.get_applicable_rules(b)]) == 1)
    _check(h, trie, rules, a)
    _check(h, trie, rules, b)


class Data(object):
    def __init__(self, docs):
        self.docs = docs

    def __iter__(self):
        return iter(self.docs)


def _doc(dm, pairs):
    text, toks = '', []
    for w, l in pairs:
        s = len(text)
        text = text + w + ' '
        toks.append(dm.Token(s, s + len(w), None, l))
    return dm.Document(text, toks)


def _build(h, docs, threshold):
    ex = h.mod('features.extractors')
    data = Data(docs)
    rb = ex.CachedSuffixRulesBuilder(threshold)
    f, _, init = ex.ApplicableSuffixTransformationsBuilder('mask', rb).build(data)
    l, _, linit = ex.LemmaSuffixTransformationFeatureExtractorBuilder('label', rb).build(data)
    return f, init, l, linit


def _marks(h, docs, f, init, l, linit, kept, extra):
    """kept(rule): it has a number of its own"""
    T = h.mod('lemmas.transformation_rules').LemmaSuffixTransformation
    size = init.shapes()['mask']
    h.check('size', len(size) == 1 and size[0] == linit.shapes()['label']['LEMMA'])
    size = size[0]
    toks = [t for d in docs for t in d.tokens]
    rules = []
    for t in toks:
        r = T.get_rule(t.text.lower(), t.lemma.lower())
        if kept(r) and not any([q == r for q, _ in rules]):
            rules.append((r, l.get_features(t)['label'][0]))
    h.check('distinct numbers', sorted([n for _, n in rules]) == list(range(size)), [rules])
    seen = [(t, f.get_features(t)['mask']) for t in toks + extra]     # all of them at once, as in a batch
    for t, v in seen:
        h.check('length', len(v) == size)
        for r, n in rules:
            h.check('marks', h.iff(v[n], _fits(h, r, t.text.lower())), [v])
    for t in toks:
        r = T.get_rule(t.text.lower(), t.lemma.lower())
        if kept(r):
            h.check('own rule marked', f.get_features(t)['mask'][l.get_features(t)['label'][0]])


def vector(h, words):
    dm = h.mod('datamodel')
    pairs = []
    for i in range(words):
        pairs.append((h.str('w%d' % i, 2, 'aB') if i < 2 else 'ab', h.str('l%d' % i, 1 + i % 2, 'ab') if i != 1 else 'a'))
    docs = [_doc(dm, pairs)]
    extra = list(_doc(dm, [(h.str('new', 2, 'Ab'), 'x')]).tokens)
    _marks(h, docs, *_build(h, docs, 0), lambda r: True, extra)


def vector_many(h):
    """many rules, twelve of which fit one word"""
    dm = h.mod('datamodel')
    pairs = [('xabcdefghijkl', 'xabcdefghijkl'[:13 - i] + 'ж') for i in range(1, 12)] + [('w%d' % i, 'w%dq%d' % (i, i)) for i in range(119)]
    docs = [_doc(dm, pairs), _doc(dm, [('ab', h.str('lemma', 1, 'abc'))])]
    f, init, l, linit = _build(h, docs, 0)
    T = h.mod('lemmas.transformation_rules').LemmaSuffixTransformation
    size = init.shapes()['mask'][0]
    h.check('size', size == linit.shapes()['label']['LEMMA'])
    toks = [t for d in docs for t in d.tokens]
    rules = [(T.get_rule(t.text.lower(), t.lemma.lower()), l.get_features(t)['label'][0]) for t in toks]
    h.check('all numbers', sorted(set([n for _, n in rules])) == list(range(size)))
    for i in (0, 5, 10, 11, 70, 129, 130):
        t = toks[i]
        v = f.get_features(t)['mask']
        h.check('length', len(v) == size)
        h.check('own rule marked', v[rules[i][1]], [i])
        h.check('marks', h.all([h.iff(v[n], _fits(h, r, t.text.lower())) for r, n in rules]), [i, v])


def vector_threshold(h):
    """rules as frequent as the threshold and rarer have no number, except for the most frequent one"""
    dm = h.mod('datamodel')
    T = h.mod('lemmas.transformation_rules').LemmaSuffixTransformation
    threshold = h.choice('threshold', [0, 1, 2])
    pairs = [('ba', 'b')] * 3 + [('cd', 'cb')] * h.choice('second', [1, 2, 3]) + [(h.str('w', 2, 'bca'), 'b')] + [('Xy', 'xy')]
    docs = [_doc(dm, pairs[:2]), _doc(dm, pairs[2:])]
    rs = [T.get_rule(w.lower(), l.lower()) for w, l in pairs]

    def count(r):
        return sum([1 for q in rs if q == r])
    top = max([count(r) for r in rs])
    first = [r for r in rs if count(r) == top][0]
    extra = list(_doc(dm, [(h.str('new', 2, 'ad'), 'x')]).tokens)
    _marks(h, docs, *_build(h, docs, threshold), lambda r: r == first or count(r) > threshold or threshold == 0, extra)


def vector_shared(h):
    """one rules builder for several data sets: numbers belong to the data set"""
    dm = h.mod('datamodel')
    ex = h.mod('features.extractors')
    rb = ex.CachedSuffixRulesBuilder(0)
    lemma = h.str('lemma', 2, 'ab')
    one, two = Data([_doc(dm, [('ab', lemma), ('q', 'q')])]), Data([_doc(dm, [('x', 'y'), ('ab', 'ba'), ('zz', 'z')])])
    a = ex.ApplicableSuffixTransformationsBuilder('m', rb).build(one)
    b = ex.ApplicableSuffixTransformationsBuilder('m', rb).build(two)
    c = ex.LemmaSuffixTransformationFeatureExtractorBuilder('l', rb).build(one)
    d = ex.LemmaSuffixTransformationFeatureExtractorBuilder('l', rb).build(two)
    for (f, _, fi), (l, _, li), data in ((a, c, one), (b, d, two)):
        h.check('same size', fi.shapes()['m'][0] == li.shapes()['l']['LEMMA'])
        for t in data.docs[0].tokens:
            h.check('same numbers', f.get_features(t)['m'][l.get_features(t)['l'][0]])
