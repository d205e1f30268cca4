"""C23 lemma labels decode to the lemmas they were made from"""
from props.common import token_fields, pos_key

BOUNDS = {'training': '1 to 3 words (thorough 4) with arbitrary lemmas of 0 to 3 characters, 9 and 171 in the large cases', 'words': '1 to 3 characters, both cases',
          'thresholds': '0 to 3', 'length limit of the character coding': '1 to 7'}
ASSUMPTIONS = ['all words of the training set have a lemma', 'lower-casing does not change the number of characters']


def cases(tier):
    out = []
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        out.append(('dict%d' % n, 'dictionary', {'n': n}, ['decodes to itself', 'within sizes']))
    out += [('dict_large', 'dictionary_large', {}, ['decodes to itself']), ('dict_labels', 'dictionary_labels', {}, ['every label has a lemma'])]
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        out.append(('rules%d' % n, 'rules', {'n': n}, ['decodes to itself', 'within sizes']))
    out += [('rules_case', 'rules_case', {}, ['decodes to itself']), ('rules_letters', 'rules_letters', {}, ['decodes to itself', 'lower-cased word']), ('rules_threshold', 'rules_threshold', {}, ['decodes to itself', 'most frequent rule']),
            ('rules_misfit', 'rules_misfit', {}, ['lower-cased word', 'rule applied']), ('rules_large', 'rules_large', {}, ['decodes to itself']), ('rules_hundreds', 'rules_hundreds', {}, ['decodes to itself']),
            ('rules_labels', 'rules_labels', {}, ['every label has a rule'])]
    for limit in (1, 2, 3, 4, 5, 7):
        out.append(('chars_%d' % limit, 'chars', {'limit': limit}, ['decodes to itself', 'within sizes']))
    out += [('chars_long', 'chars_long', {}, ['decodes to itself']), ('chars_rare', 'chars_rare', {}, ['rare characters']),
            ('chars_labels', 'chars_labels', {}, ['up to the end mark']), ('chars_new', 'chars_new', {}, ['rare characters']),
            ('chars_segmenter', 'chars_segmenter', {}, ['refused'])]
    for s in ('dict', 'rules', 'chars'):
        out.append(('many_' + s, 'many', {'s': s}, ['decodes to itself', 'within sizes']))
        out.append(('container_' + s, 'container', {'s': s}, ['decodes to itself', 'within sizes']))
        out.append(('only_lemma_' + s, 'only_lemma', {'s': s}, ['nothing else']))
    return out


class Data(object):
    def __init__(self, docs):
        self.docs = docs

    def __iter__(self):
        return iter(self.docs)


def _data(dm, pairs, split=1):
    docs = []
    for part in (pairs[:split], pairs[split:]):
        text, toks = '', []
        for w, l in part:
            toks.append(dm.Token(len(text), len(text) + len(w), None, l))
            text = text + w + ' '
        if toks:
            docs.append(dm.Document(text, toks))
    return Data(docs)


def _words(data):
    return [t for d in data.docs for t in d.tokens]


def _codec(h, s, data, threshold=0, limit=8):
    ex = h.mod('features.extractors')
    if s == 'dict':
        b = ex.LemmaDictFeatureExtractorBuilder('l')
    elif s == 'rules':
        b = ex.LemmaSuffixTransformationFeatureExtractorBuilder('l', ex.CachedSuffixRulesBuilder(threshold))
    else:
        b = ex.LemmaCharFeatureExtractorBuilder('l', {'min_frequency': threshold, 'max_word_length': limit, 'segmenter': 'char'})
    return b.build(data)


def _encode(h, ext, init, w, length=1):
    f = ext.get_features(w)
    h.check('one label', list(f) == ['l'])
    v = f['l']
    h.check('length', len(v) == length, [v])
    size = init.shapes()['l']
    size = size['LEMMA'] if length == 1 and not isinstance(size, list) else size[0]
    h.check('within sizes', h.all([h.all([0 <= x, x < size]) for x in v]), [v, size])
    return v


def _round(h, codec, w, want, label='decodes to itself', length=1):
    ext, interp, init = codec
    v = _encode(h, ext, init, w, length)
    back = interp.interpret(w, {'l': v})
    h.check(label, h.same(back.lemma, want), [back.lemma, want, v])
    return v


def _rounds(h, codec, ws, want, length=1, label='decodes to itself'):
    """all words are encoded before the first one is decoded, as in a batch"""
    ext, interp, init = codec
    for w, v in [(w, _encode(h, ext, init, w, length)) for w in ws]:
        got, lemma = interp.interpret(w, {'l': v}).lemma, want(w)
        h.check(label, h.same(got, lemma), [got, lemma, v])


def _lemma(h, name, al, top=2):
    return h.str(name, h.choice(name + '#', list(range(top + 1))), al)


def dictionary(h, n):
    dm = h.mod('datamodel')
    data = _data(dm, [('w%d' % i, _lemma(h, 'l%d' % i, 'aB', 2 if n < 4 else 1)) for i in range(n)])
    codec = _codec(h, 'dict', data)
    labels = [_round(h, codec, w, w.lemma) for w in _words(data)]
    ws = _words(data)
    for i in range(n):
        for j in range(i):
            h.check('own label', h.iff(h.same(labels[i], labels[j]), h.same(ws[i].lemma, ws[j].lemma)), [labels])


def container(h, s):
    """the training set may be any collection of documents; the same builder may be used for another one"""
    dm = h.mod('datamodel')
    ex = h.mod('features.extractors')
    kind = h.choice('kind', ['data', 'list', 'tuple', 'equal lists'])
    one = _data(dm, [('ab', h.str('l0', 1, 'ab')), ('b', 'b'), ('a', h.str('l1', 2, 'ab'))])
    two = _data(dm, [('ab', h.str('l2', 1, 'ab')), ('bb', 'ab'), ('aa', 'b')])
    if s == 'dict':
        b = ex.LemmaDictFeatureExtractorBuilder('l')
    elif s == 'rules':
        b = ex.LemmaSuffixTransformationFeatureExtractorBuilder('l', ex.CachedSuffixRulesBuilder(0))
    else:
        b = ex.LemmaCharFeatureExtractorBuilder('l', {'min_frequency': 1, 'max_word_length': 5, 'segmenter': 'char'})
    for data in (one, two, one):
        r = h.call(lambda: b.build(data if kind == 'data' else tuple(data.docs) if kind == 'tuple' else list(data.docs)))
        h.check('built', r.ok, [kind, r.error])
        if r.ok:
            _rounds(h, r.value, _words(data), lambda w: w.lemma, 5 if s == 'chars' else 1)


def dictionary_large(h):
    dm = h.mod('datamodel')
    lemmas = ['идти', 'a', 'b', 'a', 'ab', 'A', 'я', 'a', 'b']
    lemmas.insert(h.choice('at', [0, 5, 9]), h.str('l', 1, 'aяbx'))
    data = _data(dm, [('w', l) for l in lemmas], 4)
    codec = _codec(h, 'dict', data)
    _rounds(h, codec, _words(data), lambda w: w.lemma)


def _labels(h, codec, w, label):
    """every label of the announced range is decoded, different ones differently"""
    ext, interp, init = codec
    seen = []
    for i in range(init.shapes()['l']['LEMMA']):
        r = h.call(lambda: interp.interpret(w, {'l': [i]}))
        h.check(label, r.ok, [i, r.error])
        seen.append(r.value.lemma if r.ok else None)
    return seen


def dictionary_labels(h):
    dm = h.mod('datamodel')
    data = _data(dm, [('w', h.str('l0', 1, 'ab')), ('w', h.str('l1', 1, 'ab')), ('w', 'c'), ('x', 'c'), ('y', h.str('l2', 2, 'ab'))])
    ws = _words(data)
    seen = _labels(h, _codec(h, 'dict', data), ws[0], 'every label has a lemma')
    h.check('different lemmas', h.all([h.not_(h.same(seen[i], seen[j])) for i in range(len(seen)) for j in range(i)]), [seen])
    h.check('lemmas of the training set', h.all([h.any([h.same(s, w.lemma) for w in ws]) for s in seen]), [seen])


def rules(h, n):
    dm = h.mod('datamodel')
    pairs = []
    for i in range(n):
        k, m = h.choice('w%d#' % i, [1, 2, 3] if n < 3 else [2]), h.choice('l%d#' % i, [0, 1, 2] if n < 3 else [1, 2])
        pairs.append((h.str('w%d' % i, k, 'ab'), h.str('l%d' % i, m, 'ab')))
    data = _data(dm, pairs)
    codec = _codec(h, 'rules', data)
    _rounds(h, codec, _words(data), lambda w: w.lemma)


def rules_case(h):
    """words and lemmas in any case; the lemma comes back in lower case"""
    dm = h.mod('datamodel')
    data = _data(dm, [(h.str('w0', 2, 'aBЖж'), h.str('l0', 2, 'Abж')), ('Dom', 'DOM')])
    codec = _codec(h, 'rules', data)
    _rounds(h, codec, _words(data), lambda w: w.lemma.lower())


def rules_letters(h):
    """lower-casing is not folding: letters whose folded form is another one"""
    dm = h.mod('datamodel')
    word = h.choice('word', ['Straße', 'STRASSE', 'ΣοΣ', 'ẞa', 'ſs', 'Ёж'])
    lemma = h.choice('lemma', ['', 'a', word, word[:-1] + 'ß', 'ẞ'])
    data = _data(dm, [('ab', 'b'), (word, lemma)])
    codec = _codec(h, 'rules', data)
    ws = _words(data)
    _rounds(h, codec, ws, lambda w: w.lemma.lower())
    v = _encode(h, codec[0], codec[2], ws[0])      # a rule that does not fit
    h.check('lower-cased word', codec[1].interpret(ws[1], {'l': v}).lemma == word.lower())


def many(h, s):
    """many lemmas, and a long one"""
    dm = h.mod('datamodel')
    pairs = [('w%d' % i, 'l%d%s' % (i, chr(0x400 + i))) for i in range(170)] + [('u' * 60, 'vu' * 40)]
    pairs.insert(h.choice('at', [0, 100, 171]), ('ab', h.str('l', 2, 'aж')))
    data = _data(dm, pairs, 100)
    codec = _codec(h, s, data, 1 if s == 'chars' else 0, 90)
    _rounds(h, codec, _words(data), lambda w: w.lemma.lower() if s == 'rules' else w.lemma, 90 if s == 'chars' else 1)


LARGE = [('пошла', 'идти'), ('дома', 'дом'), ('Дома', 'дом'), ('столы', 'стол'), ('дом', 'дом'), ('и', 'и'), ('ела', 'есть'), ('ел', 'есть'), ('ДОМУ', 'дом')]


def rules_large(h):
    dm = h.mod('datamodel')
    pairs = list(LARGE)
    pairs.insert(h.choice('at', [0, 5, 9]), ('до' + h.str('w', 1, 'маы'), h.str('l', 1, 'де') + 'о'))
    data = _data(dm, pairs, 4)
    codec = _codec(h, 'rules', data)
    _rounds(h, codec, _words(data), lambda w: w.lemma.lower())


def rules_hundreds(h):
    """hundreds of rules, also whole lemmas"""
    dm = h.mod('datamodel')
    n = 270
    s = h.choice('of', ['rules', 'dict'])
    pairs = [('w%d' % i, 'w%dx%d' % (i // 2, i)) for i in range(n)]
    pairs.insert(h.choice('at', [0, 140, n]), ('ab' if s == 'rules' else 'w', h.str('l', 2, 'ab')))
    data = _data(dm, pairs, 60)
    codec = _codec(h, s, data)
    _rounds(h, codec, _words(data)[-20:] + _words(data)[:3] + _words(data)[130:145], lambda w: w.lemma)


def rules_threshold(h):
    """rules that occur more often than the threshold (and the most frequent one) decode to the lemma, others are encoded as the most frequent one"""
    dm = h.mod('datamodel')
    T = h.mod('lemmas.transformation_rules').LemmaSuffixTransformation
    threshold = h.choice('threshold', [0, 1, 2, 3])
    pairs = [('cd', 'cb')] * h.choice('second', [0, 1, 2, 3]) + [('ba', 'b')] * h.choice('first', [1, 3]) + [(h.str('w', 2, 'bca'), 'b')] + [('Xy', 'xy')]
    data = _data(dm, pairs, 2)
    codec = _codec(h, 'rules', data, threshold)
    rs = [T.get_rule(w.lower(), l.lower()) for w, l in pairs]
    counts = [len([1 for q in rs if q == r]) for r in rs]
    most = max(counts)
    frequent = []
    for w, r, c in zip(_words(data), rs, counts):
        v = _encode(h, codec[0], codec[2], w)
        if threshold == 0 or c > threshold:
            _round(h, codec, w, w.lemma.lower())
        if c == most:
            frequent.append(v)
    for w, r, c in zip(_words(data), rs, counts):
        if threshold > 0 and c <= threshold and c < most:
            v = _encode(h, codec[0], codec[2], w)
            h.check('most frequent rule', any([v == f for f in frequent]), [v, frequent])


def rules_misfit(h):
    dm = h.mod('datamodel')
    data = _data(dm, [('AbA', 'abc'), ('cba', 'c')])
    codec = _codec(h, 'rules', data)
    ws = _words(data)
    i = h.choice('rule', [0, 1])
    suffix, lemma = [('a', 'c'), ('ba', '')][i]
    v = _encode(h, codec[0], codec[2], ws[i])
    word = h.str('word', h.choice('n', [1, 2, 3]), 'aBbA')
    w, = _words(_data(dm, [(word, 'old')]))
    back = codec[1].interpret(w, {'l': v})
    low = word.lower()
    if low.endswith(suffix):
        h.check('rule applied', h.same(back.lemma, low[:len(low) - len(suffix)] + lemma), [back.lemma])
    else:
        h.check('lower-cased word', h.same(back.lemma, low), [back.lemma, low])


def rules_labels(h):
    dm = h.mod('datamodel')
    data = _data(dm, [('ab', h.str('l0', 2, 'ab')), ('ab', h.str('l1', 1, 'ab')), ('ba', 'b')])
    codec = _codec(h, 'rules', data)
    _labels(h, codec, _words(_data(dm, [(h.str('w', 2, 'ab'), None)]))[0], 'every label has a rule')


def chars(h, limit):
    dm = h.mod('datamodel')
    lemmas = [_lemma(h, 'l0', 'aЯ', 3), _lemma(h, 'l1', 'ab', 2)]
    data = _data(dm, [('w%d' % i, l) for i, l in enumerate(lemmas)])
    codec = _codec(h, 'chars', data, 1, limit)
    _rounds(h, codec, _words(data), lambda w: w.lemma[:limit - 1], limit)


def chars_long(h):
    dm = h.mod('datamodel')
    limit = h.choice('limit', [9, 10, 11, 12, 13, 20])
    lemmas = ['преобразова', h.str('l', 2, 'аб') + 'зование', '']
    data = _data(dm, [('w%d' % i, l) for i, l in enumerate(lemmas)])
    codec = _codec(h, 'chars', data, 0, limit)
    _rounds(h, codec, _words(data), lambda w: w.lemma[:limit - 1], limit)


def chars_rare(h):
    """characters that occur less often than required are left out"""
    dm = h.mod('datamodel')
    t = h.choice('threshold', [1, 2, 3])
    lemmas = [h.str('l0', 3, 'abc'), h.str('l1', 1, 'abc'), 'aa']
    data = _data(dm, [('w%d' % i, l) for i, l in enumerate(lemmas)], 2)
    codec = _codec(h, 'chars', data, t, 6)
    text = [c for l in lemmas for c in l]
    _rounds(h, codec, _words(data), lambda w: ''.join([c for c in w.lemma if len([1 for d in text if d == c]) >= t]), 6, 'rare characters')


def chars_new(h):
    """characters of other words"""
    dm = h.mod('datamodel')
    data = _data(dm, [('w', 'ba'), ('w', 'c')])
    codec = _codec(h, 'chars', data, 1, 6)
    lemma = h.str('lemma', 3, 'abdя')
    w, = _words(_data(dm, [('x', lemma)]))
    _round(h, codec, w, ''.join([c for c in lemma if c in 'abc']), 'rare characters', length=6)


def chars_labels(h):
    """any sequence of announced numbers is decoded up to the end mark, reserved numbers stand for no character"""
    dm = h.mod('datamodel')
    data = _data(dm, [('w', 'cab')])
    ext, interp, init = _codec(h, 'chars', data, 1, 5)
    w, = _words(data)
    size = init.shapes()['l'][0]
    own = {}
    for c, i in zip('cab', ext.get_features(w)['l'][1:]):
        own[i] = c
    h.check('own numbers', size == 7 and sorted(own) == [4, 5, 6], [own, size])
    v = [h.int('v%d' % i, 0, 6) for i in range(4)]
    back = interp.interpret(w, {'l': v})
    want = ''
    for x in v:
        if x == 3:
            break
        if x > 3:
            want += own[int(x)]
    h.check('up to the end mark', h.same(back.lemma, want), [back.lemma, want])


def chars_segmenter(h):
    ex = h.mod('features.extractors')
    b = ex.LemmaCharFeatureExtractorBuilder('l', {'min_frequency': 1, 'max_word_length': 5, 'segmenter': h.choice('s', ['words', '', 'CHAR'])})
    r = h.call(lambda: b.build(_data(h.mod('datamodel'), [('w', 'a')])))
    h.check('refused', r.error == 'ValueError', [r.error])


def only_lemma(h, s):
    """everything else of the word stays, whatever kind of word it is"""
    dm = h.mod('datamodel')
    data = _data(dm, [('xy', 'ab'), ('x', 'b')])
    ext, interp, init = _codec(h, s, data, 1 if s == 'chars' else 0, 5)
    extras = dm.TokenExtras({'k': 1})
    kw = dict(lemma=h.str('lemma', 1, 'ab') if h.bool('lemma?') else None, extras=extras)
    if h.bool('syntax'):
        kw.update(deprel=h.str('rel', 1, 'ab'), head_sentence_index=h.int('head', -1, 1))
    pos = dm.Pos(h.str('upos', 1, 'ab'), None, {'K': 'v'}) if h.bool('tagged') else None
    toks = [dm.Token(0, 2, pos, sub_index=0, text_replacement='Xy', **kw), dm.Token(0, 2, pos, sub_index=1, text_replacement='c', **kw)] if h.bool('multiword') \
        else [dm.Token(0, 2, pos, **kw), dm.Token(2, 3, pos, **kw)]
    i = h.choice('i', [0, 1])
    w = dm.Document('XyZ', toks).get_token(i)
    before = token_fields(w) + [w.text, w.head_index]
    v = ext.get_features(_words(data)[0])['l']
    back = interp.interpret(w, {'l': v})
    want = 'ab' if s != 'rules' or w.text.lower() == 'xy' else w.text.lower()
    h.check('lemma set', h.same(back.lemma, want), [back.lemma])
    a, b = token_fields(w), token_fields(back)
    h.check('nothing else', h.same(a[:6] + a[7:], b[:6] + b[7:]) and back.text == w.text and back.extras == extras, [a, b])
    h.check('word untouched', h.same(before, token_fields(w) + [w.text, w.head_index]))
