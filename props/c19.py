"""C19 a lemma rule derived from a pair turns that word into that lemma"""
BOUNDS = {'words and lemmas': 'all pairs of strings of 0 to 4 characters over an alphabet of 3 (thorough 6 over 4)', 'rules': 'all suffixes of 0 to 3 '
          'characters', 'long words': '12 characters with 3 arbitrary ones'}
ASSUMPTIONS = []

AB = 'aжЖ'


def cases(tier):
    top = 4 if tier == 'quick' else 6
    out = [('pair%d_%d' % (n, m), 'pair', {'n': n, 'm': m}, ['yields the lemma', 'longest common prefix', 'whole word iff no common prefix'])
           for n in range(top + 1) for m in range(top + 1)]
    out += [('rule%d_%d_%d' % (n, w, l), 'rule', {'n': n, 'w': w, 'l': l}, ['applicable iff it ends so'])
            for n in range(4) for w in range(4) for l in (0, 2)]
    out += [('long', 'long', {}, ['yields the lemma']), ('equality', 'equality', {}, ['equal rules']), ('other', 'other', {}, ['applies to other words'])]
    return out


def _mod(h):
    return h.mod('lemmas.transformation_rules').LemmaSuffixTransformation


def _verify(h, word, lemma):
    T = _mod(h)
    r = T.get_rule(word, lemma)
    h.check('applicable', r.is_applicable(word))
    got = h.call(r.transform, word)
    h.check('yields the lemma', got.ok and h.same(got.value, lemma), [got.value, got.error])
    w, l = r.word_suffix, r.lemma_suffix
    k = len(word) - len(w)
    h.check('longest common prefix', h.all([k >= 0, len(lemma) - len(l) == k, h.same(w, word[k:]), h.same(l, lemma[k:]),
                                            h.same(word[:k], lemma[:k]), len(w) == 0 or len(l) == 0 or word[k] != lemma[k]]), [w, l])
    h.check('whole word iff no common prefix', h.iff(r.is_regular, k > 0))
    h.observe('rule', [w, l])
    return r


def pair(h, n, m):
    _verify(h, h.str('word', n, AB), h.str('lemma', m, AB))


def rule(h, n, w, l):
    """any rule on any word"""
    T = _mod(h)
    word, ws, ls = h.str('word', n, 'abж'), h.str('suffix', w, 'abж'), h.str('lemma', l, 'axЖ')
    e = h.bool('exception')
    r = T(ws, ls, e) if h.bool('given') else T(ws, ls)
    fits = w <= n and h.same(word[n - w:], ws)
    h.check('applicable iff it ends so', h.iff(r.is_applicable(word), fits))
    got = h.call(r.transform, word)
    h.check('refused iff inapplicable', h.iff(got.ok, fits), [got.error])
    if got.ok:
        h.check('suffix replaced', h.same(got.value, word[:n - w] + ls), [got.value])
    else:
        h.check('kind of refusal', got.error == 'ValueError', [got.error])


def long(h):
    """long words, the difference anywhere"""
    at = h.choice('at', [0, 1, 6, 11, 12])
    word = 'перелетность'
    lemma = word[:at] + h.str('lemma', h.choice('rest', [0, 1, 3]), 'пеs')
    r = _verify(h, word, lemma)
    h.check('same rule again', r == _mod(h).get_rule(word, lemma))


def equality(h):
    """rules are equal exactly when all their parts are, and equal rules have equal hashes and one place in an order"""
    T = _mod(h)
    a = T(h.str('w1', 1, 'ab'), h.str('l1', 1, 'ab'), h.bool('e1'))
    b = T(h.str('w2', h.choice('n', [0, 1]), 'ab'), h.str('l2', 1, 'ab'), h.bool('e2'))
    same = h.all([h.same(a.word_suffix, b.word_suffix), h.same(a.lemma_suffix, b.lemma_suffix), h.iff(a.is_regular, b.is_regular)])
    eq = a == b
    h.check('equal rules', h.iff(eq, same))
    h.check('equal hashes', h.implies(eq, hash(a) == hash(b)))
    h.check('one order', h.total([a < b, b < a, eq]) == 1)
    h.check('as a key', h.iff(b in {a: 1}, same))


def other(h):
    """a rule derived from one pair works on every word with that ending"""
    T = _mod(h)
    r = T.get_rule('другого', 'другий')
    n = h.choice('n', [0, 1, 2, 3, 4])
    word = h.str('word', n, 'огд')
    got = h.call(r.transform, word)
    fits = n >= 3 and h.same(word[n - 3:], 'ого')
    h.check('applies to other words', h.iff(got.ok, fits))
    if got.ok:
        h.check('applies to other words', h.same(got.value, word[:n - 3] + 'ий'))
