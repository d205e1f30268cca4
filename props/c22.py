"""C22 part-of-speech labels decode to the tags they were made from"""
from props.common import token_fields, pos_key

BOUNDS = {'training': '1 to 4 words (thorough 5) with arbitrary tags, 12 in the frequency case, 160 different tags in the larger one; one or two documents',
          'tags': 'upos and xpos of 0 or 1 characters or absent, up to 3 features (5 and 9 in the wide cases) with values of 1 character (or none)',
          'strategies': 'all four'}
ASSUMPTIONS = ['all words of the training set have a tag', 'no feature is named UPOS or XPOS']
ALL = ['pos_joint', 'pos_XF', 'pos_UXF', 'pos_gran']


def cases(tier):
    out = []
    for s in ALL:
        for mode in ('ux', 'uf', 'xf', 'ff'):
            for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
                out.append(('%s_%s%d' % (s, mode, n), 'codec', {'s': s, 'mode': mode, 'n': n},
                            ['decodes to itself', 'within sizes'] + (['distinct labels'] if n > 1 else [])))
        out += [('%s_unseen' % s, 'unseen', {'s': s}, ['most frequent']), ('%s_tags' % s, 'unseen_tag', {'s': s}, ['most frequent']),
                ('%s_frequency' % s, 'frequency', {'s': s}, ['most frequent']),
                ('%s_only_tag' % s, 'only_tag', {'s': s}, ['nothing else']), ('%s_large' % s, 'large', {'s': s}, ['decodes to itself']),
                ('%s_all_labels' % s, 'all_labels', {'s': s}, ['every label has a tag']),
                ('%s_order' % s, 'order', {'s': s}, ['decodes to itself', 'order of features']),
                ('%s_many' % s, 'many', {'s': s}, ['decodes to itself', 'distinct labels']),
                ('%s_wide' % s, 'wide', {'s': s}, ['decodes to itself', 'distinct labels']), ('%s_larger' % s, 'larger', {'s': s}, ['decodes to itself', 'distinct numbers'])]
    out.append(('unknown_strategy', 'unknown_strategy', {}, ['refused']))
    return out


def _tag(h, dm, name, mode):
    if mode == 'ux':
        u = h.str(name + '.u', 1, 'ab') if h.bool(name + '.u?') else None
        x = h.str(name + '.x', 1, 'ab') if h.bool(name + '.x?') else None
        return dm.Pos(u, x)
    if mode == 'uf':
        return dm.Pos(h.str(name + '.u', 1, 'ab') if h.bool(name + '.u?') else None, 'x', _feats(h, name, [('K', 'ab')]))
    if mode == 'xf':
        x = h.str(name + '.x', 1, 'ab') if h.bool(name + '.x?') else None
        return dm.Pos('N', x, _feats(h, name, [('K', 'a')]))
    return dm.Pos('N', None, _feats(h, name, [('B', 'ab'), ('A', 'a')]))


def _feats(h, name, keys):
    return {k: h.str('%s.%s' % (name, k), 1, al) for k, al in keys if h.bool('%s.%s?' % (name, k))}


def _docs(dm, tags, split):
    """one or two documents with a word per tag"""
    out = []
    for part in (tags[:split], tags[split:]):
        if part:
            out.append(dm.Document('w ' * len(part), [dm.Token(2 * i, 2 * i + 1, p, 'lemma%d' % i) for i, p in enumerate(part)]))
    return out


def _words(docs):
    return [t for d in docs for t in d.tokens]


def _sizes(init):
    return [v for k, v in init.shapes()['label'].items()]


def _build(h, s, docs):
    return h.mod('features.extractors').PosDictFeatureExtractorBuilder('label', s).build(docs)


def _verify(h, ext, interp, init, words):
    sizes = _sizes(init)
    labels = []
    for w, f in [(w, ext.get_features(w)) for w in words]:     # all of them at once, as in a batch
        h.check('one label', list(f) == ['label'])
        v = f['label']
        h.check('a number per component', len(v) == len(sizes), [v, sizes])
        h.check('within sizes', h.all([h.all([0 <= x, x < n]) for x, n in zip(v, sizes)]), [v, sizes])
        back = interp.interpret(w, {'label': v})
        h.check('decodes to itself', h.same(pos_key(back.pos), pos_key(w.pos)), [pos_key(back.pos), pos_key(w.pos)])
        labels.append(v)
    for i in range(len(words)):
        for j in range(i):
            h.check('distinct labels', h.iff(h.same(labels[i], labels[j]), h.same(pos_key(words[i].pos), pos_key(words[j].pos))), [labels])


def codec(h, s, mode, n):
    dm = h.mod('datamodel')
    docs = _docs(dm, [_tag(h, dm, 't%d' % i, mode) for i in range(n)], 1 if n == 3 else 2)
    ext, interp, init = _build(h, s, docs)
    _verify(h, ext, interp, init, _words(docs))


def order(h, s):
    """the order in which the features of a tag are given does not matter"""
    dm = h.mod('datamodel')
    feats = [('A', h.str('a', 1, 'pq')), ('B', h.str('b', 1, 'pq')), ('C', '1')]
    tags = [dm.Pos('n', 'x', dict([feats[i] for i in h.perm('first', 3)])), dm.Pos('n', 'x', {'B': 'q', 'A': h.str('c', 1, 'pq')}),
            dm.Pos('n', None, dict([feats[i] for i in h.perm('second', 3)]))]
    docs = _docs(dm, tags, 2)
    built = _build(h, s, docs)
    _verify(h, *built, _words(docs))
    again, = _words(_docs(dm, [dm.Pos('n', 'x', dict([feats[i] for i in h.perm('third', 3)]))], 1))
    v, w = built[0].get_features(_words(docs)[0])['label'], built[0].get_features(again)['label']
    h.check('order of features', h.same(v, w), [v, w])


def many(h, s):
    """tags of up to five features any of which may be absent"""
    dm = h.mod('datamodel')
    names = 'ABCDE'
    tags = [dm.Pos('n', 'x', {k: '1' for k in names}), dm.Pos('n', 'x', {k: '1' for k in names if h.bool('has' + k)}),
            dm.Pos('n', None, {k: h.str('v' + k, 1, '12') for k in names[1:3]})]
    docs = _docs(dm, tags, 1)
    _verify(h, *_build(h, s, docs), _words(docs))


def wide(h, s):
    """nine features, which differ in the last ones only; values of no characters"""
    dm = h.mod('datamodel')
    names = 'ABCDEFGHI'

    def tag(k):
        f = {n: '1' for n in names}
        for n in ('GI', 'H')[k % 2]:
            v = h.choice('%s%d' % (n, k), ['1', '2', '', None])
            if v is None:
                del f[n]
            else:
                f[n] = v
        return dm.Pos('n', 'x', f)
    docs = _docs(dm, [tag(0), tag(1), dm.Pos('', 'x', {})], 1)
    _verify(h, *_build(h, s, docs), _words(docs))


def larger(h, s):
    """many tags, most of which occur once"""
    dm = h.mod('datamodel')
    tags = [dm.Pos('u%d' % i, 'x%d' % (i // 2), {'F%d' % (i % 4): 'v%d' % i}) for i in range(159)] + [dm.Pos('u3', 'x1', {'F3': 'v3'})] * 2
    tags.insert(h.choice('at', [0, 150]), dm.Pos(h.str('u', 1, 'ab'), 'x1', {'F1': h.str('f', 1, '12')}))
    docs = _docs(dm, tags, 100)
    ext, interp, init = _build(h, s, docs)
    sizes = _sizes(init)
    labels = []
    for w in _words(docs):
        v = ext.get_features(w)['label']
        back = interp.interpret(w, {'label': v}).pos
        h.check('within sizes', h.all([h.all([0 <= x, x < n]) for x, n in zip(v, sizes)]), [v, sizes])
        h.check('decodes to itself', h.same(pos_key(back), pos_key(w.pos)), [back, w.pos])
        labels.append(tuple(v))
    h.check('distinct numbers', len(set(labels)) == 160, [len(set(labels))])


def _component(s, pos, i):
    """the i-th component of a tag, features in order of their names"""
    if pos is None:
        return None
    f = sorted(pos.feats.items())
    if s == 'pos_joint':
        return [pos.upos, pos.xpos, [[k, v] for k, v in f]]
    if s == 'pos_XF':
        return [pos.upos, [pos.xpos, [[k, v] for k, v in f]]][i]
    if s == 'pos_UXF':
        return [pos.upos, pos.xpos, [[k, v] for k, v in f]][i]
    return [pos.upos, pos.xpos, pos.feature('A'), pos.feature('B')][i]


def _parts(s):
    return {'pos_joint': 1, 'pos_XF': 2, 'pos_UXF': 3, 'pos_gran': 4}[s]


def _most_frequent(h, s, train, ext, interp, word):
    """a component no training word has is encoded as one that at least as many training words have as any other"""
    v = ext.get_features(word)['label']
    back = interp.interpret(word, {'label': v}).pos
    h.check('a number per component', len(v) == _parts(s), [v])
    for i in range(_parts(s)):
        comps = [_component(s, t.pos, i) for t in train]
        mine = _component(s, word.pos, i)
        got = _component(s, back, i)
        if any([h.same(c, mine) for c in comps]):
            h.check('seen component kept', h.same(got, mine), [got, mine])
        else:
            most = max([len([1 for d in comps if h.same(c, d)]) for c in comps])
            h.check('most frequent', len([1 for c in comps if h.same(c, got)]) == most, [got, comps])


def unseen(h, s):
    dm = h.mod('datamodel')
    tags = [dm.Pos('a', None, {'A': '1', 'B': '1'}), dm.Pos(h.str('u1', 1, 'ab'), 'x', {'B': h.str('f1', 1, '12')}),
            dm.Pos(h.str('u2', 1, 'ab'), None, {'B': '1'})]
    docs = _docs(dm, tags, 2)
    ext, interp, init = _build(h, s, docs)
    new = dm.Pos(h.str('u', 1, 'ac'), [None, 'x', 'z'][h.choice('x', [0, 1, 2])], {'B': h.str('f', 1, '13')})
    word, = _words(_docs(dm, [new], 1))
    _most_frequent(h, s, _words(docs), ext, interp, word)


def unseen_tag(h, s):
    """components seen, their combination not"""
    dm = h.mod('datamodel')
    tags = [dm.Pos('a', 'x', {'A': '1', 'B': h.str('b0', 1, '12')})] * h.choice('n0', [1, 2]) + \
        [dm.Pos('b', 'y', {'A': h.str('a1', 1, '12')})] * h.choice('n1', [1, 2])
    docs = _docs(dm, tags + [dm.Pos('c', None, {'B': '1'})], 2)
    ext, interp, init = _build(h, s, docs)
    new = dm.Pos(h.str('u', 1, 'abc'), h.str('x', 1, 'xy'), {'A': h.str('fa', 1, '12')})
    word, = _words(_docs(dm, [new], 1))
    _most_frequent(h, s, _words(docs), ext, interp, word)


def frequency(h, s):
    """counts decide, not order: three tags with 1 to 4 words each"""
    dm = h.mod('datamodel')
    n = [h.choice('n%d' % i, [1, 2, 4]) for i in range(3)]
    tags = [dm.Pos('c', 'z', {'A': '1', 'B': '3'})] * n[0] + [dm.Pos('a', 'x', {'B': '1', 'A': '2'})] * n[1] + [dm.Pos('b', 'x', {'A': '2', 'B': '2'})] * n[2]
    docs = _docs(dm, tags, 3)
    ext, interp, init = _build(h, s, docs)
    word, = _words(_docs(dm, [dm.Pos('q', 'q', {'A': 'q', 'B': 'q'})], 1))
    _most_frequent(h, s, _words(docs), ext, interp, word)


def only_tag(h, s):
    """everything else of the word stays, whatever kind of word it is"""
    dm = h.mod('datamodel')
    docs = _docs(dm, [dm.Pos('a', 'x', {'A': '1'}), dm.Pos('b', 'x')], 2)
    ext, interp, init = _build(h, s, docs)
    extras = dm.TokenExtras({'k': 1})
    kw = dict(lemma=h.str('lemma', 1, 'ab') if h.bool('lemma?') else None, extras=extras)
    if h.bool('syntax'):
        kw.update(deprel=h.str('rel', 1, 'ab'), head_sentence_index=h.int('head', -1, 1))
    pos = dm.Pos('b', 'x') if h.bool('tagged') else None
    toks = [dm.Token(0, 2, pos, sub_index=0, text_replacement='a', **kw), dm.Token(0, 2, pos, sub_index=1, text_replacement='c', **kw)] if h.bool('multiword') \
        else [dm.Token(0, 1, pos, **kw), dm.Token(1, 2, pos, **kw)]
    i = h.choice('i', [0, 1])
    w = dm.Document('xy', toks).get_token(i)
    before = token_fields(w) + [w.text, w.head_index]
    v = ext.get_features(_words(docs)[0])['label']
    back = interp.interpret(w, {'label': v})
    h.check('tag set', h.same(pos_key(back.pos), ['a', 'x', [['A', '1']]]), [pos_key(back.pos)])
    a, b = token_fields(w), token_fields(back)
    h.check('nothing else', h.same(a[:5] + a[6:], b[:5] + b[6:]) and back.text == w.text and back.extras == extras, [a, b])
    h.check('word untouched', h.same(before, token_fields(w) + [w.text, w.head_index]))


def large(h, s):
    """a larger training set with one arbitrary tag in it"""
    dm = h.mod('datamodel')
    tags = [dm.Pos('c', None, {'A': '1', 'B': '1'}), dm.Pos('a', 'x', {}), dm.Pos('b', None, {'B': '2'}), dm.Pos(None, None, {'A': '1'}),
            dm.Pos('a', 'y', {'C': '1'}), dm.Pos('a', 'x', {'A': '2', 'B': '1'}), dm.Pos('ab', 'x', {'A': '1'}), dm.Pos('a', 'bx', {'A': '1'})]
    tags.insert(h.choice('at', [0, 4, 8]), dm.Pos(h.str('u', 1, 'abd'), [None, 'x', ''][h.choice('x', [0, 1, 2])], _feats(h, 'f', [('A', '13'), ('C', '1')])))
    docs = _docs(dm, tags, 4)
    ext, interp, init = _build(h, s, docs)
    _verify(h, ext, interp, init, _words(docs))


def all_labels(h, s):
    """every label within the announced sizes has a tag, different labels different tags"""
    dm = h.mod('datamodel')
    docs = _docs(dm, [dm.Pos('a', 'x', {'A': '1'}), dm.Pos(h.str('u', 1, 'ab'), None, {'B': h.str('f', 1, '12')}), dm.Pos('a', 'x', {'A': h.str('g', 1, '12')})], 2)
    ext, interp, init = _build(h, s, docs)
    word = _words(docs)[0]
    labels = [[]]
    for n in _sizes(init):
        labels = [l + [i] for l in labels for i in range(n)]
    seen = []
    for l in labels:
        r = h.call(lambda: interp.interpret(word, {'label': l}))
        h.check('every label has a tag', r.ok, [l, r.error])
        if r.ok:
            seen.append(pos_key(r.value.pos))
    for i in range(len(seen)):
        for j in range(i):
            h.check('different tags', h.not_(h.same(seen[i], seen[j])), [seen[i], labels[i], labels[j]])


def unknown_strategy(h):
    ex = h.mod('features.extractors')
    r = h.call(lambda: ex.PosDictFeatureExtractorBuilder('label', h.choice('s', ['pos', 'POS_UXF', ''])))
    h.check('refused', r.error == 'ValueError', [r.error])
