"""C05 equality, hashing and ordering of annotations are coherent"""
from props.common import opt_str, any_str

BOUNDS = {'values': 'all pairs and triples of parts of speech with absent, empty or one-character upos/xpos and up to 2 features '
          '(3 for pairs with fixed names; 8, one or two of which differ) in any insertion order; rules with suffixes up to 2 characters; tokens with every '
          'component varied; documents of up to 3 tokens, and of 12 with one difference'}
ASSUMPTIONS = ['feature values, tags and lemmas are strings; only the rule order of suffixes with whole-word mark is compared']

KNOWN = 'tokens differing only in the sentence-relative head are different'


def cases(tier):
    out = [('pos_pair%d_%d' % (a, b), 'pos_pair', {'a': a, 'b': b}, ['equal iff components']) for a, b in
           ((0, 0), (0, 1), (1, 1), (1, 2), (2, 2))]
    out.append(('pos_order', 'pos_order', {}, ['insertion order of features is irrelevant']))
    out.append(('pos_many', 'pos_many', {}, ['equal iff components']))
    out.append(('pos_triple', 'pos_triple', {'feats': False}, ['transitive']))
    out.append(('pos_triple_feats', 'pos_triple', {'feats': True}, ['transitive']))
    out.append(('pos_sort', 'pos_sort', {}, ['sorted']))
    out.append(('rules', 'rules', {}, ['rules equal iff components']))
    out.append(('rule_triple', 'rule_triple', {}, ['rules transitive']))
    out.append(('foreign', 'foreign', {}, ['foreign']))
    out.append(('tokens', 'tokens', {}, ['tokens equal iff components', KNOWN]))
    out.append(('navigable', 'navigable', {}, ['tokens of documents']))
    out.append(('sentences', 'sentences', {}, ['sentences equal iff components']))
    out.append(('extras', 'extras', {}, ['extras equal iff components']))
    out.append(('documents', 'documents', {}, ['documents equal iff components']))
    out.append(('documents_long', 'documents_long', {}, ['documents equal iff components']))
    out.append(('extras_many', 'extras_many', {}, ['extras equal iff components']))
    return out


def _pos(h, dm, name, nf, alpha='aя'):
    u = any_str(h, name + '.u', [None, 0, 1], alpha)
    x = any_str(h, name + '.x', [None, 0, 1], alpha)
    f = []
    for i in range(nf):
        f.append((h.str('%s.k%d' % (name, i), 1, 'AB'), h.str('%s.v%d' % (name, i), 1, alpha)))
    if nf == 2:
        h.assume(f[0][0] != f[1][0])
    d = {}
    for k, v in f:
        d[k] = v
    return (u, x, f), dm.Pos(u, x, d if nf or h.bool(name + '.empty') else None)


def _feats_same(h, f, g):
    if len(f) != len(g):
        return False
    return h.all([h.any([h.all([k == l, v == w]) for l, w in g]) for k, v in f])


def _same(h, a, b):
    return h.all([h.same(a[0], b[0]), h.same(a[1], b[1]), _feats_same(h, a[2], b[2])])


def _laws(h, a, b, eq, p=''):
    """exactly one of <, ==, > and the derived operators agree"""
    lt, gt = a < b, a > b
    h.check(p + 'equal iff components', h.iff(a == b, eq))
    h.check(p + 'symmetric', h.iff(a == b, b == a))
    h.check(p + 'different iff not equal', h.iff(a != b, h.not_(eq)))
    if a == b:
        h.check(p + 'equal hashes', hash(a) == hash(b))
    h.check(p + 'exactly one of <, ==, >', h.total([lt, gt, eq]) == 1)
    h.check(p + 'antisymmetric', h.all([h.iff(b > a, lt), h.iff(b < a, gt)]))
    h.check(p + 'derived comparisons', h.all([h.iff(a <= b, h.any([lt, eq])), h.iff(a >= b, h.any([gt, eq]))]))


def pos_pair(h, a, b):
    dm = h.mod('datamodel')
    fa, pa = _pos(h, dm, 'a', a)
    fb, pb = _pos(h, dm, 'b', b)
    _laws(h, pa, pb, _same(h, fa, fb))
    h.check('reflexive', h.all([pa == pa, h.not_(pa < pa), h.not_(pa != pa)]))


def pos_order(h):
    dm = h.mod('datamodel')
    names = ['Case', 'Number', 'Gender']
    vals = [h.str('v%d' % i, 1, 'ab') for i in range(3)]
    other = [h.str('w%d' % i, 1, 'ab') for i in range(3)]
    p = h.perm('perm', 3)
    a = {names[i]: vals[i] for i in range(3)}
    b = {names[i]: other[i] for i in p}
    pa, pb = dm.Pos('N', None, a), dm.Pos('N', None, b)
    eq = h.all([vals[i] == other[i] for i in range(3)])
    h.check('insertion order of features is irrelevant', h.iff(pa == pb, eq))
    if pa == pb:
        h.check('order: equal hashes', hash(pa) == hash(pb))
        h.check('order: same key of a dictionary', {pa: 1}.get(pb) == 1)
        h.check('order: not less', h.all([h.not_(pa < pb), h.not_(pb < pa)]))
    h.check('order: features', h.all([h.same(pb.feature(names[i]), other[i]) for i in range(3)] +
                                     [pb.feature('None') is None]))


def pos_many(h):
    """many features, the difference anywhere"""
    dm = h.mod('datamodel')
    names = h.choice('names', [['Animacy', 'Aspect', 'Case', 'Gender', 'Mood', 'Number', 'Tense', 'Voice'],
                               ['Number', 'Number[abs]', 'Number[io]', 'Number[psor]', 'Num', 'NumForm', 'NumType', 'NumValue']])
    at = h.choice('at', [0, 3, 4, 5, 7])
    a, b = {n: 'x' for n in names}, {n: 'x' for n in reversed(names)}
    va, vb = any_str(h, 'a', [None, 1], 'wxy'), any_str(h, 'b', [None, 1, 3], 'wxy')
    for d, v in ((a, va), (b, vb)):
        if v is None:
            del d[names[at]]
        else:
            d[names[at]] = v
    pa, pb = dm.Pos('N', None, a), dm.Pos('N', None, b)
    _laws(h, pa, pb, h.same(va, vb))


def pos_triple(h, feats):
    dm = h.mod('datamodel')
    ps = []
    for n in 'abc':
        if feats:
            d = {}
            if h.bool(n + '.f'):
                d['F'] = h.str(n + '.v', 1, 'ab')
            if h.bool(n + '.g'):
                d['G'] = h.str(n + '.w', 1, 'ab')
            ps.append(dm.Pos('N', None, d))
        else:
            ps.append(dm.Pos(opt_str(h, n + '.u', 1, 'abc'), opt_str(h, n + '.x', 1, 'ab')))
    a, b, c = ps
    if a < b and b < c:
        h.check('transitive', a < c)
    if a == b and b == c:
        h.check('equality transitive', a == c)
    if a == b:
        h.check('order compatible with equality', h.all([h.iff(a < c, b < c), h.iff(c < a, c < b)]))


def pos_sort(h):
    dm = h.mod('datamodel')
    a = dm.Pos(opt_str(h, 'u', 1, 'ac'), opt_str(h, 'x', 1, 'ab'), {'F': h.str('f', 1, 'ab')})
    rest = [dm.Pos('b', 'b', {'F': 'a'}), dm.Pos(None, 'a'), dm.Pos('b'), dm.Pos('a', None, {'G': 'x'})]
    s = sorted([rest[0], a, rest[1], rest[2], rest[3]])
    h.check('sorted', h.all([x <= y for x, y in zip(s, s[1:])] + [len(s) == 5]))
    t = sorted([rest[3], rest[2], rest[1], rest[0], a])
    h.check('sorting does not depend on the order', h.all([x == y for x, y in zip(s, t)]))
    h.check('as a set', len(set(s + t)) == len(set(s)) and len(set(s)) == 5)


def _rule(h, tr, n):
    w = h.str(n + '.w', h.choice(n + '.wl', [0, 1, 2]), 'ab')
    lm = h.str(n + '.l', h.choice(n + '.ll', [0, 1]), 'ab')
    e = h.bool(n + '.e')
    return (w, lm, e), tr.LemmaSuffixTransformation(w, lm, bool(e))


def rules(h):
    tr = h.mod('lemmas.transformation_rules')
    fa, a = _rule(h, tr, 'a')
    fb, b = _rule(h, tr, 'b')
    eq = h.all([h.same(fa[0], fb[0]), h.same(fa[1], fb[1]), h.iff(fa[2], fb[2])])
    _laws(h, a, b, eq, 'rules ')
    h.check('rule components', h.all([h.same(a.word_suffix, fa[0]), h.same(a.lemma_suffix, fa[1]), h.iff(a.is_regular, h.not_(fa[2]))]))


def rule_triple(h):
    tr = h.mod('lemmas.transformation_rules')
    rs = []
    for n in 'abc':
        rs.append(tr.LemmaSuffixTransformation(h.str(n + '.w', h.choice(n + '.wl', [0, 1]), 'ab'), h.str(n + '.l', 1, 'ab'),
                                               bool(h.bool(n + '.e'))))
    a, b, c = rs
    if a < b and b < c:
        h.check('rules transitive', a < c)
    if a == b:
        h.check('rule order compatible with equality', h.all([h.iff(a < c, b < c), h.iff(c < a, c < b)]))


def foreign(h):
    dm = h.mod('datamodel')
    tr = h.mod('lemmas.transformation_rules')
    tok = dm.Token(0, 1)
    doc = dm.Document('x', [tok])
    objs = [dm.Pos('N'), tr.LemmaSuffixTransformation('a', 'b'), tok, dm.Sentence(0, 1), doc, doc.get_token(0),
            doc.get_sentence(0), dm.TokenExtras({'a': 1})]
    i = h.choice('object', list(range(len(objs))))
    o = objs[i]
    others = [None, 0, 'N', ('N', None, ()), {'a': 1}, [tok], object()] + [x for j, x in enumerate(objs) if j != i and
                                                                          not (i in (2, 5) and j in (2, 5))]
    for x in others:
        r = h.call(lambda: (o == x, o != x, x == o))
        h.check('foreign', r.ok and r.value == (False, True, False), [r.error, i, type(x).__name__])


FIELDS = ['start', 'end', 'upos', 'lemma', 'deprel', 'document head', 'sentence head', 'multiword', 'replacement', 'extras']


def _token(h, dm, name, vary):
    k = {}
    f = {}

    def b(field):
        if field not in vary:
            return False
        v = h.bool('%s.%s' % (name, field))
        f[field] = v
        return v
    s = 1 if b('start') else 0
    e = 4 if b('end') else 3
    if 'pos absent' in vary:
        c = h.choice(name + '.pos', [None, 'a', 'b'])
        f['pos'] = c
        if c:
            k['pos'] = dm.Pos(c)
    else:
        k['pos'] = dm.Pos('a', 'y' if b('upos') else None)
    for n, v in (('lemma', 'l'), ('deprel', 'd')):
        if n in vary:
            c = h.choice('%s.%s' % (name, n), [None, v, v + 'x'])
            f[n] = c
            if c:
                k[n] = c
    for n, kw in (('document head', 'head_document_index'), ('sentence head', 'head_sentence_index')):
        if n in vary:
            c = h.choice('%s.%s' % (name, n), [None, -1, 1])
            f[n] = c
            if c is not None:
                k[kw] = c
    if b('multiword'):
        k['text_replacement'] = 'w' if b('replacement') else ''
        if b('sub'):
            k['sub_index'] = 1
    if b('extras'):
        k['extras'] = dm.TokenExtras({'a': 1} if b('extra value') else {'a': 2})
    return f, dm.Token(s, e, **k)


VARY = [['start', 'end', 'upos'], ['pos absent', 'lemma'], ['lemma', 'deprel'], ['deprel', 'document head'],
        ['multiword', 'replacement', 'sub', 'lemma'], ['extras', 'extra value', 'lemma'], ['sentence head', 'document head']]


def tokens(h):
    dm = h.mod('datamodel')
    vary = h.choice('vary', VARY)
    fa, a = _token(h, dm, 'a', vary)
    fb, b = _token(h, dm, 'b', vary)
    ka, kb = sorted(fa), sorted(fb)
    diff = [n for n in sorted(set(ka + kb)) if not (n in fa and n in fb and bool(h.same(fa[n], fb[n]) if not
                                                                                isinstance(fa[n], bool) else fa[n] == fb[n]))
            and not (n in fa and n in fb and fa[n] is None and fb[n] is None)]
    if diff == ['sentence head']:
        h.check(KNOWN, h.all([h.not_(a == b), a != b]))
        return
    h.check('tokens equal iff components', h.all([h.iff(a == b, not diff), h.iff(b == a, not diff), h.iff(a != b, bool(diff))]),
            [diff])


def navigable(h):
    """tokens of documents compare with plain tokens by their components"""
    dm = h.mod('datamodel')
    l1, l2 = h.str('l1', 1, 'ab'), h.str('l2', 1, 'ab')
    p1, p2 = h.int('p1', -1, 1), h.int('p2', -1, 1)

    def doc(l, p):
        return dm.Document('x y', [dm.Token(0, 1, lemma=l, head_sentence_index=p), dm.Token(2, 3, head_sentence_index=0)])
    d1, d2 = doc(l1, p1), doc(l2, p2)
    eq = h.all([l1 == l2, p1 == p2])
    a, b = d1.get_token(0), d2.get_token(0)
    h.check('tokens of documents', h.all([h.iff(a == b, eq), h.iff(a != b, h.not_(eq))]))
    h.check('tokens of sentences', h.iff(d1.get_sentence(0).get_token(0) == d2.get_sentence(0).get_token(0), eq))
    h.check('sentences of documents', h.iff(d1.get_sentence(0) == d2.get_sentence(0), eq))
    h.check('document and sentence token', d1.get_token(0) == d1.get_sentence(0).get_token(0))
    h.check('plain token', a == dm.Token(0, 1, lemma=l1, head_sentence_index=p1, head_document_index=p1))


def sentences(h):
    dm = h.mod('datamodel')
    v = [h.int(n, 0, 4) for n in ('s1', 'e1', 's2', 'e2')]
    h.assume(h.all([v[0] < v[1], v[2] < v[3]]))
    a, b = dm.Sentence(v[0], v[1]), dm.Sentence(v[2], v[3])
    eq = h.all([v[0] == v[2], v[1] == v[3]])
    h.check('sentences equal iff components', h.all([h.iff(a == b, eq), h.iff(a != b, h.not_(eq))]))
    h.check('sentence length', a.len == v[1] - v[0])


def extras(h):
    dm = h.mod('datamodel')
    ds = []
    for n in 'ab':
        d = {}
        if h.bool(n + '.k'):
            d['k'] = h.str(n + '.v', 1, 'xy')
        if h.bool(n + '.m'):
            d['m'] = {'deep': [h.str(n + '.w', 1, 'xy')]}
        if h.bool(n + '.none'):
            d['none'] = None
        ds.append(d)
    a, b = dm.TokenExtras(ds[0]), dm.TokenExtras(ds[1])
    eq = []
    for k in ('k', 'm'):
        eq.append((k in ds[0]) == (k in ds[1]))
        if k in ds[0] and k in ds[1]:
            eq.append(ds[0][k] == ds[1][k] if k == 'k' else ds[0][k]['deep'][0] == ds[1][k]['deep'][0])
    eq.append(('none' in ds[0]) == ('none' in ds[1]))
    eq = h.all(eq)
    h.check('extras equal iff components', h.all([h.iff(a == b, eq), h.iff(b == a, eq)]))
    h.check('extras different', h.iff(a != b, h.not_(eq)))


def documents(h):
    dm = h.mod('datamodel')

    def doc(n):
        k = h.choice(n + '.count', [0, 2, 3])
        text = h.str(n + '.text', 1, 'xX') + ' x x' + h.str(n + '.end', h.choice(n + '.behind', [0, 1]), ' \n')
        if k == 0:
            return (text, 0), dm.Document(text, [])
        cut = h.int(n + '.cut', 1, k)
        lem = h.str(n + '.lemma', 1, 'ab')
        toks = [dm.Token(2 * i, 2 * i + 1, lemma=lem if i == k - 1 else None) for i in range(k)]
        sents = [dm.Sentence(0, cut)] + ([dm.Sentence(cut, k)] if cut < k else [])
        return (text, k, cut, lem), dm.Document(text, toks, sents)
    fa, a = doc('a')
    fb, b = doc('b')
    eq = h.all([len(fa) == len(fb)] + [h.same(x, y) for x, y in zip(fa, fb)])
    h.check('documents equal iff components', h.all([h.iff(a == b, eq), h.iff(b == a, eq), h.iff(a != b, h.not_(eq))]))
    h.check('document reflexive', a == a)


def documents_long(h):
    """documents of many words that differ in at most one place"""
    dm = h.mod('datamodel')
    n = 12
    what = h.choice('what', ['lemma', 'head', 'deprel', 'form', 'span', 'sentences', 'extras', 'feats'])
    at = h.choice('at', [0, 5, 9, 10, n - 1])
    va, vb = h.str('a', 1, 'xyz'), h.str('b', 1, 'xyz')

    def doc(v):
        toks = []
        for i in range(n):
            k = {'lemma': 'l', 'deprel': 'd', 'head_sentence_index': -1, 'pos': dm.Pos('N', None, {'A': 'a', 'B': 'b'})}
            end = 4 * i + 2
            if i == at:
                if what == 'head':
                    k['head_sentence_index'] = h.ite(v == 'x', -1, 0)
                elif what == 'form':
                    k['text_replacement'] = v
                elif what == 'span':
                    end = end + (1 if v == 'x' else 0)
                elif what == 'extras':
                    k['extras'] = dm.TokenExtras({'e': v})
                elif what == 'feats':
                    k['pos'] = dm.Pos('N', None, {'A': 'a', 'B': v})
                elif what != 'sentences':
                    k[what] = v
            toks.append(dm.Token(4 * i, end, **k))
        cuts = sorted(set([0, 2, 4, 6, 8, 10, n] + ([at] if what == 'sentences' and v == 'x' else [])))
        return dm.Document('xxx ' * n, toks, [dm.Sentence(s, e) for s, e in zip(cuts, cuts[1:])])
    a, b = doc(va), doc(vb)
    eq = h.same(va, vb)
    if what in ('head', 'span') or what == 'sentences' and at % 2:
        eq = h.iff(va == 'x', vb == 'x')
    elif what == 'sentences':
        eq = True
    h.check('documents equal iff components', h.all([h.iff(a == b, eq), h.iff(b == a, eq), h.iff(a != b, h.not_(eq))]))


def extras_many(h):
    """the order in which extras were given is not visible in comparisons"""
    dm = h.mod('datamodel')
    p = h.perm('perm', 3)
    vals = [h.str('v%d' % i, 1, 'ab') for i in range(3)]
    other = [h.str('w%d' % i, 1, 'ab') for i in range(3)]
    a = dm.TokenExtras({'k%d' % i: vals[i] for i in range(3)})
    b = dm.TokenExtras({'k0': 'q'}).update({'k%d' % i: other[i] for i in p})
    c = dm.TokenExtras({'k%d' % i: other[i] for i in p})
    eq = h.all([vals[i] == other[i] for i in range(3)])
    h.check('extras equal iff components', h.all([h.iff(a == b, eq), h.iff(b == a, eq), h.iff(a == c, eq), b == c]))
    h.check('tokens with extras', h.iff(dm.Token(0, 1, extras=a) == dm.Token(0, 1, extras=c), eq))
