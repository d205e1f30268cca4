"""C03 document-relative and sentence-relative heads always agree"""
BOUNDS = {'words': 'up to 6 in up to 3 sentences (thorough 7), 13 words in 3 sentences with two arbitrary heads',
          'heads': 'every word of the sentence or the root; contradictory pairs: any two indices',
          'notations': 'each word in sentence notation, document notation or both'}
ASSUMPTIONS = []


def cases(tier):
    must = ['document view', 'sentence view', 'head navigation']
    out = [('agree' + '_'.join(map(str, s)), 'agree', {'sizes': s}, must) for s in ([1], [2, 1], [1, 2], [2, 2], [1, 1, 2])]
    out.append(('mwt', 'mwt', {}, must))
    out.append(('long', 'long', {'sizes': [3, 4, 6], 'free': [5, 12]}, must))
    out.append(('many', 'long', {'sizes': [2, 1, 3, 2, 1, 2], 'free': [4, 7]}, must))
    for start in (0, 1, 3, 9):
        out.append(('pair%d' % start, 'pair', {'start': start, 'n': 3}, ['pair: refused iff contradictory']))
    out.append(('free', 'free', {}, ['free: views consistent']))
    if tier == 'thorough':
        out += [('agree' + '_'.join(map(str, s)), 'agree', {'sizes': s}, must) for s in ([3, 2], [2, 3], [1, 2, 2], [4])]
    return out


def _kw(h, i, head, start):
    nt = h.choice('notation%d' % i, ['sentence', 'document', 'both'])
    k = {}
    if nt != 'document':
        k['head_sentence_index'] = head
    if nt != 'sentence':
        k['head_document_index'] = -1 if head == -1 else head + start
    return k


def _verify(h, dm, doc, sizes, heads, has):
    """heads: per document position, relative to the sentence"""
    start = 0
    flat = [t for t in doc.tokens]
    for s, n in enumerate(sizes):
        sent = doc.get_sentence(s)
        for i in range(n):
            g = start + i
            t = flat[g]
            u = sent.get_token(i)
            if not has[g]:
                h.check('unannotated', h.all([h.not_(t.has_head), h.not_(t.is_root), h.not_(u.has_head), h.not_(u.is_root)]))
                continue
            p = heads[g]
            h.check('has head', h.all([t.has_head, u.has_head]))
            h.check('document view', h.all([t.head_index == h.ite(p == -1, -1, p + start), h.iff(t.is_root, p == -1)]))
            h.check('sentence view', h.all([u.head_index == p, h.iff(u.is_root, p == -1)]))
            a, b = t.head, u.head
            if p == -1:
                h.check('head navigation', a is None and b is None)
            else:
                want = flat[start + p]
                h.check('head navigation', a is not None and b is not None and
                        h.all([a.start == want.start, a.end == want.end, a.sub_index == want.sub_index,
                               b.start == want.start, b.end == want.end, b.sub_index == want.sub_index]))
                h.check('relation kept', h.all([h.same(t.deprel, 'r%d' % g), h.same(u.deprel, 'r%d' % g)]))
        start += n


def agree(h, sizes):
    dm = h.mod('datamodel')
    toks, sents, heads, has, canon = [], [], [], [], []
    start = 0
    for s, n in enumerate(sizes):
        for i in range(n):
            g = start + i
            p = h.int('head%d' % g, -1, n - 1)
            heads.append(p)
            there = h.bool('has%d' % g) if g == 0 else True
            has.append(there)
            k = _kw(h, g, p, start) if there else {}
            toks.append(dm.Token(2 * g, 2 * g + 1, deprel='r%d' % g, **k))
            canon.append(dm.Token(2 * g, 2 * g + 1, deprel='r%d' % g, **({'head_sentence_index': p} if there else {})))
        sents.append(dm.Sentence(start, start + n))
        start += n
    text = 'x ' * start
    r = h.call(dm.Document, text, toks, sents)
    h.check('consistent heads are accepted', r.ok, [r.error])
    _verify(h, dm, r.value, sizes, heads, has)
    h.check('notation does not matter', r.value == dm.Document(text, canon, sents))


def mwt(h):
    """two sentences, the second one starts with a multiword token of three words and is followed by one more word"""
    dm = h.mod('datamodel')
    sizes = [2, 4]
    spec = [(0, 1, None), (2, 3, None), (4, 7, 0), (4, 7, 1), (4, 7, 2), (8, 9, None)]
    heads = [h.int('head0', -1, 1), 0] + [h.int('head%d' % i, -1, 3) for i in (2, 3)] + [1, h.int('head5', -1, 3)]
    toks = []
    for g, (a, b, sub) in enumerate(spec):
        start = 0 if g < 2 else 2
        p = heads[g]
        k = {'head_document_index': -1 if p == -1 else p + start} if h.bool('doc%d' % g) else {'head_sentence_index': p}
        if sub is not None:
            k.update(sub_index=sub, text_replacement='w%d' % sub)
        toks.append(dm.Token(a, b, deprel='r%d' % g, **k))
    doc = dm.Document('x x xxx x', toks, [dm.Sentence(2, 6), dm.Sentence(0, 2)])
    _verify(h, dm, doc, sizes, heads, [True] * 6)


def long(h, sizes, free):
    dm = h.mod('datamodel')
    heads, toks, sents = [], [], []
    start = 0
    for s, n in enumerate(sizes):
        for i in range(n):
            g = start + i
            p = h.int('head%d' % g, -1, n - 1) if g in free else i - 1
            heads.append(p)
            k = _kw(h, g, p, start) if g in free else {'head_document_index': -1 if p == -1 else p + start}
            toks.append(dm.Token(2 * g, 2 * g + 1, deprel='r%d' % g, **k))
        sents.append(dm.Sentence(start, start + n))
        start += n
    doc = dm.Document('x ' * start, toks, sents)
    _verify(h, dm, doc, sizes, heads, [True] * start)


def pair(h, start, n):
    """a word of a sentence beginning at start with both notations given"""
    dm = h.mod('datamodel')
    d = h.int('document', -1, start + n - 1)
    s = h.int('sentence', -1, n - 1)
    at = h.choice('at', list(range(n)))
    toks = []
    for g in range(start + n):
        k = {'head_sentence_index': g - 1} if g < start else {'head_sentence_index': g - start - 1}
        if g == start + at:
            k = {'head_sentence_index': s, 'head_document_index': d}
        toks.append(dm.Token(2 * g, 2 * g + 1, **k))
    sents = ([dm.Sentence(0, start)] if start else []) + [dm.Sentence(start, start + n)]
    r = h.call(dm.Document, 'x ' * (start + n), toks, sents)
    root = h.all([d == -1, s == -1])
    h.check('pair: refused iff contradictory', h.iff(r.ok, h.any([root, h.all([d != -1, s != -1, d == s + start])])), [r.error])
    if not r.ok:
        h.check('pair: refusal is a ValueError', r.error == 'ValueError', [r.error])
        return
    t = r.value.get_token(start + at)
    u = r.value.get_sentence(1 if start else 0).get_token(at)
    h.check('pair: both views', h.all([h.iff(t.is_root, root), h.iff(u.is_root, root),
                                       t.head_index == h.ite(root, -1, d), u.head_index == h.ite(root, -1, s)]))


def free(h):
    """heads may also point out of the sentence when nothing is validated; whatever is accepted is consistent"""
    dm = h.mod('datamodel')
    sizes = [2, 3]
    toks = []
    docn = h.bool('document notation')
    at = h.choice('at', [0, 1, 2, 4])
    p = h.int('head', -1, 4)
    for g in range(5):
        i = g if g < 2 else g - 2
        k = {'head_sentence_index': i - 1}
        if g == at:
            k = {'head_document_index': p} if docn else {'head_sentence_index': p}
        toks.append(dm.Token(2 * g, 2 * g + 1, **k))
    h.check('free: token alone', h.all([toks[at].has_head, h.iff(toks[at].is_root, p == -1)]))
    r = h.call(dm.Document, 'x ' * 5, toks, [dm.Sentence(0, 2), dm.Sentence(2, 5)])
    h.check('free: views consistent', True)
    start = 0 if at < 2 else 2
    inside = h.all([p >= start, p < (2 if at < 2 else 5)]) if docn else p < (2 if at < 2 else 3)
    h.check('free: heads inside of the sentence are accepted', h.implies(h.any([p == -1, inside]), r.ok), [r.error])
    if not r.ok:
        h.check('free: refusal is a ValueError', r.error == 'ValueError', [r.error])
        return
    t = r.value.get_token(at)
    u = r.value.get_sentence(0 if at < 2 else 1).get_token(at - start)
    h.check('free: root', h.all([h.iff(t.is_root, p == -1), h.iff(u.is_root, p == -1)]))
    h.check('free: views consistent', h.any([p == -1, t.head_index == u.head_index + start]))
    h.check('free: as given', (t.head_index if docn else u.head_index) == p)
