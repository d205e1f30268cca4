"""C01 a Document can only be built from a well-formed tokenisation and segmentation"""
BOUNDS = {'tokens': 'up to 4 (symbolic start/end/sub-index/multiword flag, offsets 0..5), shapes with 12 tokens (one or two of them arbitrary, all in one multiword token, or many sentences)',
          'sentences': 'up to 3 symbolic boundaries', 'input order': 'arbitrary'}
ASSUMPTIONS = ['tokens and sentence spans are individually valid (non-empty, non-negative)']


def cases(tier):
    out = []
    must = ['accepts iff well-formed', 'canonical order']
    for n in (1, 2, 3):
        out.append(('tokens%d' % n, 'tokens', {'n': n, 'hi': 4, 'order': n < 3}, must))
    out.append(('mwt4', 'tokens', {'n': 4, 'hi': 2 if tier == 'quick' else 3, 'order': False}, must))
    if tier == 'thorough':
        out.append(('tokens3w', 'tokens', {'n': 3, 'hi': 6, 'order': True}, must))
        out.append(('tokens4', 'tokens', {'n': 4, 'hi': 4, 'order': False}, must))
    for n, k in ((1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (3, 2), (3, 3), (1, 2)):
        out.append(('sentences%d_%d' % (n, k), 'sentences', {'n': n, 'k': k}, ['accepts iff segmentation']))
    if tier == 'thorough':
        out.append(('sentences4_4', 'sentences', {'n': 4, 'k': 4}, ['accepts iff segmentation']))
    out.append(('empty', 'empty', {}, ['accepts iff segmentation']))
    out.append(('long', 'long_document', {'n': 12}, ['long: accepts iff', 'long: order']))
    out.append(('group', 'group', {'n': 12}, must))
    out.append(('spans', 'spans', {'n': 12}, ['accepts iff segmentation']))
    out.append(('many', 'many', {}, ['sentences cover all tokens once']))
    out.append(('both', 'both', {'n': 3, 'k': 2}, ['both: accepts iff']))
    return out


def _well_formed(h, toks):
    """toks: [(start, end, sub, multiword)] in any order -> symbolic truth"""
    conds = []
    n = len(toks)
    for i in range(n):
        si, ei, ui, mi = toks[i]
        for j in range(i + 1, n):
            sj, ej, uj, mj = toks[j]
            coincide = h.all([si == sj, ei == ej])
            disjoint = h.any([ei <= sj, ej <= si])
            conds.append(h.any([disjoint, h.all([coincide, ui != uj])]))
        # every sub-word has its predecessor in the same multiword token, the first one has index 0
        preds = []
        for j in range(n):
            if i != j:
                sj, ej, uj, mj = toks[j]
                preds.append(h.all([si == sj, ei == ej, mj, uj + 1 == ui]))
        conds.append(h.implies(mi, h.any([ui == 0] + preds)))
        # a multiword token is not shared with a plain token
    return h.all(conds)


def _make(h, dm, i, hi, submax=2):
    s = h.int('start%d' % i, 0, hi - 1)
    e = h.int('end%d' % i, 1, hi)
    h.assume(s < e)
    mw = h.bool('mw%d' % i)
    u = h.int('sub%d' % i, 0, submax)
    h.assume(h.implies(h.not_(mw), u == 0))
    if mw:
        t = dm.Token(s, e, sub_index=u, text_replacement='w')
        return (s, e, u, True), t
    return (s, e, 0, False), dm.Token(s, e)


def _is_sorted(h, toks):
    conds = []
    for a, b in zip(toks, toks[1:]):
        conds.append(h.any([a.start < b.start, h.all([a.start == b.start, a.end < b.end]),
                            h.all([a.start == b.start, a.end == b.end, a.sub_index < b.sub_index])]))
    return h.all(conds)


def tokens(h, n, hi, order):
    dm = h.mod('datamodel')
    facts, toks = [], []
    for i in range(n):
        f, t = _make(h, dm, i, hi)
        facts.append(f)
        toks.append(t)
    ok = _well_formed(h, facts)
    given = list(toks)
    r = h.call(dm.Document, 'x' * hi, tuple(toks) if order and h.bool('tuple') else toks)
    h.check('lists as given', len(toks) == n and all([a is b for a, b in zip(toks, given)]))
    h.observe('outcome', r.error)
    h.check('accepts iff well-formed', h.iff(r.ok, ok), [r.error])
    if not r.ok:
        h.check('rejection is a ValueError', r.error == 'ValueError', [r.error])
        return
    doc = r.value
    got = list(doc.tokens)
    h.check('token count', len(got) == n and doc.tokens_count == n)
    h.check('canonical order', _is_sorted(h, got))
    # exactly the given tokens
    h.check('same tokens', h.all([h.any([h.all([f[0] == g.start, f[1] == g.end, f[2] == g.sub_index, f[3] == g.is_multiword])
                                         for g in got]) for f in facts]))
    if order and n > 1:
        p = h.perm('perm', n)
        r2 = h.call(dm.Document, 'x' * hi, [toks[i] for i in p])
        h.check('order of input irrelevant', r2.ok and r2.value == doc, [r2.error])


def sentences(h, n, k):
    dm = h.mod('datamodel')
    toks = [dm.Token(2 * i, 2 * i + 1) for i in range(n)]
    sents, facts = [], []
    for i in range(k):
        s = h.int('s%d' % i, 0, n)
        e = h.int('e%d' % i, 1, n + 1)
        h.assume(s < e)
        facts.append((s, e))
        sents.append(dm.Sentence(s, e))
    # a partition of 0..n: every token lies in exactly one sentence and no sentence reaches beyond the tokens
    conds = [f[1] <= n for f in facts]
    for t in range(n):
        conds.append(h.total([h.all([f[0] <= t, t < f[1]]) for f in facts]) == 1)
    ok = h.all(conds)
    given = list(sents)
    r = h.call(dm.Document, 'x' * (2 * n), toks, sents)
    h.check('lists as given', len(sents) == k and all([a is b for a, b in zip(sents, given)]))
    h.observe('outcome', r.error)
    h.check('accepts iff segmentation', h.iff(r.ok, ok), [r.error])
    if not r.ok:
        h.check('rejection is a ValueError', r.error == 'ValueError', [r.error])
        return
    doc = r.value
    h.check('sentence count', doc.sentences_count == k)
    bounds = list(doc.sentences_boundaries)
    h.check('sentence order', h.all([bounds[0].start == 0, bounds[-1].end == n] +
                                    [a.end == b.start for a, b in zip(bounds, bounds[1:])]))
    total = 0
    for s in doc.sentences:
        total = total + s.tokens_count
    h.check('sentences cover all tokens once', total == n)


def empty(h):
    """no tokens: there is nothing a sentence could hold"""
    dm = h.mod('datamodel')
    k = h.choice('sentences', [None, 0, 1, 2])
    sents = None
    if k is not None:
        sents = []
        for i in range(k):
            s = h.int('s%d' % i, 0, 2)
            e = h.int('e%d' % i, 1, 3)
            h.assume(s < e)
            sents.append(dm.Sentence(s, e))
        sents = h.choice('given as', [list, tuple, iter])(sents)
    r = h.call(dm.Document, h.choice('text', ['', 'x']), [], sents, h.bool('validate'))
    h.check('accepts iff segmentation', h.iff(r.ok, not k), [r.error])
    if not r.ok:
        h.check('rejection is a ValueError', r.error == 'ValueError', [r.error])
        return
    doc = r.value
    h.check('nothing in an empty document', doc.tokens_count == 0 and doc.sentences_count == 0 and
            list(doc.tokens) == [] and list(doc.sentences) == [] and list(doc.sentences_boundaries) == [])


def long_document(h, n):
    """a long document with one symbolic token placed among fixed ones, and symbolic sentence bounds"""
    dm = h.mod('datamodel')
    at = h.choice('slot', [0, 5, 9, n - 1])
    toks = [dm.Token(3 * i, 3 * i + 2) for i in range(n) if i != at]
    s = h.int('start', 0, 3 * n)
    e = h.int('end', 1, 3 * n + 2)
    h.assume(s < e)
    extra = dm.Token(s, e)
    cut = h.int('cut', 1, n - 1)
    cut2 = h.int('cut2', 1, n)
    ok = h.all([h.any([e <= t.start, t.end <= s]) for t in toks] + [cut == cut2])
    sents = [dm.Sentence(cut2, n), dm.Sentence(0, cut)] if cut2 < n else [dm.Sentence(0, cut)]
    r = h.call(dm.Document, 'x' * (3 * n), [extra] + toks, sents)
    h.check('long: accepts iff', h.iff(r.ok, ok), [r.error])
    if r.ok:
        got = list(r.value.tokens)
        h.check('long: order', _is_sorted(h, got))
        h.check('long: count', len(got) == n)
    else:
        h.check('long: rejection is a ValueError', r.error == 'ValueError', [r.error])


def group(h, n):
    """a multiword token of many words, one of them with an arbitrary number, between two plain words"""
    dm = h.mod('datamodel')
    at = h.choice('at', [0, 1, 4, 8, n - 1])
    facts = [(0, 2, 0, False), (9, 11, 0, False)]
    toks = [dm.Token(0, 2), dm.Token(9, 11)]
    for i in range(n):
        sub = i
        if i == at:
            sub = h.int('sub', 0, n + 1)
        facts.append((3, 8, sub, True))
        toks.append(dm.Token(3, 8, sub_index=sub, text_replacement='w%d' % i))
    given = h.choice('given', ['forwards', 'backwards', 'mixed'])
    toks = {'forwards': toks, 'backwards': toks[::-1], 'mixed': toks[1::2] + toks[::2]}[given]
    ok = _well_formed(h, facts)
    r = h.call(dm.Document, 'x' * 12, toks)
    h.check('accepts iff well-formed', h.iff(r.ok, ok), [r.error])
    if not r.ok:
        h.check('rejection is a ValueError', r.error == 'ValueError', [r.error])
        return
    got = list(r.value.tokens)
    h.check('token count', len(got) == n + 2)
    h.check('canonical order', h.all([_is_sorted(h, got)] + [got[i + 1].text == 'w%d' % i for i in range(n)]))


def spans(h, n):
    """many sentences in any of several orders, one of them arbitrary"""
    dm = h.mod('datamodel')
    toks = [dm.Token(7 * i, 7 * i + 5) for i in range(n)]
    cuts = h.choice('cuts', [[0, 1, 2, 4, 5, 6, 8, 9, 10, 12], [0, 3, 9, 11, 12]])
    pairs = list(zip(cuts, cuts[1:]))
    at = h.choice('at', [0, 1, len(pairs) // 2, len(pairs) - 2, len(pairs) - 1])
    s, e = h.int('s', 0, n), h.int('e', 1, n + 2)
    h.assume(s < e)
    pairs = [(s, e) if i == at else p for i, p in enumerate(pairs)]
    given = h.choice('given', ['forwards', 'backwards', 'mixed'])
    sents = [dm.Sentence(a, b) for a, b in {'forwards': pairs, 'backwards': pairs[::-1], 'mixed': pairs[1::2] + pairs[::2]}[given]]
    r = h.call(dm.Document, 'x' * (7 * n), toks, sents)
    h.check('accepts iff segmentation', h.iff(r.ok, h.all([s == cuts[at], e == cuts[at + 1]])), [r.error])
    if not r.ok:
        h.check('rejection is a ValueError', r.error == 'ValueError', [r.error])
        return
    h.check('sentence order', h.same([[b.start, b.end] for b in r.value.sentences_boundaries], [list(p) for p in zip(cuts, cuts[1:])]))
    h.check('sentences cover all tokens once', h.same([t.start for x in r.value.sentences for t in x], [t.start for t in toks]))


def many(h):
    """hundreds of sentences, given as a list or produced one by one"""
    dm = h.mod('datamodel')
    n = 300
    toks = [dm.Token(2 * i, 2 * i + 1) for i in range(n)]
    at, e = h.choice('at', [0, 150, 254, 256, 299]), h.int('e', 1, 301)
    h.assume(h.any([e == at + 1, e == at + 2]))
    sents = [dm.Sentence(i, e if i == at else i + 1) for i in range(n)]
    r = h.call(dm.Document, 'x ' * n, toks, iter(sents) if h.bool('one by one') else sents)
    h.check('accepts iff segmentation', h.iff(r.ok, e == at + 1), [r.error])
    if r.ok:
        bounds = list(r.value.sentences_boundaries)
        h.check('sentences cover all tokens once', h.all([r.value.sentences_count == n, len(bounds) == n] +
                [h.all([b.start == i, b.end == i + 1]) for i, b in enumerate(bounds)]))


def both(h, n, k):
    """sentences and tokens symbolic together, tokens with heads given"""
    dm = h.mod('datamodel')
    facts, toks = [], []
    for i in range(n):
        s = h.int('start%d' % i, 0, 4)
        e = h.int('end%d' % i, 1, 5)
        h.assume(s < e)
        facts.append((s, e, 0, False))
        toks.append(dm.Token(s, e, lemma='l%d' % i))
    sents = []
    sf = []
    for i in range(k):
        s = h.int('s%d' % i, 0, n)
        e = h.int('e%d' % i, 1, n + 1)
        h.assume(s < e)
        sf.append((s, e))
        sents.append(dm.Sentence(s, e))
    ok = h.all([_well_formed(h, facts)] + [f[1] <= n for f in sf] +
               [h.total([h.all([f[0] <= t, t < f[1]]) for f in sf]) == 1 for t in range(n)])
    r = h.call(dm.Document, 'x' * 5, toks, iter(sents))
    h.check('both: accepts iff', h.iff(r.ok, ok), [r.error])
    if not r.ok:
        h.check('both: rejection is a ValueError', r.error == 'ValueError', [r.error])
