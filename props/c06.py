"""C06 navigation visits every word once and surface text is the original text"""
BOUNDS = {'documents': 'up to 3 words with arbitrary spans in a text of 6 arbitrary characters (letters, space, newline, '
          'no-break space), up to 5 words of fixed spans with arbitrary sentence boundaries and multiword groups; 12 words in 3 '
          'sentences; 300 sentences', 'walks': 'forwards, backwards, by (negative) index'}
ASSUMPTIONS = ['spans lie within the text (token bounds are not validated by the library)']


def cases(tier):
    out = [('surface1', 'surface', {'n': 1, 'size': 4}, ['plain text is the slice', 'space mark']),
           ('surface2', 'surface', {'n': 2, 'size': 5}, ['plain text is the slice', 'space mark', 'sentence text'])]
    out.append(('surface3', 'surface', {'n': 3, 'size': 6 if tier == 'quick' else 8}, ['plain text is the slice']))
    out.append(('groups', 'groups', {'n': 5}, ['multiword text', 'space mark']))
    for n in (1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7):
        out.append(('walk%d' % n, 'walk', {'n': n}, ['forwards', 'backwards', 'by index', 'sentences together']))
    out.append(('long', 'long', {}, ['forwards', 'backwards', 'by index', 'sentences together']))
    out.append(('hundreds', 'hundreds', {}, ['hundreds']))
    out.append(('empty', 'empty', {}, ['empty document']))
    return out


def _space(h, c):
    return h.any([c == x for x in ' \n\u00a0\t'])


def surface(h, n, size):
    dm = h.mod('datamodel')
    text = h.str('text', size, 'aж \n\u00a0')
    toks = []
    prev = 0
    for i in range(n):
        s = h.int('s%d' % i, 0, size - 1)
        e = h.int('e%d' % i, 1, size)
        h.assume(h.all([prev <= s, s < e]))
        prev = e
        s, e = int(s), int(e)
        toks.append(dm.Token(s, e))
    cut = h.bool('cut') if n > 1 else False
    sents = [dm.Sentence(0, 1), dm.Sentence(1, n)] if cut else [dm.Sentence(0, n)]
    doc = dm.Document(text, toks, sents)
    h.check('text kept', h.all([h.same(doc.text, text), h.same(doc.document_text, text)]))
    for i, t in enumerate(doc.tokens):
        s, e = toks[i].start, toks[i].end
        h.check('plain text is the slice', h.all([h.same(t.text, text[s:e]), h.same(t.doc_text, text[s:e])]))
        want = True if e == size else _space(h, text[e])
        h.check('space mark', h.iff(t.space_after, want))
        u = doc.get_sentence(1 if cut and i else 0).get_token(i - 1 if cut and i else i)
        h.check('surface in the sentence', h.all([h.same(u.text, t.text), h.iff(u.space_after, t.space_after)]))
    for s, b in zip(doc.sentences, sents):
        h.check('sentence text', h.same(s.text, text[toks[b.start].start:toks[b.end - 1].end]))


def groups(h, n):
    """five words: which of them share a multiword token is arbitrary"""
    dm = h.mod('datamodel')
    text = 'ab cd,ef gh ij'
    spans = [(0, 2), (3, 5), (5, 6), (6, 8), (9, 11)]
    follows = [h.bool('joined%d' % i) for i in range(n)]
    forms = [h.str('form%d' % i, (2, 1, 0, 1, 2)[i], 'xї') for i in range(n)]
    toks, facts = [], []
    cur, sub = None, 0
    joined = [False] + [bool(f) for f in follows[1:]]
    for i in range(n):
        sub = sub + 1 if joined[i] else 0
        cur = cur if joined[i] else spans[i]
        multi = joined[i] or (i + 1 < n and joined[i + 1]) or (i == n - 1 and bool(follows[0]))
        k = {'sub_index': sub, 'text_replacement': forms[i]} if multi else {}
        toks.append(dm.Token(cur[0], cur[1], **k))
        facts.append((cur, sub, multi))
    doc = dm.Document(text, toks)
    for i, t in enumerate(doc.tokens):
        (s, e), sub, multi = facts[i]
        h.check('multiword mark', h.all([h.iff(t.is_multiword, multi), t.sub_index == sub]))
        h.check('multiword text', h.same(t.text, forms[i] if multi else text[s:e]))
        h.check('surface of multiword tokens', h.same(t.doc_text, text[s:e]))
        h.check('space mark', h.iff(t.space_after, text[e:e + 1] in (' ', '')))
    h.check('sentence text', h.same(doc.get_sentence(0).text, text[toks[0].start:toks[-1].end]))


def _id(t):
    return [t.start, t.end, t.sub_index, t.text]


def _check_list(h, words, get, count, want):
    """words: iterable of navigable items in the order of want"""
    n = len(want)
    got = list(words)
    h.check('forwards', len(got) == n and count == n and h.same([_id(t) for t in got], want))
    h.check('by index', h.same([_id(get(i)) for i in range(n)], want))
    h.check('by index from the end', h.same([_id(get(i - n)) for i in range(n)], want))
    t = get(0)
    seen = []
    for i in range(n):
        h.check('marks', h.all([h.iff(t.is_first, i == 0), h.iff(t.is_last, i == n - 1)]))
        seen.append(_id(t))
        nxt = t.next
        if i < n - 1:
            h.check('neighbours', nxt is not None and h.same(_id(nxt.previous), _id(t)))
            t = nxt
        else:
            h.check('ends', nxt is None and got[0].previous is None)
    h.check('walk by next', h.same(seen, want))
    t = get(n - 1)
    seen = []
    for i in range(n):
        seen.append(_id(t))
        t = t.previous
        if t is None:
            break
    h.check('backwards', h.same(list(reversed(seen)), want))
    for i in range(n):
        a, b = got[i].next, got[i].previous
        h.check('neighbours agree with positions',
                (a is None) == (i == n - 1) and (b is None) == (i == 0) and
                h.all([a is None or h.same(_id(a), want[i + 1] if i < n - 1 else []),
                       b is None or h.same(_id(b), want[i - 1] if i else [])]))
        u = get(i - n)
        a, b = u.next, u.previous
        h.check('from the end: marks and neighbours agree with positions', h.all(
            [h.iff(u.is_first, i == 0), h.iff(u.is_last, i == n - 1), (a is None) == (i == n - 1), (b is None) == (i == 0),
             a is None or h.same(_id(a), want[i + 1] if i < n - 1 else []), b is None or h.same(_id(b), want[i - 1] if i else [])]))
        h.check('marks agree with positions', h.all([h.iff(got[i].is_first, i == 0), h.iff(got[i].is_last, i == n - 1)]))
    for bad in (n, n + 1):
        r = h.call(get, bad)
        h.check('no word behind the end', r.error == 'IndexError', [r.error])


def _check_doc(h, doc, want, bounds):
    _check_list(h, doc.tokens, doc.get_token, doc.tokens_count, want)
    h.check('indexing', h.same([_id(doc[i]) for i in range(len(want))], want))
    h.check('iteration', h.same([_id(t) for t in doc], want))
    k = len(bounds)
    h.check('sentence boundaries', h.same([[b.start, b.end] for b in doc.sentences_boundaries], bounds))
    together = []
    sents = list(doc.sentences)
    h.check('sentence count', len(sents) == k and doc.sentences_count == k)
    for i, (s, e) in enumerate(bounds):
        sent = doc.get_sentence(i)
        h.check('sentence text', h.same(sent.text, doc.text[want[s][0]:want[e - 1][1]]))
        _check_list(h, sent.tokens, sent.get_token, sent.tokens_count, want[s:e])
        h.check('sentence by iteration', h.same([_id(t) for t in sents[i]], want[s:e]))
        h.check('sentence marks', h.all([h.iff(x.is_first, i == 0) for x in (sent, sents[i])] +
                                        [h.iff(x.is_last, i == k - 1) for x in (sent, sents[i])]))
        together.extend(_id(t) for t in sent)
        for x in (sent, sents[i], doc.get_sentence(i - k)):
            a, b = x.next, x.previous
            h.check('sentence neighbours', (a is None) == (i == k - 1) and (b is None) == (i == 0))
            if a is not None:
                h.check('next sentence', h.same([_id(t) for t in a], want[bounds[i + 1][0]:bounds[i + 1][1]]))
            if b is not None:
                h.check('previous sentence', h.same([_id(t) for t in b], want[bounds[i - 1][0]:bounds[i - 1][1]]))
    h.check('sentences together', h.same(together, want))


def walk(h, n):
    dm = h.mod('datamodel')
    joined = h.int('joined', 0, n - 1) if n > 1 else 0     # word joined to its predecessor (0: none)
    j = int(joined)
    toks, want = [], []
    text = ''
    for i in range(n):
        if j and i == j:
            s = want[-1][0]
            toks.append(dm.Token(s, s + 1, sub_index=1, text_replacement='w1'))
            want.append([s, s + 1, 1, 'w1'])
            continue
        s = len(text)
        text += chr(97 + i) + ' '
        k = {'sub_index': 0, 'text_replacement': 'w0'} if j and i == j - 1 else {}
        toks.append(dm.Token(s, s + 1, **k))
        want.append([s, s + 1, 0, 'w0' if k else chr(97 + i)])
    cuts = [0] + [i for i in range(1, n) if h.bool('cut%d' % i)] + [n]
    bounds = [[a, b] for a, b in zip(cuts, cuts[1:])]
    doc = dm.Document(text, list(reversed(toks)), [dm.Sentence(a, b) for a, b in bounds])
    _check_doc(h, doc, want, bounds)


def long(h):
    dm = h.mod('datamodel')
    n = 12
    c1 = int(h.int('cut1', 1, n - 2))
    c2 = int(h.int('cut2', 2, n - 1))
    h.assume(c1 < c2)
    toks, want = [], []
    text = ''
    for i in range(n):
        if i in (4, 5):
            toks.append(dm.Token(toks[3].start, toks[3].end, sub_index=i - 3, text_replacement='m%d' % i))
            want.append([toks[3].start, toks[3].end, i - 3, 'm%d' % i])
            continue
        s = len(text)
        text += 'w%d' % i
        e = len(text)
        text += ' ' if i % 3 else ''
        k = {'text_replacement': 'm3'} if i == 3 else {}
        toks.append(dm.Token(s, e, **k))
        want.append([s, e, 0, 'm3' if i == 3 else text[s:e]])
    bounds = [[0, c1], [c1, c2], [c2, n]]
    doc = dm.Document(text, toks, [dm.Sentence(a, b) for a, b in bounds])
    _check_doc(h, doc, want, bounds)


def hundreds(h):
    dm = h.mod('datamodel')
    n = 300
    doc = dm.Document('x ' * n, [dm.Token(2 * i, 2 * i + 1, head_sentence_index=-1) for i in range(n)], [dm.Sentence(i, i + 1) for i in range(n)])
    i = h.choice('i', [0, 1, 127, 128, 254, 255, 256, 257, 298, 299])
    for get in (doc.get_sentence, doc.get_token):
        for x in (get(i), get(i - n)):
            a, b = x.next, x.previous
            start = lambda y: y.start if get == doc.get_token else y.get_token(0).start
            h.check('hundreds', h.all([start(x) == 2 * i, x.is_first == (i == 0), x.is_last == (i == n - 1), (a is None) == (i == n - 1),
                                       (b is None) == (i == 0), a is None or start(a) == 2 * i + 2, b is None or start(b) == 2 * i - 2]))
    h.check('hundreds', len(list(doc.tokens)) == n and [s.text for s in doc.sentences] == ['x'] * n)


def empty(h):
    dm = h.mod('datamodel')
    text = h.str('text', h.choice('n', [0, 1]), 'a ')
    doc = dm.Document(text, [])
    h.check('empty document', h.all([h.same(doc.text, text), doc.tokens_count == 0, doc.sentences_count == 0,
                                     len(list(doc.tokens)) == 0, len(list(doc.sentences)) == 0]))
