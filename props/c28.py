"""C28 pipelines apply their processors in order and baselines annotate every word"""
from props.common import structure, doc_fields, morphology, syntax, pos_key

BOUNDS = {'pipelines': '0 to 4 (and 12) processors, nested up to two levels, streams of 0 to 3 documents', 'documents': '0 to 3 sentences of 1 to 3 words, one of 30 words, one of 150; a word of 60 characters',
          'training': 'up to 4 arbitrary tags, up to 10 words, 1300 in one case'}
ASSUMPTIONS = ['processors are given as a list or tuple', 'the training set has at least one word']


def cases(tier):
    out = [('pipeline%d' % n, 'pipeline', {'n': n}, ['in order', 'entered and left once']) for n in (0, 1, 2, 3, 4)]
    out += [('nested', 'nested', {}, ['in order', 'entered and left once']), ('failure', 'failure', {}, ['left on failure']),
            ('lazy', 'lazy', {}, ['lazily']), ('many', 'many', {}, ['in order', 'entered and left once']), ('kinds', 'kinds', {}, ['in order', 'entered and left once']),
            ('tagger_long', 'tagger_long', {}, ['tag and text', 'nothing else']), ('frequent_late', 'frequent_late', {}, ['most frequent tag']), ('parser_wide', 'parser_wide', {}, ['chain', 'nothing else']), ('again', 'again', {}, ['in order']), ('real', 'real', {}, ['both annotations']),
            ('tagger', 'tagger', {}, ['tag and text', 'nothing else']), ('tagger_stream', 'tagger_stream', {}, ['tag and text']),
            ('tagger_multiword', 'tagger_multiword', {}, ['tag and text', 'nothing else']),
            ('frequent', 'frequent', {}, ['most frequent tag']), ('frequent_tags', 'frequent_tags', {'n': 3 if tier == 'quick' else 4}, ['most frequent tag']),
            ('parser', 'parser', {}, ['chain', 'nothing else']), ('parser_stream', 'parser_stream', {}, ['chain']), ('parser_long', 'parser_long', {}, ['chain']),
            ('parser_multiword', 'parser_multiword', {}, ['chain', 'nothing else'])]
    return out


def _step(h, base, i, log, factor, offset, name='process'):
    class Step(base):
        def work(self, documents):
            for d in documents:
                log.append(('work', i, d))
                yield factor * d + offset

        def __enter__(self):
            log.append(('enter', i))
            return self

        def __exit__(self, a, b, c):
            log.append(('exit', i, a))
    setattr(Step, name, Step.work)
    return Step()


def _steps(h, n, log):
    pr = h.mod('processor')
    return [_step(h, pr.DocumentProcessorInteface, i, log, [2, 1, 3, 1][i], h.int('offset%d' % i, 0, 5)) for i in range(n)]


def _apply(h, n, x):
    for i in range(n):
        x = [2, 1, 3, 1][i] * x + h.int('offset%d' % i, 0, 5)
    return x


def pipeline(h, n):
    """documents are numbers here: every processor is an own function of them"""
    pr = h.mod('processor')
    log = []
    steps = _steps(h, n, log)
    docs = [h.int('doc%d' % i, 0, 9) for i in range(h.choice('docs', [0, 1, 3]))]
    p = pr.DocumentComplexProcessor(steps if h.bool('list') else tuple(steps))
    with p as q:
        h.check('the pipeline itself', q is p)
        h.check('entered and left once', sorted([e[1] for e in log]) == list(range(n)) and all([e[0] == 'enter' for e in log]), [log])
        got = list(p.process(iter(docs)))
    h.check('in order', len(got) == len(docs) and h.all([g == _apply(h, n, d) for g, d in zip(got, docs)]), [got])
    h.check('entered and left once', sorted([e[1] for e in log if e[0] == 'exit']) == list(range(n)) and len([e for e in log if e[0] == 'enter']) == n, [log])
    for i in range(n):
        h.check('one call per document', len([1 for e in log if e[0] == 'work' and e[1] == i]) == len(docs))


def many(h):
    """twelve processors, twenty documents"""
    pr = h.mod('processor')
    log = []
    k = h.int('offset', 0, 5)
    p = pr.DocumentComplexProcessor([_step(h, pr.DocumentProcessorInteface, i, log, 1 + (i in (3, 8)), k if i in (0, 9) else i) for i in range(12)])
    docs = list(range(20)) if h.bool('many') else [h.int('doc', 0, 9)]
    with p:
        got = list(p.process(iter(docs)))
    want = []
    for x in docs:
        for i in range(12):
            x = x * (1 + (i in (3, 8))) + (k if i in (0, 9) else i)
        want.append(x)
    h.check('in order', h.same(got, want), [got, want])
    h.check('entered and left once', sorted([e[1] for e in log if e[0] == 'enter']) == list(range(12)) and sorted([e[1] for e in log if e[0] == 'exit']) == list(range(12)), [log])


def kinds(h):
    """taggers, parsers and other processors in any order, which is kept"""
    pr, tg, ps = h.mod('processor'), h.mod('tagger'), h.mod('parser')
    log = []
    base = {'tagger': (tg.TaggerInterface, 'tag'), 'parser': (ps.ParserInterface, 'parse'), 'other': (pr.DocumentProcessorInteface, 'process')}
    ks = [h.choice('kind%d' % i, ['tagger', 'parser', 'other']) for i in range(3)]
    same = h.bool('the same one twice')
    steps = [_step(h, base[k][0], i, log, [2, 1, 3][i], h.int('offset%d' % i, 0, 5), base[k][1]) for i, k in enumerate(ks)]
    if same:
        steps.append(steps[0])
    p = pr.DocumentComplexProcessor(steps)
    doc = h.int('doc', 0, 9)
    with p:
        got = list(p.process(iter([doc, doc + 1])))
    want = [_apply(h, 3, d) for d in (doc, doc + 1)]
    if same:
        want = [_apply(h, 1, d) for d in want]
    h.check('in order', h.same(got, want), [got, want])
    h.check('entered and left once', same or (sorted([e[1] for e in log if e[0] == 'enter']) == [0, 1, 2] and sorted([e[1] for e in log if e[0] == 'exit']) == [0, 1, 2]), [log])


def nested(h):
    pr = h.mod('processor')
    log = []
    s = _steps(h, 4, log)
    C = pr.DocumentComplexProcessor
    k = h.choice('nesting', [0, 1, 2])
    p = [C([C([s[0], s[1]]), C([s[2], s[3]])]), C([s[0], C([s[1], C([s[2], s[3]])])]), C([C([s[0], C([])]), s[1], C([s[2]]), s[3]])][k]
    docs = [h.int('doc0', 0, 9), h.int('doc1', 0, 9)]
    with p:
        got = list(p.process(iter(docs)))
    h.check('in order', len(got) == 2 and h.all([g == _apply(h, 4, d) for g, d in zip(got, docs)]), [got])
    h.check('entered and left once', sorted([e[1] for e in log if e[0] == 'enter']) == [0, 1, 2, 3] and sorted([e[1] for e in log if e[0] == 'exit']) == [0, 1, 2, 3], [log])


def failure(h):
    """processors are left also when the work fails, and know of it"""
    pr = h.mod('processor')
    log = []
    n = h.choice('n', [1, 2, 3])
    p = pr.DocumentComplexProcessor(_steps(h, n, log))
    where = h.choice('where', [0, 1, 2])

    def source():
        for i in range(where):
            yield i
        raise KeyError('broken')

    def run():
        with p:
            return list(p.process(source()))
    r = h.call(run)
    h.check('failure is passed on', r.error == 'KeyError', [r.error])
    left = [e for e in log if e[0] == 'exit']
    h.check('left on failure', sorted([e[1] for e in left]) == list(range(n)) and all([e[2] is KeyError for e in left]), [left])


def lazy(h):
    pr = h.mod('processor')
    log, taken = [], []
    n = h.choice('n', [0, 1, 3])
    p = pr.DocumentComplexProcessor(_steps(h, n, log))

    def source():
        for i in range(3):
            taken.append(i)
            yield i
    out = iter(p.process(source()))
    h.check('nothing before it is asked for', not taken)
    for i in range(3):
        g = next(out)
        h.check('lazily', len(taken) == i + 1, [taken])
        h.check('in order', g == _apply(h, n, i))
    h.check('no more', next(out, None) is None)


def again(h):
    """one pipeline for several streams"""
    pr = h.mod('processor')
    log = []
    p = pr.DocumentComplexProcessor(_steps(h, 2, log))
    for k in range(2):
        docs = [h.int('doc%d%d' % (k, i), 0, 9) for i in range(2)]
        got = list(p.process(iter(docs)))
        h.check('in order', len(got) == 2 and h.all([g == _apply(h, 2, d) for g, d in zip(got, docs)]), [got])


def _doc(h, sizes, **kw):
    dm = h.mod('datamodel')
    toks, sents = [], []
    letters = 'abcdefghijklmnopqrstuvwxyzабвгдежз'
    for n in sizes:
        sents.append(dm.Sentence(len(toks), len(toks) + n))
        for j in range(n):
            toks.append(dm.Token(2 * len(toks), 2 * len(toks) + 1, **kw))
    return dm.Document(' '.join(letters[:len(toks)]), toks, sents)


def _tagged(h, doc, got, pos):
    h.check('nothing else', h.same(structure(got), structure(doc)) and h.same(syntax(got), syntax(doc)) and
            all([a.extras == b.extras for a, b in zip(doc.tokens, got.tokens)]), [structure(got)])
    for w, g in zip(doc.tokens, got.tokens):
        h.check('tag and text', h.all([h.same(pos_key(g.pos), pos_key(pos)), h.same(g.lemma, w.text)]), [g])


def _chained(h, doc, got, rel):
    h.check('nothing else', h.same(structure(got), structure(doc)) and h.same(morphology(got), morphology(doc)) and
            all([a.extras == b.extras for a, b in zip(doc.tokens, got.tokens)]), [structure(got)])
    place = 0
    for s in got.sentences:
        for j, w in enumerate(s.tokens):
            d = got.get_token(place + j)
            h.check('chain', w.has_head and w.is_root == (j == 0) and w.head_index == j - 1, [w])
            h.check('chain in the document', d.is_root == (j == 0) and (j == 0 or d.head_index == place + j - 1), [d])
            h.check('relation', h.same(w.deprel, rel), [w])
        place += s.tokens_count


def real(h):
    """baseline tagger and parser in one pipeline"""
    pr, tg, ps, dm = h.mod('processor'), h.mod('tagger'), h.mod('parser'), h.mod('datamodel')
    pos = dm.Pos(h.str('upos', 1, 'NV'), None, {'K': 'v'})
    rel = h.str('rel', 1, 'ab')
    steps = [tg.StubTagger(pos), ps.StubParser(rel)]
    if h.bool('parser first'):
        steps = steps[::-1]
    docs = [_doc(h, [2, 1]), _doc(h, []), _doc(h, [1])]
    with pr.DocumentComplexProcessor(steps) as p:
        got = list(p.process(iter(docs)))
    h.check('one document per input', len(got) == 3)
    for d, g in zip(docs, got):
        h.check('structure', h.same(structure(d), structure(g)))
        for s in g.sentences:
            for j, w in enumerate(s.tokens):
                h.check('both annotations', h.all([h.same(pos_key(w.pos), pos_key(pos)), h.same(w.lemma, w.text), w.head_index == j - 1, h.same(w.deprel, rel)]), [w])


def tagger(h):
    """annotation of any kind is replaced, syntax stays"""
    tg, dm = h.mod('tagger'), h.mod('datamodel')
    a, b = h.str('a', 2, 'aЯ'), h.str('b', 1, 'ab')
    old = dm.Pos('old') if h.bool('tagged') else None
    toks = [dm.Token(0, 2, old, 'old', 'r', head_sentence_index=h.int('head0', -1, 1), extras=dm.TokenExtras({'k': 1})),
            dm.Token(2, 3, old, None, None, head_sentence_index=h.int('head1', -1, 1) if h.bool('syntax') else None)]
    doc = dm.Document(a + b, toks)
    pos = dm.Pos(h.str('upos', 1, 'NV'), h.str('xpos', 1, 'xy') if h.bool('xpos?') else None, {'K': 'v'} if h.bool('feats') else None)
    before = doc_fields(doc)
    got, = tg.StubTagger(pos).tag(iter([doc]))
    _tagged(h, doc, got, pos)
    h.check('input untouched', h.same(before, doc_fields(doc)))


def tagger_stream(h):
    tg, dm = h.mod('tagger'), h.mod('datamodel')
    docs = [_doc(h, [2, 1]), _doc(h, []), _doc(h, [1, 1])]
    pos = dm.Pos(h.str('upos', 1, 'NV'))
    t = tg.StubTagger(pos)
    got = list(t.process(iter(docs)) if h.bool('process') else t.tag(iter(docs)))
    h.check('one document per input', len(got) == 3)
    for d, g in zip(docs, got):
        _tagged(h, d, g, pos)


def tagger_long(h):
    """many words, and a long one"""
    tg, dm = h.mod('tagger'), h.mod('datamodel')
    long = 'Abcdeж' * 10
    text = long + ' a' * 150
    toks = [dm.Token(0, 60)] + [dm.Token(61 + 2 * i, 62 + 2 * i) for i in range(150)]
    doc = dm.Document(text, toks, [dm.Sentence(0, 1), dm.Sentence(1, 150), dm.Sentence(150, 151)])
    pos = dm.Pos(h.str('upos', 1, 'NV'))
    got, = tg.StubTagger(pos).tag(iter([doc]))
    _tagged(h, doc, got, pos)


def frequent_late(h):
    """the most frequent tag may come last"""
    dm = h.mod('datamodel')
    tags = [dm.Pos('a')] * 600 + [dm.Pos('b', 'x')] * h.choice('more', [590, 610]) + [dm.Pos(h.str('u', 1, 'abc'))]
    tg = h.mod('tagger')
    docs = [dm.Document(' '.join('w' * len(p)), [dm.Token(2 * i, 2 * i + 1, t, 'l') for i, t in enumerate(p)]) for p in (tags[:3], tags[3:700], tags[700:])]
    tagger, = tg.StubTaggerTrainer().train(docs)
    got, = tagger.tag(iter([_doc(h, [1])]))
    want = dm.Pos('a') if len(tags) == 1191 else dm.Pos('b', 'x')
    h.check('most frequent tag', h.same(pos_key(got.get_token(0).pos), pos_key(want)), [got.get_token(0)])


def parser_wide(h):
    """a long sentence, and many"""
    ps, dm = h.mod('parser'), h.mod('datamodel')
    sizes = [[150], [1] * 120, [2, 130, 1]][h.choice('sizes', [0, 1, 2])]
    toks, sents = [], []
    for n in sizes:
        sents.append(dm.Sentence(len(toks), len(toks) + n))
        toks += [dm.Token(2 * (len(toks) + j), 2 * (len(toks) + j) + 1) for j in range(n)]
    doc = dm.Document('a ' * len(toks), toks, sents)
    rel = h.str('rel', 1, 'ab')
    got, = ps.StubParser(rel).parse(iter([doc]))
    _chained(h, doc, got, rel)


def _multiword(h):
    dm = h.mod('datamodel')
    toks = [dm.Token(0, 1, dm.Pos('x'), 'lx')] + [dm.Token(2, 4, dm.Pos('y'), 'ly', sub_index=i, text_replacement=h.str('form%d' % i, 1 + i, 'pЯ'), extras=dm.TokenExtras({'k': i}))
                                                  for i in range(3)] + [dm.Token(4, 5)]
    return dm.Document('a bc.', toks, [dm.Sentence(0, 4), dm.Sentence(4, 5)] if h.bool('split') else None)


def tagger_multiword(h):
    tg, dm = h.mod('tagger'), h.mod('datamodel')
    doc = _multiword(h)
    got, = tg.StubTagger(dm.Pos('N')).tag(iter([doc]))
    _tagged(h, doc, got, dm.Pos('N'))


def _train(h, tags, split):
    """the tag the trained baseline gives"""
    tg, dm = h.mod('tagger'), h.mod('datamodel')
    docs = []
    for part in (tags[:split], tags[split:]):
        if part:
            docs.append(dm.Document(' '.join('w' * len(part)), [dm.Token(2 * i, 2 * i + 1, t, 'l') for i, t in enumerate(part)]))
    taggers = tg.StubTaggerTrainer().train(docs)
    h.check('one tagger', len(taggers) == 1)
    new = _doc(h, [1, 1])
    got, = taggers[0].tag(iter([new]))
    first = got.get_token(0).pos
    _tagged(h, new, got, first)
    counts = [len([1 for u in tags if h.same(pos_key(u), pos_key(t))]) for t in tags]
    mine = len([1 for u in tags if h.same(pos_key(u), pos_key(first))])
    h.check('most frequent tag', mine == max(counts), [first, counts])


def frequent(h):
    dm = h.mod('datamodel')
    n = [h.choice('n%d' % i, [1, 2, 4]) for i in range(3)]
    _train(h, [dm.Pos('c')] * n[0] + [dm.Pos('a', 'x')] * n[1] + [dm.Pos('b', None, {'K': 'v'})] * n[2], 3)


def frequent_tags(h, n):
    """arbitrary tags"""
    dm = h.mod('datamodel')
    tags = [dm.Pos(h.str('u%d' % i, 1, 'ab'), 'x' if h.bool('x%d' % i) else None, {'K': 'v'} if i == 1 and h.bool('k') else None) for i in range(n)]
    _train(h, tags, 2)


def parser(h):
    ps, dm = h.mod('parser'), h.mod('datamodel')
    pos = dm.Pos(h.str('upos', 1, 'NV')) if h.bool('tagged') else None
    toks = [dm.Token(2 * i, 2 * i + 1, pos, h.str('lemma%d' % i, 1, 'ab') if i == 0 else None, 'old', head_sentence_index=h.int('head%d' % i, -1, 1) if i else -1,
                     extras=dm.TokenExtras({'k': i})) for i in range(3)]
    doc = dm.Document('a b c', toks, [dm.Sentence(0, 2), dm.Sentence(2, 3)] if h.bool('split') else None)
    rel = h.str('rel', 1, 'ab') if h.bool('rel?') else None
    p = ps.StubParser(rel) if rel is not None else ps.StubParser()
    before = doc_fields(doc)
    got, = p.parse(iter([doc]))
    _chained(h, doc, got, rel)
    h.check('input untouched', h.same(before, doc_fields(doc)))


def parser_stream(h):
    ps = h.mod('parser')
    docs = [_doc(h, [2, 1]), _doc(h, []), _doc(h, [1, 3, 1])]
    rel = h.str('rel', 1, 'ab')
    p = ps.StubParser(rel)
    got = list(p.process(iter(docs)) if h.bool('process') else p.parse(iter(docs)))
    h.check('one document per input', len(got) == 3)
    for d, g in zip(docs, got):
        _chained(h, d, g, rel)


def parser_long(h):
    ps = h.mod('parser')
    doc = _doc(h, [[12, 1, 17], [30], [1, 1, 28]][h.choice('sizes', [0, 1, 2])])
    got, = ps.StubParser('r').parse(iter([doc]))
    _chained(h, doc, got, 'r')


def parser_multiword(h):
    ps = h.mod('parser')
    doc = _multiword(h)
    got, = ps.StubParser('r').parse(iter([doc]))
    _chained(h, doc, got, 'r')
