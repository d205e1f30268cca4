"""C14 a tagger under test never sees the gold annotation and is scored exactly"""
from props.common import structure, doc_fields
from props.evalspec import W, Bank, alignments, agrees, spans_ok, close

BOUNDS = {'gold': 'up to 3 documents (7 or 120 of one word, one of 40 words in 5 sentences) of up to 3 sentences, 9 words, one multiword token of two or three words',
          'predictions': 'arbitrary one-character values of every annotation on selected words, all trees of chosen pairs'}
ASSUMPTIONS = ['the tagger under test keeps text, tokens and sentences', 'features are written in the order CoNLL-U requires']

MORPH = ['UPOS', 'XPOS', 'Feats', 'AllTags', 'Lemmas']
MUST = ['gold hidden', 'each document once, in order', 'scores', 'gold unchanged']


def cases(tier):
    out = [('data_%s' % w, 'dataset', {'which': w}, MUST) for w in ('upos', 'xpos', 'feats', 'lemma', 'heads', 'deprel')]
    out += [('perfect', 'perfect', {}, ['full scores']), ('documents', 'documents', {}, MUST), ('file_%s' % 0, 'file', {'saved': False},
            ['gold hidden', 'scores']), ('file_%s' % 1, 'file', {'saved': True}, ['gold hidden', 'scores', 'saved']),
            ('saved_same', 'saved_same', {}, ['same scores']), ('twice', 'twice', {}, ['scores']), ('eager', 'eager', {}, MUST),
            ('many_lazy', 'many', {'lazy': True}, MUST), ('many_eager', 'many', {'lazy': False}, MUST),
            ('large', 'large', {}, MUST), ('testers', 'testers', {}, ['scores', 'gold hidden']), ('partial', 'partial', {}, ['gold hidden']), ('mwt_file', 'mwt_file', {}, ['scores', 'gold hidden'])]
    if tier == 'thorough':
        out += [('data2', 'dataset2', {}, MUST)]
    return out


def _feats(s):
    if s == '_':
        return None
    return dict([p.split('=') for p in s.split('|')])


def _opt(x):
    return None if isinstance(x, str) and x == '_' else x


def _annotate(dm, t, w, place=None):
    """the token with the annotation of w"""
    pos = dm.Pos(_opt(w['upos']), _opt(w['xpos']), _feats(w['feats']))
    t = dm.Token.with_morphology(t, pos, _opt(w['lemma']))
    if w['head'] is not None:
        t = dm.Token.with_syntax(t, _opt(w['deprel']), head_sentence_index=w['head'] - 1)
    return t


def _document(dm, sentences):
    """[[(form or None, [words])]] -> Document"""
    text, toks, sents = '', [], []
    for s in sentences:
        first = len(toks)
        for form, ws in s:
            f = form if form is not None else ws[0]['form']
            start = len(text)
            text = text + f + ' '
            for i, w in enumerate(ws):
                k = dict(sub_index=i, text_replacement=w['form']) if form is not None else {}
                toks.append(_annotate(dm, dm.Token(start, start + len(f), **k), w))
        sents.append(dm.Sentence(first, len(toks)))
    return dm.Document(text, toks, sents)


class Tagger(object):
    """records what it receives, answers with the given words"""

    def __init__(self, dm, words, lazy=True):
        self.dm = dm
        self.words = words
        self.lazy = lazy
        self.seen = []

    def _answer(self, doc, words):
        self.seen.append(doc)
        toks = [_annotate(self.dm, t, w) for t, w in zip(doc.tokens, words)]
        return self.dm.Document.from_document(doc, toks)

    def _run(self, documents):
        left = list(self.words)
        for d in documents:
            n = d.tokens_count
            yield self._answer(d, left[:n])
            left = left[n:]

    def tag(self, documents):
        if self.lazy:
            return self._run(documents)
        return iter(list(self._run(list(documents))))


def _hidden(h, seen, gold_docs):
    h.check('each document once, in order', len(seen) == len(gold_docs) and h.same([structure(d) for d in seen], [structure(d) for d in gold_docs]))
    for d in seen:
        for t in d.tokens:
            h.check('gold hidden', t.lemma is None and t.pos is None and t.deprel is None and h.not_(t.has_head), [t.lemma, t.pos])


def _words(sentences):
    return [w for s in sentences for _, ws in s for w in ws]


def _relabel(sentences, words):
    """the same tokens with other words"""
    out, k = [], 0
    for s in sentences:
        cur = []
        for form, ws in s:
            cur.append((form, words[k:k + len(ws)]))
            k += len(ws)
        out.append(cur)
    return out


def _scores(h, result, gold, pred, metrics=None):
    g, s = Bank(gold), Bank(pred)
    metrics = metrics or MORPH + ['UAS', 'LAS', 'CLAS']
    h.check('scores', h.all([agrees(h, result, g, s, [(i, i) for i in range(len(g.words))], metrics), spans_ok(h, result, g, s)]))


def _run(h, docs, pred_words, lazy=True):
    """test with the data set tester; docs: list of sentences lists"""
    dm = h.mod('datamodel')
    ev = h.mod('evaluation.evaluation')
    gold = [_document(dm, d) for d in docs]
    before = [doc_fields(d) for d in gold]
    tagger = Tagger(dm, pred_words, lazy)
    result = ev.DataSetTaggerTester(gold).test(tagger, 'name')
    _hidden(h, tagger.seen, gold)
    h.check('gold unchanged', h.same([doc_fields(d) for d in gold], before))
    gs = [s for d in docs for s in d]
    _scores(h, result, gs, _relabel(gs, pred_words))
    return result


def _base():
    return [[[(None, [W('ab', 0, upos='N', lemma='l', xpos='x', feats='A=a', deprel='root')]),
              ('cd', [W('c', 1, upos='V', lemma='m', xpos='y', feats='A=a|B=b', deprel='obj'),
                      W('d', 2, upos='V', lemma='n', xpos='_', feats='_', deprel='det')])]]]


def dataset(h, which):
    """one document with a multiword token, arbitrary values of one annotation on both sides"""
    docs = _base()
    gw = _words([s for d in docs for s in d])
    pw = [dict(w) for w in gw]
    if which == 'heads':
        pw[0]['head'], pw[1]['head'], pw[2]['head'] = [(0, 1, 2), (0, 1, 1), (2, 0, 1), (2, 0, 2), (3, 1, 0), (2, 3, 0)][
            h.choice('tree', [0, 1, 2, 3, 4, 5])]
        pw[2]['deprel'] = h.choice('rel', ['det', 'det:x', 'case'])
    elif which == 'feats':
        for i in (0, 1):
            pw[i]['feats'] = h.choice('feats%d' % i, ['_', 'A=a', 'A=b', 'A=a|B=b'])
    elif which == 'deprel':
        for i in range(3):
            pw[i]['deprel'] = h.choice('rel%d' % i, ['root', 'obj', 'det', '_'])
    else:
        for i in range(3):
            gw[i][which] = h.str('gold%d' % i, 1, 'aяA')
            pw[i][which] = h.str('pred%d' % i, 1, 'aяA_')
    _run(h, docs, pw)


def dataset2(h):
    docs = _base()
    gw = _words([s for d in docs for s in d])
    pw = [dict(w) for w in gw]
    for i in range(3):
        for f in ('upos', 'lemma', 'xpos'):
            gw[i][f] = h.str('gold.%s%d' % (f, i), 1, 'aA')
            pw[i][f] = h.str('pred.%s%d' % (f, i), 1, 'aA')
    _run(h, docs, pw)


def _full(h, result, label, metrics):
    for m in metrics:
        r = result[m]
        h.check(label, close(r.precision, 1.0) and close(r.recall, 1.0) and close(r.f1, 1.0), [m, r.precision])


def perfect(h):
    """reproducing the gold"""
    docs = _base()
    for i, w in enumerate(_words(docs[0])):
        w['upos'] = h.str('u%d' % i, 1, 'NV')
        w['lemma'] = h.str('l%d' % i, 2, 'aЖ.')
        w['feats'] = h.choice('f%d' % i, ['_', 'A=a', 'A=a|B=b'])
    syntax = h.bool('syntax')
    if not syntax:
        for w in _words(docs[0]):
            w['head'] = None
            w['deprel'] = '_'
    r = _run(h, docs, [dict(w) for w in _words(docs[0])])
    _full(h, r, 'full scores', ['Tokens', 'Sentences', 'Words', 'UPOS', 'XPOS', 'Feats', 'AllTags', 'Lemmas', 'UAS', 'LAS'])


def _several(h, n):
    docs = []
    for d in range(n):
        sents = []
        for s in range(1 + d % 2):
            toks = [(None, [W('w%d%d' % (d, s), 0, upos='N', lemma='l%d' % d, deprel='root')])]
            if s == 0:
                toks.append(('q', [W('a', 1, upos='V', lemma='m', deprel='x'), W('b', 1, upos='D', lemma='k', feats='A=%d' % d, deprel='y')]))
            sents.append(toks)
        docs.append(sents)
    return docs


def documents(h):
    docs = _several(h, h.choice('documents', [1, 2, 3]))
    ws = _words([s for d in docs for s in d])
    pw = [dict(w) for w in ws]
    at = h.int('wrong', 0, len(ws) - 1)
    for i in range(len(ws)):
        if at == i:
            pw[i]['upos'] = h.str('upos', 1, 'NVD')
            pw[i]['lemma'] = h.str('lemma', 1, 'mk')
    _run(h, docs, pw)


def eager(h):
    """a tagger that consumes everything before it answers"""
    docs = _several(h, 3)
    pw = [dict(w) for w in _words([s for d in docs for s in d])]
    pw[4]['upos'] = h.str('upos', 1, 'NVD')
    _run(h, docs, pw, lazy=False)


def many(h, lazy):
    """more documents, all alike but for one"""
    docs = [[[(None, [W('w', 0, upos='N', lemma='l', deprel='root')])]] for d in range(h.choice('documents', [4, 5, 7, 120]))]
    pw = [dict(d[0][0][1][0]) for d in docs]
    at = h.int('at', 0, len(docs) - 1) if len(docs) < 9 else h.choice('place', [0, 64, 119])
    for i in range(len(docs)):
        if at == i:
            docs[i][0][0] = (None, [W('v', 0, upos=h.str('gold', 1, 'NV'), lemma='m', deprel='root')])
            pw[i] = W('v', 0, upos='N', lemma=h.str('lemma', 1, 'lm'), deprel='root')
    _run(h, docs, pw, lazy)


def large(h):
    """a document of forty words in five sentences"""
    docs = [[[(None, [W('w', i, upos='N', lemma='l', xpos='x', feats='A=a', deprel='r')]) for i in range(8)] for s in range(5)]]
    pw = [dict(w) for w in _words(docs[0])]
    at = h.choice('at', [0, 15, 39])
    pw[at]['upos'] = h.str('upos', 1, 'NV')
    pw[at]['lemma'] = h.str('lemma', 1, 'lm')
    pw[at]['deprel'] = h.str('deprel', 1, 'rq')
    _run(h, docs, pw)


def testers(h):
    """two testers with files of their own, one after the other"""
    dm = h.mod('datamodel')
    ev = h.mod('evaluation.evaluation')
    data = []
    for k in range(2):
        upos = h.str('gold%d' % k, 1, 'NV')
        gs = [[(None, [W('w', 0, upos=upos, lemma='l', deprel='r')])] for s in range(k + 1)]
        data.append((gs, ev.FileTaggerTester(h.file('gold%d.conllu' % k, Bank(gs).text()))))
    for k in [0, 1, 0]:
        gs, tester = data[k]
        pw = [W('w', 0, upos='N', lemma='l', deprel='r') for _ in gs]
        tagger = Tagger(dm, pw)
        result = tester.test(tagger, 'out')
        _hidden(h, tagger.seen, list(h.mod('evaluation.dataset').CoNLLUDataSet(h.path('gold%d.conllu' % k))))
        _scores(h, result, gs, _relabel(gs, pw))


def twice(h):
    """the tester can be used again"""
    dm = h.mod('datamodel')
    ev = h.mod('evaluation.evaluation')
    docs = _several(h, 2)
    gold = [_document(dm, d) for d in docs]
    tester = ev.DataSetTaggerTester(gold)
    gs = [s for d in docs for s in d]
    for k in range(2):
        pw = [dict(w) for w in _words(gs)]
        pw[k]['upos'] = h.str('upos%d' % k, 1, 'NVD')
        tagger = Tagger(dm, pw)
        result = tester.test(tagger, 'name%d' % k)
        _hidden(h, tagger.seen, gold)
        _scores(h, result, gs, _relabel(gs, pw))


def partial(h):
    """any kind of partial gold annotation is hidden"""
    dm = h.mod('datamodel')
    ev = h.mod('evaluation.evaluation')
    pos = dm.Pos('N', None, {'A': 'b'}) if h.bool('pos') else None
    lemma = h.str('lemma', 1, 'ab') if h.bool('lemma?') else None
    rel = h.str('rel', 1, 'ab') if h.bool('rel?') else None
    kind = h.choice('head', ['none', 'sentence', 'document'])
    k = {} if kind == 'none' else {'head_sentence_index': -1} if kind == 'sentence' else {'head_document_index': -1}
    k2 = {} if kind == 'none' else {'head_sentence_index': 0} if kind == 'sentence' else {'head_document_index': 0}
    extras = dm.TokenExtras({'x': 1}) if h.bool('extras') else None
    if h.bool('multiword'):
        k['text_replacement'] = 'q'
    gold = [dm.Document('a b', [dm.Token(0, 1, pos, lemma, rel, extras=extras, **k), dm.Token(2, 3, pos, None, rel, **k2)])]
    tagger = Tagger(dm, [W('a'), W('b')])
    ev.DataSetTaggerTester(gold).test(tagger, 'name')
    _hidden(h, tagger.seen, gold)


def _file(h, gs, pw, results=None, name='out.conllu'):
    dm = h.mod('datamodel')
    ev = h.mod('evaluation.evaluation')
    path = h.file('gold.conllu', Bank(gs).text())
    tester = ev.FileTaggerTester(path, results) if results is not None else ev.FileTaggerTester(path)
    gold = list(h.mod('evaluation.dataset').CoNLLUDataSet(path))
    h.check('one document per sentence', len(gold) == len(gs))
    tagger = Tagger(dm, pw)
    result = tester.test(tagger, name)
    _hidden(h, tagger.seen, gold)
    h.check('gold file unchanged', h.same(h.read(path), Bank(gs).text()))
    return result


def file(h, saved):
    docs = _several(h, 2)
    gs = [s for d in docs for s in d]
    ws = _words(gs)
    pw = [dict(w) for w in ws]
    ws[1]['upos'] = h.str('gold', 1, 'NV')
    at = h.choice('wrong', [0, 2, len(ws) - 1])
    pw[at]['lemma'] = h.str('lemma', 1, 'lж')
    pw[at]['xpos'] = h.str('xpos', 1, '_x')
    if at == 2:
        pw[2]['head'] = h.choice('head', [1, 2])
        pw[2]['deprel'] = h.choice('rel', ['x', 'y', 'y:z'])
    name = h.choice('name', ['out.conllu', 'sub/dir/out.conllu']) if saved else 'out.conllu'
    result = _file(h, gs, pw, h.path('results') if saved else None, name)
    _scores(h, result, gs, _relabel(gs, pw))
    files = h.listing()
    h.check('saved', h.same(files, sorted(['gold.conllu'] + (['results/' + name] if saved else []))), [files])
    if saved:
        io = h.mod('evaluation.conllu_io')
        back = list(io.CoNLLUReader().read_from_str(h.read(h.path('results/' + name))))
        h.check('predictions saved', h.same([[t.text, t.lemma, t.pos.upos, t.pos.xpos, t.deprel] for d in back for t in d.tokens],
                                            [[w['form'], _opt(w['lemma']), _opt(w['upos']), _opt(w['xpos']), _opt(w['deprel'])] for w in pw]))


def saved_same(h):
    """the scores do not depend on saving; an older result is replaced"""
    docs = _several(h, 1)
    gs = [s for d in docs for s in d]
    ws = _words(gs)
    pw = [dict(w) for w in ws]
    pw[0]['upos'] = h.str('upos', 1, 'NV')
    pw[1]['lemma'] = h.str('lemma', 1, 'mя\u00a0')
    pw[2]['deprel'] = h.str('rel', 1, 'xy')
    results = h.dir('results')
    h.file('results/out.conllu', 'old text, longer than the new one ' * h.choice('old', [1, 20]))
    a = _file(h, gs, pw, results)
    b = _file(h, gs, pw)
    for m in sorted(a):
        h.check('same scores', h.all([a[m].precision == b[m].precision, a[m].recall == b[m].recall, a[m].f1 == b[m].f1]) and
                (a[m].aligned_accuracy is None) == (b[m].aligned_accuracy is None) and
                (a[m].aligned_accuracy is None or a[m].aligned_accuracy == b[m].aligned_accuracy))
    _scores(h, a, gs, _relabel(gs, pw))


def mwt_file(h):
    """multiword tokens at every place of a file"""
    at = h.choice('at', [0, 1, 2])
    n = h.choice('n', [2, 3])
    gs = []
    for s in range(2):
        toks = []
        for i in range(3):
            if i == (at + s) % 3:
                toks.append(('xy', [W('xyz'[j], 0 if i == 0 and j == 0 else 1, upos='U%d' % j, lemma='_') for j in range(n)]))
            else:
                toks.append((None, [W('w%d' % i, 0 if i == 0 else 1, upos='N')]))
        gs.append(toks)
    pw = [dict(w) for w in _words(gs)]
    pw[at + 1]['upos'] = h.str('upos', 1, 'NU')
    pw[n + 3]['lemma'] = h.str('lemma', 1, 'Nя')
    result = _file(h, gs, pw)
    _scores(h, result, gs, _relabel(gs, pw))
