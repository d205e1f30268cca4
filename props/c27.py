"""C27 conversion to and from the external tagger keeps words and annotations aligned"""
from props.common import structure, doc_fields, pos_key

BOUNDS = {'documents': '1 to 3 of 0 to 3 sentences of 1 to 4 words, with multiword tokens; one of 7 sentences, one of 120, one sentence of 150 words',
          'annotations': 'lemma, tags, relation absent or of one character, up to 2 features (9 in one case)', 'heads': 'none, root or any word of the sentence'}
ASSUMPTIONS = ['the external pipeline keeps the number and order of the words of a sentence, marks absent values by empty strings and a missing head by a negative number',
               'features and their values contain no "=" and no "|"']


def cases(tier):
    out = [('handed_%s' % k, 'handed', {'what': k}, ['handed over']) for k in ('lemma', 'tags', 'feats', 'forms')]
    out += [('back_%s' % k, 'back', {'what': k, 'n': 2}, ['put back', 'structure']) for k in ('lemma', 'tags', 'feats', 'rel')]
    out += [('heads%d' % n, 'heads', {'n': n}, ['put back']) for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]
    out += [('documents', 'documents', {}, ['put back', 'structure', 'each sentence once']), ('multiword', 'multiword', {}, ['put back', 'structure']),
            ('tagger', 'processor', {'kind': 'UDPipeTagger'}, ['put back', 'calls']), ('parser', 'processor', {'kind': 'UDPipeParser'}, ['put back', 'calls']),
            ('both', 'processor', {'kind': 'UDPipeTaggerParser'}, ['put back', 'calls']), ('loaded', 'loaded', {}, ['loaded model']),
            ('replaced', 'replaced', {}, ['put back']), ('stream', 'stream', {}, ['lazily']), ('long', 'long', {}, ['put back', 'each sentence once']), ('wide', 'wide', {}, ['put back', 'handed over']), ('many', 'many', {}, ['put back', 'each sentence once']),
            ('handed_features', 'handed_features', {}, ['handed over']), ('handed_spaces', 'handed_spaces', {}, ['handed over', 'put back']),
            ('unchanged', 'unchanged', {}, ['round trip'])]
    return out


class Word(object):
    def __init__(self, form):
        self.form = form
        self.lemma = ''
        self.upostag = ''
        self.xpostag = ''
        self.feats = ''
        self.head = -1
        self.deprel = ''


class Sentence(object):
    def __init__(self):
        self.words = [Word('<root>')]

    def addWord(self, form):
        self.words.append(Word(form))
        return self.words[-1]


def _wrapper(h):
    m = h.mod('wrappers.udpipe1_2')
    h.patch(m.ud, 'Sentence', Sentence)
    return m


class Model(object):
    """sets what answer(sentence number, word number) gives: a dict of attributes; remembers what it was handed"""

    def __init__(self, answer, stages=None):
        self.answer = answer
        self.calls = []
        self.handed = []
        self.stages = stages

    def _seen(self, s):
        return [[w.form, w.lemma, w.upostag, w.xpostag, w.feats] for w in s.words[1:]]

    def _apply(self, s, what, options):
        self.calls.append((what, options, s))
        if self.stages is None or what == self.stages[0]:
            self.handed.append(self._seen(s))
        i = len(self.handed) - 1
        for j, w in enumerate(s.words[1:]):
            for k, v in self.answer(i, j).items():
                if self.stages is None or (k in ('head', 'deprel')) == (what == 'parse') or len(self.stages) == 1:
                    setattr(w, k, v)

    def tag(self, s, options):
        self._apply(s, 'tag', options)

    def parse(self, s, options):
        self._apply(s, 'parse', options)


def _feats(s):
    return sorted([p.split('=') for p in s.split('|')]) if not isinstance(s, str) or s else []


def _expected(a):
    """what the word has to carry: [pos, lemma, relation, has head, root, head]"""
    f = a.get('feats', '')
    feats = [[x[0], x[1]] for x in sorted([p.split('=') for p in f.split('|')])] if len(f) else []
    u, x = a.get('upostag', ''), a.get('xpostag', '')
    pos = [u if len(u) else None, x if len(x) else None, feats] if len(u) or len(x) or feats else None
    lemma, rel = a.get('lemma', ''), a.get('deprel', '')
    head = a.get('head', -1)
    return pos, lemma if len(lemma) else None, rel if len(rel) else None, head


def _verify(h, doc, got, model, first=0):
    h.check('structure', h.same(structure(got), structure(doc)), [structure(got), structure(doc)])
    h.check('extras', all([a.extras == b.extras for a, b in zip(doc.tokens, got.tokens)]))
    i = first
    place = 0
    for s in got.sentences:
        for j, w in enumerate(s.tokens):
            pos, lemma, rel, head = _expected(model.answer(i, j))
            h.check('put back', h.all([h.same(pos_key(w.pos), pos), h.same(w.lemma, lemma), h.same(w.deprel, rel)]), [w, pos, lemma, rel])
            d = got.get_token(place + j)
            if head < 0:
                h.check('no head', not w.has_head and not w.is_root, [w])
            else:
                h.check('head', h.all([w.has_head, h.iff(w.is_root, head == 0), w.head_index == head - 1]), [w, head])
                h.check('head in the document', h.all([h.iff(d.is_root, head == 0), h.implies(head > 0, d.head_index == head - 1 + place)]), [d, head])
        place += s.tokens_count
        i += 1
    return i


def _doc(h, sizes, **kw):
    dm = h.mod('datamodel')
    toks, sents = [], []
    for n in sizes:
        sents.append(dm.Sentence(len(toks), len(toks) + n))
        for j in range(n):
            toks.append(dm.Token(2 * len(toks), 2 * len(toks) + 1, **kw))
    return dm.Document('abcdefghijklmnopqr'[:1] * 0 + ' '.join('abcdefghijklmnopqr'[:len(toks)]), toks, sents)


def _process(h, m, doc, model, kind='UDPipeTaggerParser'):
    p = getattr(m, kind)(model, 'opts')
    out = list(p.process(iter([doc])))
    h.check('one document', len(out) == 1)
    return out[0]


def _some(h, name, al):
    return h.str(name, 1, al) if h.bool(name + '?') else None


def handed(h, what):
    """the pipeline sees the words with exactly their annotation"""
    m = _wrapper(h)
    dm = h.mod('datamodel')
    toks, want = [], []
    for i in range(2):
        kw, row = {}, ['w%d' % i, '', '', '', '']
        if what == 'lemma':
            kw['lemma'] = _some(h, 'lemma%d' % i, 'a_Я')
            row[1] = kw['lemma'] if kw['lemma'] is not None else ''
            if h.bool('tagged%d' % i):
                kw['pos'] = dm.Pos('N')
                row[2] = 'N'
        elif what == 'tags':
            u, x = _some(h, 'u%d' % i, 'ab'), _some(h, 'x%d' % i, 'ab')
            kw['pos'] = dm.Pos(u, x)
            row[2], row[3] = u if u is not None else '', x if x is not None else ''
        elif what == 'feats':
            f = {k: h.str('%s%d' % (k, i), 1, 'ab') for k in ('Num', 'Case') if h.bool('%s%d?' % (k, i))}
            kw['pos'] = dm.Pos('N', None, f)
            row[2] = 'N'
            row[4] = '|'.join([k + '=' + f[k] for k in sorted(f)])
        else:
            kw['deprel'] = 'rel'
            kw['head_sentence_index'] = i - 1
        toks.append(dm.Token(3 * i, 3 * i + 2, **kw))
        want.append(row)
    text = 'w0 w1'
    if what == 'forms':
        a, b = h.str('form0', 2, 'aЯ'), h.str('form1', 2, 'ab')
        text = a + ' ' + b
        want[0][0], want[1][0] = a, b
    model = Model(lambda i, j: {})
    doc = dm.Document(text, toks)
    before = doc_fields(doc)
    _process(h, m, doc, model, 'UDPipeTagger')
    h.check('handed over', h.same(model.handed, [want]), [model.handed, want])
    h.check('input untouched', h.same(before, doc_fields(doc)))


def _answers(h, what, n):
    out = {}
    for j in range(n):
        a = {}
        if what == 'lemma':
            a['lemma'] = _some(h, 'lemma%d' % j, 'a_Я') or ''
        elif what == 'tags':
            a['upostag'] = _some(h, 'u%d' % j, 'ab') or ''
            a['xpostag'] = _some(h, 'x%d' % j, 'ab') or ''
        elif what == 'feats':
            f = [k + '=' + h.str('%s%d' % (k, j), 1, 'ab') for k in ('Num', 'Case') if h.bool('%s%d?' % (k, j))]
            a['feats'] = '|'.join(f)
            a['upostag'] = _some(h, 'u%d' % j, 'N') or ''
        else:
            a['deprel'] = _some(h, 'rel%d' % j, 'ab') or ''
            a['head'] = h.int('head%d' % j, -1, n)
        out[(0, j)] = a
    return lambda i, j: out.get((i, j), {})


def back(h, what, n):
    """each result is put on its word"""
    m = _wrapper(h)
    model = Model(_answers(h, what, n))
    doc = _doc(h, [n])
    _verify(h, doc, _process(h, m, doc, model, 'UDPipeTagger'), model)


def heads(h, n):
    m = _wrapper(h)
    a = {(i, j): {'head': h.int('head%d_%d' % (i, j), -1, n), 'deprel': 'r%d' % j} for i in range(2) for j in range(n)}
    model = Model(lambda i, j: a.get((i, j), {}))
    doc = _doc(h, [n, n])
    _verify(h, doc, _process(h, m, doc, model, 'UDPipeParser'), model)


def documents(h):
    """several documents, several sentences"""
    m = _wrapper(h)
    sizes = [[2, 1], [], [1, 1, 2]]
    docs = [_doc(h, s, lemma='old', pos=h.mod('datamodel').Pos('old')) for s in sizes]
    n = [2, 1, 1, 1, 2]
    a = {(i, j): {'lemma': h.str('lemma%d_%d' % (i, j), 1, 'ab'), 'upostag': 'U%d%d' % (i, j), 'xpostag': '', 'feats': '',
                  'head': (j, j + 1, 0)[h.choice('shape', [0, 2]) if (i, j) == (0, 0) else 0]} for i in range(5) for j in range(n[i])}
    model = Model(lambda i, j: a[(i, j)])
    p = m.UDPipeTagger(model, '')
    out = list(p.tag(iter(docs)))
    h.check('one document per input', len(out) == 3)
    h.check('each sentence once', [[r[0] for r in s] for s in model.handed] == [[t.text for t in s.tokens] for d in docs for s in d.sentences], [model.handed])
    first = 0
    for d, g in zip(docs, out):
        first = _verify(h, d, g, model, first)


def multiword(h):
    m = _wrapper(h)
    dm = h.mod('datamodel')
    toks = [dm.Token(0, 1)] + [dm.Token(2, 4, sub_index=i, text_replacement=h.str('form%d' % i, 1, 'xy'), extras=dm.TokenExtras({'k': i})) for i in range(2)] + [dm.Token(4, 5)]
    doc = dm.Document('a bc.', toks)
    a = [{'lemma': h.str('lemma%d' % j, 1, 'ab'), 'head': h.int('head%d' % j, 0, 4), 'deprel': 'd%d' % j, 'upostag': 'U%d' % j} for j in range(4)]
    model = Model(lambda i, j: a[j])
    got = _process(h, m, doc, model, 'UDPipeTagger')
    h.check('own forms', h.same([r[0] for r in model.handed[0]], [t.text for t in doc.tokens]), [model.handed])
    _verify(h, doc, got, model)


def processor(h, kind):
    """every kind of processor runs its part of the pipeline on every sentence, with the options"""
    m = _wrapper(h)
    stages = {'UDPipeTagger': ['tag'], 'UDPipeParser': ['parse'], 'UDPipeTaggerParser': ['tag', 'parse']}[kind]
    a = {(i, j): {'lemma': h.str('lemma%d_%d' % (i, j), 1, 'ab'), 'head': h.int('head%d_%d' % (i, j), 0, 2), 'deprel': 'd'} for i in range(2) for j in range(2)}
    model = Model(lambda i, j: a[(i, j)], stages)
    doc = _doc(h, [2, 2])
    p = getattr(m, kind)(model, 'opts')
    run = p.process
    if h.bool('by its own name'):
        run = p.tag if kind == 'UDPipeTagger' else p.parse
    got, = run(iter([doc]))
    _verify(h, doc, got, model)
    h.check('calls', [(c[0], c[1]) for c in model.calls] == [(s, 'opts') for _ in range(2) for s in stages], [model.calls])


def loaded(h):
    """a model loaded by its path"""
    m = _wrapper(h)
    model = Model(lambda i, j: {'lemma': 'x'}, ['tag'])
    paths = []

    class Loader(object):
        @staticmethod
        def load(path):
            paths.append(path)
            return model
    h.patch(m.ud, 'Model', Loader)
    path = h.str('path', 1, 'pq')
    doc = _doc(h, [1, 2])
    got, = m.UDPipeTagger.load_udpipe(path, 'o').tag(iter([doc]))
    h.check('loaded model', len(paths) == 1 and paths[0] == path and [c[:2] for c in model.calls] == [('tag', 'o')] * 2, [paths, model.calls])
    _verify(h, doc, got, model)


def replaced(h):
    """what the words had before does not remain where the pipeline gives nothing"""
    m = _wrapper(h)
    dm = h.mod('datamodel')
    doc = _doc(h, [2], lemma='old', pos=dm.Pos('old', 'old', {'K': 'old'}))
    a = {k: '' for k in ('lemma', 'upostag', 'xpostag', 'feats', 'deprel')}
    for k in ('lemma', 'upostag', 'xpostag'):
        a[k] = _some(h, k, 'ab') or ''
    model = Model(lambda i, j: a if j else {'lemma': 'new', 'upostag': 'N', 'xpostag': '', 'feats': 'A=1', 'head': 2})
    _verify(h, doc, _process(h, m, doc, model), model)


def stream(h):
    m = _wrapper(h)
    docs = [_doc(h, [1]), _doc(h, [2])]
    taken = []

    def source():
        for d in docs:
            taken.append(d)
            yield d
    model = Model(lambda i, j: {'lemma': h.str('lemma', 1, 'ab') if (i, j) == (5, 5) else 'x'})
    out = iter(m.UDPipeTagger(model, '').process(source()))
    h.check('nothing before it is asked for', not taken)
    one = next(out)
    h.check('lazily', len(taken) == 1 and one.tokens_count == 1, [len(taken)])
    two = next(out)
    h.check('in order', two.tokens_count == 2 and next(out, None) is None)


def long(h):
    m = _wrapper(h)
    sizes = [1, 3, 1, 2, 1, 4, 2]
    doc = _doc(h, sizes)
    at = h.choice('at', [0, 3, 5, 6])
    lemma = h.str('lemma', 1, 'ab')
    head = h.int('head', 0, sizes[at])
    model = Model(lambda i, j: {'lemma': lemma, 'head': head, 'deprel': 'z'} if (i, j) == (at, sizes[at] - 1) else {'lemma': 'l%d%d' % (i, j), 'head': j, 'deprel': 'r%d%d' % (i, j)})
    got = _process(h, m, doc, model, 'UDPipeParser')
    h.check('each sentence once', len(model.calls) == 7)
    _verify(h, doc, got, model)


def wide(h):
    """a sentence of many words"""
    m = _wrapper(h)
    dm = h.mod('datamodel')
    at = h.choice('at', [0, 100, 149])
    lemma, head = h.str('lemma', 1, 'ab'), h.choice('head', [0, 1, 60, 101, 150])
    doc = dm.Document('a ' * 150, [dm.Token(2 * i, 2 * i + 1, dm.Pos('U%d' % i), 'm%d' % i) for i in range(150)])
    model = Model(lambda i, j: {'lemma': lemma, 'head': head, 'deprel': 'z'} if j == at else {'lemma': 'l%d' % j, 'head': (j * 7) % 151, 'deprel': 'r%d' % j, 'upostag': 'U%d' % j})
    got = _process(h, m, doc, model, 'UDPipeParser')
    h.check('handed over', model.handed == [[['a', 'm%d' % i, 'U%d' % i, '', ''] for i in range(150)]])
    for j, w in enumerate(got.tokens):
        a = model.answer(0, j)
        h.check('put back', h.all([h.same(w.lemma, a['lemma']), h.same(w.deprel, a['deprel']), w.has_head, w.is_root == (a['head'] == 0), w.head_index == a['head'] - 1]), [w])
    h.check('structure', h.same(structure(got), structure(doc)))


def many(h):
    """many sentences"""
    m = _wrapper(h)
    dm = h.mod('datamodel')
    doc = dm.Document('a ' * 120, [dm.Token(2 * i, 2 * i + 1) for i in range(120)], [dm.Sentence(i, i + 1) for i in range(120)])
    at = h.choice('at', [0, 64, 119])
    lemma = h.str('lemma', 1, 'ab')
    model = Model(lambda i, j: {'lemma': lemma if i == at else 'l%d' % i, 'head': 0, 'deprel': 'r%d' % i})
    got = _process(h, m, doc, model, 'UDPipeParser')
    h.check('each sentence once', len(model.calls) == 120)
    _verify(h, doc, got, model)


def handed_features(h):
    """nine features, given in another order: handed over in the order of their names; and those of the answer put back"""
    m = _wrapper(h)
    dm = h.mod('datamodel')
    names = ['Case', 'Gender', 'Number', 'Aspect', 'Mood', 'Tense', 'VerbForm', 'Voice', 'Animacy']
    f = [(n, h.str(n, 1, 'ab') if n in ('Case', 'Voice') else 'V') for n in names]
    back = '|'.join([k + '=' + v for k, v in sorted(f)])
    model = Model(lambda i, j: {'upostag': 'N', 'feats': back})
    doc = dm.Document('w', [dm.Token(0, 1, dm.Pos('N', None, dict(f[::-1] if h.bool('reversed') else f)))])
    got = _process(h, m, doc, model, 'UDPipeTagger')
    h.check('handed over', h.same(model.handed, [[['w', '', 'N', '', back]]]), [model.handed])
    _verify(h, doc, got, model)


def handed_spaces(h):
    """words with spaces inside are handed over as they are"""
    m = _wrapper(h)
    dm = h.mod('datamodel')
    form = h.choice('first', ['1', ' ', '\u00a0']) + h.str('gap', 1, '  -') + h.str('b', 1, '0 ') + h.choice('last', ['0', ' '])
    model = Model(lambda i, j: {'lemma': 'l%d' % j, 'head': j})
    doc = dm.Document(form + ' руб', [dm.Token(0, 4), dm.Token(5, 8)])
    got = _process(h, m, doc, model, 'UDPipeTagger')
    h.check('handed over', h.same(model.handed, [[[form, '', '', '', ''], ['руб', '', '', '', '']]]), [model.handed])
    _verify(h, doc, got, model)


def unchanged(h):
    """a pipeline that does nothing gives the morphology back"""
    m = _wrapper(h)
    dm = h.mod('datamodel')
    toks = []
    for i in range(2):
        feats = {k: h.str('%s%d' % (k, i), 1, 'ab') for k in ('Num', 'Case') if h.bool('%s%d?' % (k, i))}
        u = _some(h, 'u%d' % i, 'ab')
        toks.append(dm.Token(2 * i, 2 * i + 1, dm.Pos(u, None, feats) if u is not None or feats else None, _some(h, 'lemma%d' % i, 'ab')))
    doc = dm.Document('a b', toks)
    got = _process(h, m, doc, Model(lambda i, j: {}), 'UDPipeTagger')
    h.check('round trip', got == doc and h.same(doc_fields(got), doc_fields(doc)), [doc_fields(got)])
