"""C10 writing and reading back a document loses nothing"""
from props.common import is_tree, chosen_tree, pos_key, any_str
from props.conllu import line, word

BOUNDS = {'documents': 'up to 3 sentences of up to 4 words with arbitrary grouping into multiword tokens, spacing and trees; 12 '
          'words with a multiword token of three, 36 with one of 12', 'annotation': 'absent or 1-2 characters incl. non-ASCII, up to 3 features'}
ASSUMPTIONS = ['words have a part of speech (possibly with all parts absent)', 'no annotation is a lone underscore, empty, or contains '
               'tabs, line ends, "|" or "="; no extras', 'forms do not begin or end with a space']


def cases(tier):
    out = []
    must = ['read back equal', 'written again']
    for shape in ([[1]], [[1, 1]], [[2]], [[1, 2]], [[2, 1], [1]], [[3], [2]], [[1], [2], [1]], [[2], [1, 1]]):
        out.append(('shape' + '_'.join('+'.join(map(str, s)) for s in shape), 'shape', {'shape': shape, 'trees': False}, must))
    out.append(('trees3', 'shape', {'shape': [[1], [1, 1, 1]], 'trees': True}, must))
    out.append(('trees_mwt', 'shape', {'shape': [[3], [2]], 'trees': True}, must))
    out.append(('annotation', 'annotation', {}, must))
    out.append(('feats', 'feats', {}, must))
    out.append(('long', 'long', {}, must))
    out.append(('huge', 'huge', {}, must))
    out.append(('text', 'text', {}, ['text written again']))
    out.append(('several', 'several', {}, ['concatenation']))
    out.append(('file', 'file', {}, ['file read back equal']))
    out.append(('columns', 'columns', {}, ['selected columns survive']))
    if tier == 'thorough':
        out.append(('trees4', 'shape', {'shape': [[2, 1, 1]], 'trees': True}, must))
        for shape in ([[2, 1, 2], [1, 2]], [[1, 1, 1], [3, 1]]):
            out.append(('shape' + '_'.join('+'.join(map(str, s)) for s in shape), 'shape', {'shape': shape, 'trees': False}, must))
    return out


def _doc(h, dm, shape, trees, prefix=''):
    text, toks, sents = '', [], []
    g = 0
    for s, groups in enumerate(shape):
        first = g
        n = sum(groups)
        heads = [h.int('%shead%d_%d' % (prefix, s, i), -1, n - 1) if trees else i - 1 for i in range(n)]
        if trees:
            h.assume(is_tree(h, n, heads))
        i = 0
        for gi, k in enumerate(groups):
            nm = '%ss%d.g%d' % (prefix, s, gi)
            form = h.str(nm + '.form', 1 + gi % 2, 'aж_-#')
            start = len(text)
            text = text + form
            if (gi + s) % 2 if trees else h.bool(nm + '.space'):
                text = text + ' '
            multi = k > 1 or bool(h.bool(nm + '.multi') if gi == 0 and not trees and not prefix else False)
            for j in range(k):
                kw = {}
                if multi:
                    kw = dict(sub_index=j, text_replacement=h.str('%s.w%d' % (nm, j), 1, 'xї_'))
                toks.append(dm.Token(start, start + len(form), dm.Pos('U%d' % i, None, {'F': 'f%d' % g}), 'l%d' % g,
                                     'r%d' % i, head_sentence_index=heads[i], **kw))
                i += 1
                g += 1
        sents.append(dm.Sentence(first, g))
    return dm.Document(text, toks, sents)


def _trailing(h, dm, doc):
    """the same document with the trailing space the reader leaves"""
    if doc.text.endswith(' '):
        return doc
    return dm.Document(doc.text + ' ', [dm.Token(t.start, t.end, t.pos, t.lemma, t.deprel, t.sub_index, t.text_replacement,
                                                 head_document_index=t.head_index) for t in doc.tokens], doc.sentences_boundaries)


def _view(doc):
    out = []
    for t in doc.tokens:
        out.append([t.start, t.end, t.sub_index, t.is_multiword, t.text_replacement, t.text, t.lemma, pos_key(t.pos), t.deprel,
                    t.head_index, t.is_root, t.has_head])
    for s in doc.sentences:
        out.append([t.head_index for t in s.tokens])
        out.append(s.text)
    return out + [[b.start, b.end] for b in doc.sentences_boundaries]


def _round(h, doc, label='read back equal'):
    dm = h.mod('datamodel')
    io = h.mod('evaluation.conllu_io')
    text = io.CoNLLUWriter().write_to_str(doc)
    docs = list(io.CoNLLUReader().read_from_str(text))
    h.check('one document', len(docs) == 1)
    back = docs[0]
    want = _trailing(h, dm, doc)
    h.check(label, h.all([back == want, h.same(back.text, want.text), h.same(_view(back), _view(want))]))
    h.check('written again', h.same(io.CoNLLUWriter().write_to_str(back), text))
    one = list(io.CoNLLUReader(1).read_from_str(text))
    h.check('sentence by sentence', h.all([len(one) == doc.sentences_count] + [
        h.same([[t.text, t.lemma, pos_key(t.pos), t.head_index] for t in a.tokens],
               [[t.text, t.lemma, pos_key(t.pos), t.head_index] for t in b.tokens]) for a, b in zip(one, doc.sentences)]))
    return text


def shape(h, shape, trees):
    _round(h, _doc(h, h.mod('datamodel'), shape, trees))


def annotation(h):
    dm = h.mod('datamodel')
    n = h.choice('length', [1, 2])

    def o(name):
        return any_str(h, name, [None, n], 'aЯ.,-#:')
    pos = dm.Pos(o('upos'), o('xpos'), {'F': h.str('f', n, 'vЖ,')} if h.bool('feats') else None)
    k = {'text_replacement': h.str('form', n, 'xї\u00a0')} if h.bool('multiword') else {}
    doc = dm.Document('xy z', [dm.Token(0, 2, pos, o('lemma'), o('rel'), head_sentence_index=1, **k),
                               dm.Token(3, 4, dm.Pos(None), head_sentence_index=-1)])
    _round(h, doc)


def feats(h):
    dm = h.mod('datamodel')
    names = ['B', 'A', 'Case']
    n = h.choice('count', [0, 1, 2, 3])
    d = {}
    for i in (h.perm('order', n) if n else []):
        d[names[i]] = h.str('v%d' % i, 1 + i % 2, 'aЖ,')
    _round(h, dm.Document('x ', [dm.Token(0, 1, dm.Pos('N', None, d), 'l', 'root', head_sentence_index=-1)]))


def long(h):
    dm = h.mod('datamodel')
    text, toks = 'w ', [dm.Token(0, 1, dm.Pos('A'), 'w', 'root', head_sentence_index=-1)]
    at = h.choice('at', [0, 4, 8, 10, 11])
    p = h.int('head', -1, 11)
    heads = [p if i == at else i - 1 for i in range(12)]
    h.assume(is_tree(h, 12, heads))
    gap = h.choice('glued', [0, 7, 10, 11])
    for i in range(12):
        if 8 <= i <= 10:
            if i == 8:
                s = len(text)
                text += 'мул' + ('' if gap == 10 else ' ')
            toks.append(dm.Token(s, s + 3, dm.Pos('U%d' % i, 'x', {'A': str(i), 'B': 'b', 'C': 'c'}), 'l%d' % i, 'r', i - 8,
                                 'w%d' % i, head_sentence_index=heads[i]))
        else:
            s = len(text)
            text += 'f%d' % i + ('' if gap == i else ' ')
            toks.append(dm.Token(s, s + len('f%d' % i), dm.Pos('U%d' % i), 'l%d' % i, 'r', head_sentence_index=heads[i]))
    _round(h, dm.Document(text, toks, [dm.Sentence(0, 1), dm.Sentence(1, 13)]))


def huge(h):
    """a long document: 36 words in three sentences, a multiword token of 12, up to 7 features"""
    dm = h.mod('datamodel')
    text, toks = '', []
    form = h.str('form', 2, 'a9Ж')
    n, cuts = 36, [0, 3, 9, 36]
    at, p = h.choice('at', [10, 24]), h.choice('head', [0, 20])
    heads = []
    for a, b in zip(cuts, cuts[1:]):
        heads += [i - 1 for i in range(b - a)]
    heads[at] = p
    h.assume(chosen_tree(27, heads[9:]))
    for i in range(n):
        k = {}
        if i == 20:
            s = len(text)
            text = text + form
        if 20 <= i <= 31:
            k = dict(sub_index=i - 20, text_replacement='w%d' % i)
            a, e = s, s + 2
        else:
            a = len(text)
            text = text + 'f%d ' % i
            e = len(text) - 1
        toks.append(dm.Token(a, e, dm.Pos('N', 'x%d' % i, {'A%d' % j: 'x' for j in range(i % 8)}), 'l%d' % i, 'r', head_sentence_index=heads[i], **k))
    _round(h, dm.Document(text, toks, [dm.Sentence(a, b) for a, b in zip(cuts, cuts[1:])]))


def text(h):
    """reading and writing again gives the same text"""
    io = h.mod('evaluation.conllu_io')
    lines = []
    for s in range(2):
        if s:
            lines.append(word(1, 'b', 2, lemma=h.str('l%d' % s, 1, 'aж_'), upos='N', xpos='_', feats='A=a', deprel='r'))
        else:
            lines.append(word(1, h.str('f%d' % s, 1, 'aж_#'), 2, lemma=h.str('l%d' % s, 1, 'aж_'), upos=h.str('u%d' % s, 1, 'N_'),
                              xpos=h.str('x%d' % s, 1, 'n_'), feats='A=a|B=' + h.str('b%d' % s, 1, 'bЯ') if h.bool('feats%d' % s) else '_',
                              deprel=h.str('r%d' % s, 1, 'r_'), misc='SpaceAfter=No' if h.bool('glued%d' % s) else '_'))
        lines.append(line(id='2-3', form='mw', misc='SpaceAfter=No' if s == 0 and h.bool('glued mw') else '_'))
        lines.append(word(2, h.str('w%d' % s, 1, 'xй'), 0, lemma='w', deprel='root'))
        lines.append(word(3, 'y', 2, upos='V', deprel='dep'))
        lines.append('')
    text = '\n'.join(lines) + '\n'
    docs = list(io.CoNLLUReader().read_from_str(text))
    again = io.CoNLLUWriter().write_to_str(*docs)
    h.check('text written again', h.same(again, text), [again])


def several(h):
    dm = h.mod('datamodel')
    io = h.mod('evaluation.conllu_io')
    a = _doc(h, dm, [[1, 2]], False, 'a')
    b = _doc(h, dm, h.choice('second', [[[2]], [[1], [2]], [[1, 1]]]), False, 'b')
    w = io.CoNLLUWriter()
    both = w.write_to_str(a, b)
    h.check('concatenation', h.same(both, io.CoNLLUWriter().write_to_str(a) + io.CoNLLUWriter().write_to_str(b)))
    back = list(io.CoNLLUReader(1).read_from_str(both))
    sents = list(a.sentences) + list(b.sentences)
    h.check('all sentences', len(back) == len(sents))
    for x, y in zip(back, sents):
        h.check('sentence kept', h.same([[t.text, t.lemma, pos_key(t.pos), t.deprel, t.is_multiword, t.sub_index] for t in x.tokens],
                                        [[t.text, t.lemma, pos_key(t.pos), t.deprel, t.is_multiword, t.sub_index] for t in y.tokens]))


def file(h):
    dm = h.mod('datamodel')
    io = h.mod('evaluation.conllu_io')
    doc = _doc(h, dm, [[1, 2], [1]], False)
    path = h.path('out.conllu')
    io.CoNLLUWriter().write_to_file(path, doc)
    h.check('file holds the same text', h.same(h.read(path), io.CoNLLUWriter().write_to_str(doc)))
    back = list(io.CoNLLUReader().read_from_file(path))
    h.check('one document', len(back) == 1)
    want = _trailing(h, dm, doc)
    h.check('file read back equal', h.all([back[0] == want, h.same(_view(back[0]), _view(want))]))
    io.CoNLLUWriter().write_to_file(path, dm.Document('x', [dm.Token(0, 1, head_sentence_index=-1)]))
    h.check('file is replaced', len(list(io.CoNLLUReader().read_from_file(path))[0].text) == 2)


def columns(h):
    """writing and reading a selection of columns keeps exactly these"""
    dm = h.mod('datamodel')
    io = h.mod('evaluation.conllu_io')
    cols = [c for c in (2, 3, 4, 5, 7) if h.bool('column%d' % c)]
    doc = dm.Document('a b ', [dm.Token(0, 1, dm.Pos('U', 'X', {'A': 'a', 'B': 'b'}), 'l', 'r', head_sentence_index=1),
                               dm.Token(2, 3, dm.Pos('V', 'Y'), 'm', 'root', head_sentence_index=-1)])
    back = list(io.CoNLLUReader(columns=cols).read_from_str(io.CoNLLUWriter(columns=cols).write_to_str(doc)))[0]

    def view(d, cols):
        return [[t.text, t.lemma if 2 in cols else None, t.pos.upos if 3 in cols else None, t.pos.xpos if 4 in cols else None,
                 sorted(t.pos.feats.items()) if 5 in cols else None, t.deprel if 7 in cols else None,
                 t.head_index if 7 in cols else None] for t in d.tokens]
    h.check('selected columns survive', h.same(view(back, cols), view(doc, cols)))
    h.check('text survives', h.same(back.text, doc.text))
