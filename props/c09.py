"""C09 written CoNLL-U is structurally valid for every document"""
from props.conllu import ID, LEMMA, UPOS, XPOS, FEATS, HEAD, DEPREL

BOUNDS = {'documents': 'up to 3 sentences of up to 4 words of arbitrary grouping into multiword tokens, spacing and heads; 12 words '
          'with a multiword token 9-11, 130 with one of 12 words; sequences of up to 3 documents', 'annotation': 'every annotation absent or of 1-2 '
          'characters, up to 4 features', 'columns': 'all 64 selections', 'target': 'string and file'}
ASSUMPTIONS = ['annotations do not contain tabs or line ends', 'the HEAD column of a word without head (or without the HEAD '
               'column selected) is not claimed (the writer puts a number there for the evaluation script)',
               'the last word of the document text has no no-space mark']


def cases(tier):
    out = []
    must = ['lines', 'word numbers', 'range lines', 'no-space mark', 'heads']
    for shape in ([[1, 1]], [[2]], [[3], [1]], [[1, 2]], [[2, 1], [2]], [[1], [1, 1], [2]], [[2], [2]], [[2, 2]]):
        out.append(('shape' + '_'.join('+'.join(map(str, s)) for s in shape), 'shape', {'shape': shape}, must))
    out.append(('annotation', 'annotation', {}, ['annotation columns']))
    out.append(('columns', 'columns', {}, ['annotation columns']))
    out.append(('columns_order', 'columns_order', {}, ['annotation columns']))
    out.append(('feats', 'feats', {}, ['features']))
    out.append(('heads3', 'heads', {'n': 3, 'start': 2}, ['heads']))
    out.append(('unannotated', 'unannotated', {}, ['absent annotation']))
    out.append(('long', 'long', {}, ['long: lines', 'range lines', 'heads']))
    out.append(('huge', 'huge', {}, ['long: lines', 'range lines', 'heads']))
    out.append(('sequence', 'sequence', {}, ['documents one after another']))
    out.append(('spacing', 'spacing', {}, ['no-space mark']))
    if tier == 'thorough':
        out.append(('heads4', 'heads', {'n': 4, 'start': 3}, ['heads']))
        for shape in ([[3, 1], [1, 2]], [[1, 3], [2, 2]], [[2, 1, 2]]):
            out.append(('shape' + '_'.join('+'.join(map(str, s)) for s in shape), 'shape', {'shape': shape}, must))
    return out


def _lines(h, text):
    """the written text as rows of columns, per sentence"""
    h.check('ends with an empty line', text.endswith('\n\n') or text == '')
    sents = []
    cur = []
    rows = text.split('\n')
    h.check('last line is closed', rows[-1] == '')
    for r in rows[:-1]:
        if r == '':
            sents.append(cur)
            cur = []
        else:
            cols = r.split('\t')
            h.check('ten columns', len(cols) == 10)
            cur.append(cols)
    h.check('sentences are closed', not cur)
    return sents


def _doc(h, dm, shape, heads=True, offset=0):
    """a document of sentences of tokens; a token of k > 1 words (or marked) is a multiword token"""
    text, toks, sents, want = '', [], [], []
    g = 0
    for s, groups in enumerate(shape):
        first = g
        rows = []
        n = sum(groups)
        i = 0
        for gi, k in enumerate(groups):
            nm = 's%d.g%d' % (s, gi)
            form = h.str(nm + '.form', 1 + gi % 2, 'aж')
            start = len(text)
            text = text + form
            last = s == len(shape) - 1 and gi == len(groups) - 1
            glued = h.bool(nm + '.glued') if not last else h.bool('no final space')
            if not glued:
                text = text + ' '
            multi = k > 1 or bool(h.bool(nm + '.multi') if gi == 0 else False)
            mark = '_' if last else None
            if mark is None:
                mark = 'SpaceAfter=No' if glued else '_'
            if multi:
                rows.append(['%d-%d' % (i + 1, i + k), form] + ['_'] * 7 + [mark])
            for j in range(k):
                i += 1
                head = i - 1 if heads else None
                kw = {}
                f = form
                if multi:
                    f = h.str('%s.w%d' % (nm, j), 1, 'xї')
                    kw = dict(sub_index=j, text_replacement=f)
                if heads:
                    kw['head_sentence_index'] = i - 2
                    kw['deprel'] = 'r%d' % i
                toks.append(dm.Token(start, start + len(form), dm.Pos('U%d' % i, None, {'F': 'f%d' % g}), 'l%d' % g, **kw))
                rows.append([str(i), f, 'l%d' % g, 'U%d' % i, '_', 'F=f%d' % g, str(i - 1), 'r%d' % i, '_',
                             '_' if multi else mark])
                g += 1
        sents.append(dm.Sentence(first, g))
        want.append(rows)
    return dm.Document(text, toks, sents), want


def _compare(h, got, want):
    h.check('number of sentences', len(got) == len(want))
    for rows, exp in zip(got, want):
        h.check('lines', len(rows) == len(exp), [len(rows), len(exp)])
        h.check('word numbers', h.same([r[0] for r in rows if not h_in(r[0], '-')], [r[0] for r in exp if not h_in(r[0], '-')]))
        h.check('range lines', h.same([r[:9] for r in rows if h_in(r[0], '-')], [r[:9] for r in exp if h_in(r[0], '-')]))
        h.check('order of lines', h.same([r[0] for r in rows], [r[0] for r in exp]))
        h.check('forms', h.same([r[1] for r in rows], [r[1] for r in exp]))
        h.check('annotation columns', h.same([r[2:6] for r in rows], [r[2:6] for r in exp]))
        h.check('heads', h.same([r[6:8] for r in rows], [r[6:8] for r in exp]))
        h.check('enhanced column is empty', h.same([r[8] for r in rows], ['_'] * len(exp)))
        h.check('no-space mark', h.same([r[9] for r in rows], [r[9] for r in exp]))


def h_in(s, c):
    return c in s


def shape(h, shape):
    dm = h.mod('datamodel')
    io = h.mod('evaluation.conllu_io')
    doc, want = _doc(h, dm, shape)
    _compare(h, _lines(h, io.CoNLLUWriter().write_to_str(doc)), want)


def _one(dm, **k):
    return dm.Document('a b', [dm.Token(0, 1, head_sentence_index=-1, **k), dm.Token(2, 3, head_sentence_index=0)])


def annotation(h):
    dm = h.mod('datamodel')
    io = h.mod('evaluation.conllu_io')
    exp = []

    def o(name, alphabet):
        if h.bool(name + '?'):
            v = h.str(name, 1, alphabet)
            exp.append(v)
            return v
        exp.append('_')
        return None
    lemma = o('lemma', 'lи')
    if h.bool('pos?'):
        pos = dm.Pos(o('upos', 'N'), o('xpos', 'x|'), {'F': 'v'} if h.bool('feats') else None)
        exp.append('F=v' if pos.feats else '_')
    else:
        pos = None
        exp.extend(['_'] * 3)
    rel = o('rel', 'r:')
    doc = _one(dm, lemma=lemma, pos=pos, deprel=rel)
    rows = _lines(h, io.CoNLLUWriter().write_to_str(doc))[0]
    h.check('annotation columns', h.same(rows[0], ['1', 'a'] + exp[:4] + ['0', exp[4], '_', '_']), [rows[0]])
    h.check('other word', h.same(rows[1], ['2', 'b', '_', '_', '_', '_', '1', '_', '_', '_']), [rows[1]])


def _selected(h, cols, given, default, multi):
    dm = h.mod('datamodel')
    io = h.mod('evaluation.conllu_io')
    has = set(cols)
    if DEPREL in has:
        has.add(HEAD)
    exp = ['l' if LEMMA in has else '_', 'U' if UPOS in has else '_', 'X' if XPOS in has else '_',
           'A=1|B=2' if FEATS in has else '_']
    pos = dm.Pos('U', 'X', {'B': '2', 'A': '1'})
    k = {'text_replacement': 'a'} if multi else {}
    doc = dm.Document('a b', [dm.Token(0, 1, pos, 'l', 'r', head_sentence_index=1, **k),
                              dm.Token(2, 3, pos, 'l', 'q', head_sentence_index=-1)])
    w = io.CoNLLUWriter() if default else io.CoNLLUWriter(columns=given)
    rows = _lines(h, w.write_to_str(doc))[0]
    if multi:
        h.check('range line', h.same(rows.pop(0), ['1-1', 'a'] + ['_'] * 8))
    h.check('annotation columns', h.all([h.same(r[2:6], exp) for r in rows]), [rows])
    if HEAD in has:
        h.check('heads', h.same([r[6] for r in rows], ['2', '0']), [rows])
    h.check('relations', h.same([r[7] for r in rows], ['r', 'q'] if DEPREL in has else ['_', '_']), [rows])
    h.check('numbers and forms', h.same([r[:2] for r in rows], [['1', 'a'], ['2', 'b']]))
    h.check('ten columns', len(rows[0]) == 10 and len(rows[1]) == 10 and len(rows) == 2)


def columns(h):
    cols = [c for c in (LEMMA, UPOS, XPOS, FEATS, HEAD, DEPREL) if h.bool('column%d' % c)]
    _selected(h, cols, cols, False, h.bool('multiword'))


def columns_order(h):
    if h.bool('default'):
        _selected(h, [LEMMA, UPOS, XPOS, FEATS, DEPREL], None, True, h.bool('multiword'))
        return
    cols = [[LEMMA, DEPREL, UPOS], [XPOS, FEATS, HEAD]][1 if h.bool('other') else 0]
    p = [cols[i] for i in h.perm('perm', 3)]
    _selected(h, p, iter(p) if h.bool('iterator') else tuple(p), False, False)


def feats(h):
    """features in any insertion order come out sorted by name"""
    dm = h.mod('datamodel')
    io = h.mod('evaluation.conllu_io')
    names = ['Aspect', 'Case', 'Gender', 'Number']
    n = h.choice('count', [0, 1, 2, 3, 4])
    order = h.perm('order', n) if n else []
    vals = [h.str('v%d' % i, (i + 1) % 3 if n > 1 else 1, 'aЖ,') for i in range(n)]
    d = {}
    for i in order:
        d[names[i]] = vals[i]
    rows = _lines(h, io.CoNLLUWriter().write_to_str(_one(dm, pos=dm.Pos('N', None, d))))[0]
    want = '|'.join([names[i] + '=' + vals[i] for i in range(n)]) if n else '_'
    h.check('features', h.same(rows[0][5], want), [rows[0][5]])


def heads(h, n, start):
    """arbitrary heads in the second sentence, given in either notation"""
    dm = h.mod('datamodel')
    io = h.mod('evaluation.conllu_io')
    toks = [dm.Token(2 * i, 2 * i + 1, head_sentence_index=i - 1, deprel='a') for i in range(start)]
    hs = []
    docn = h.bool('document notation')
    for i in range(n):
        p = h.int('head%d' % i, -1, n - 1)
        hs.append(p)
        k = {'head_document_index': -1 if p == -1 else p + start} if docn else {'head_sentence_index': p}
        toks.append(dm.Token(2 * (start + i), 2 * (start + i) + 1, deprel='r', **k))
    doc = dm.Document('x ' * (n + start), toks, [dm.Sentence(0, start), dm.Sentence(start, start + n)])
    got = _lines(h, io.CoNLLUWriter().write_to_str(doc))
    h.check('heads', h.all([h.same(got[1][i][6], str(hs[i] + 1)) for i in range(n)]))
    h.check('first sentence heads', h.same([r[6] for r in got[0]], [str(i) for i in range(start)]))


def unannotated(h):
    dm = h.mod('datamodel')
    io = h.mod('evaluation.conllu_io')
    multi = h.bool('multiword')
    k = {'text_replacement': 'q'} if multi else {}
    if h.bool('relation'):   # a relation without a head
        k['deprel'] = 'obj'
    doc = dm.Document('a b', [dm.Token(0, 1, **k), dm.Token(2, 3)])
    rows = _lines(h, io.CoNLLUWriter().write_to_str(doc))[0]
    if multi:
        rows.pop(0)
    for r in rows:
        h.check('absent annotation', h.same(r[2:6] + r[7:9], ['_'] * 6))
        h.check('head column is a number', r[6].isdigit())
    h.check('numbers', h.same([r[0] for r in rows], ['1', '2']))


def long(h):
    dm = h.mod('datamodel')
    io = h.mod('evaluation.conllu_io')
    text, toks, exp = '', [], []
    p = h.int('head', -1, 11)
    at = h.choice('at', [0, 5, 8, 9, 11])
    glue = h.bool('glued')
    pre = h.choice('sentences before', [0, 1])
    off = 0
    if pre:
        text = 'q '
        toks.append(dm.Token(0, 1, head_sentence_index=-1))
        off = 1
    for i in range(12):
        head = p if i == at else i - 1
        if i == 8:
            s = len(text)
            text = text + 'мул' + ('' if glue else ' ')
            exp.append(['9-11', 'мул'] + ['_'] * 7 + ['SpaceAfter=No' if glue else '_'])
        if 8 <= i <= 10:
            toks.append(dm.Token(s, s + 3, sub_index=i - 8, text_replacement='w%d' % i, lemma='l%d' % i, deprel='r',
                                 head_sentence_index=head))
            form = 'w%d' % i
        else:
            a = len(text)
            form = 'f%d' % i
            text = text + form + ' '
            toks.append(dm.Token(a, a + len(form), lemma='l%d' % i, deprel='r', head_sentence_index=head))
        exp.append([str(i + 1), form, 'l%d' % i, '_', '_', '_', str(head + 1), 'r', '_', '_'])
    sents = ([dm.Sentence(0, 1)] if pre else []) + [dm.Sentence(off, off + 12)]
    got = _lines(h, io.CoNLLUWriter().write_to_str(dm.Document(text, toks, sents)))
    h.check('long: sentences', len(got) == pre + 1)
    rows = got[pre]
    h.check('long: lines', len(rows) == 13)
    h.check('range lines', h.same(rows[8], exp[8]))
    h.check('heads', h.same([r[6] for r in rows], [r[6] for r in exp]))
    h.check('long: all columns', h.same(rows, exp))


def huge(h):
    """130 words with a multiword token 98-109, a head anywhere"""
    dm = h.mod('datamodel')
    io = h.mod('evaluation.conllu_io')
    n = 130
    at = h.choice('at', [0, 98, 99, 103, n - 1])
    p = h.choice('head', [-1, 0, 8, 9, 10, 98, 99, 100, n - 1])
    form = h.str('form', 3, 'a9Ж')
    text, toks, exp = '', [], []
    for i in range(n):
        head = p if i == at else i - 1
        k = {}
        if i == 97:
            s = len(text)
            text = text + form
            exp.append(['98-109', form] + ['_'] * 7 + ['SpaceAfter=No'])
        if 97 <= i <= 108:
            k = dict(sub_index=i - 97, text_replacement='f%d' % i)
            a, e = s, s + 3
        else:
            a = len(text)
            text = text + 'f%d ' % i
            e = len(text) - 1
        toks.append(dm.Token(a, e, dm.Pos('N', None, {'A%d' % j: 'x' for j in range(i % 8)}), 'l%d' % i, 'r', head_sentence_index=head, **k))
        exp.append([str(i + 1), 'f%d' % i, 'l%d' % i, 'N', '_', '|'.join(['A%d=x' % j for j in range(i % 8)]) or '_', str(head + 1), 'r', '_', '_'])
    rows = _lines(h, io.CoNLLUWriter().write_to_str(dm.Document(text, toks)))[0]
    h.check('long: lines', len(rows) == n + 1)
    h.check('range lines', h.same(rows[97], exp[97]), [rows[97]])
    h.check('heads', h.same([r[6] for r in rows], [r[6] for r in exp]))
    h.check('long: all columns', h.same(rows, exp))


def sequence(h):
    """several documents at once, to a string and to a file"""
    dm = h.mod('datamodel')
    io = h.mod('evaluation.conllu_io')
    shapes = [[[1]], [[2]], [[1, 1], [2]], []]
    n = h.choice('documents', [0, 1, 2, 3, 12])
    docs, want = [], []
    for d in range(n):
        sh = h.choice('shape%d' % d, shapes) if n < 12 else shapes[d % 4]
        if n == 3 and d == 2 and h.bool('the first again'):
            docs.append(docs[0])
            want += again
            break
        text, toks, sents = '', [], []
        for groups in sh:
            rows = []
            first = len(toks)
            for k in groups:
                s = len(text)
                text += 'ab '
                if k > 1:
                    rows.append(['%d-%d' % (len(toks) - first + 1, len(toks) - first + k), 'ab'])
                for j in range(k):
                    toks.append(dm.Token(s, s + 2, head_sentence_index=-1, **({'sub_index': j, 'text_replacement': 'w%d' % j}
                                                                             if k > 1 else {})))
                    rows.append([str(len(toks) - first), 'w%d' % j if k > 1 else 'ab'])
            sents.append(dm.Sentence(first, len(toks)))
            want.append(rows)
        docs.append(dm.Document(text, toks, sents))
        if d == 0:
            again = list(want)
    w = io.CoNLLUWriter()
    if h.bool('file'):
        p = h.path('out.conllu')
        w.write_to_file(p, *docs)
        text = h.read(p)
    else:
        text = w.write_to_str(*docs)
    got = _lines(h, text)
    h.check('documents one after another', h.same([[r[:2] for r in s] for s in got], want), [got])
    h.check('one at a time', h.same(text, ''.join([io.CoNLLUWriter().write_to_str(d) for d in docs])))
    h.check('writing does not change the documents', h.same(w.write_to_str(*docs), text))


def spacing(h):
    """the character after a word decides"""
    dm = h.mod('datamodel')
    io = h.mod('evaluation.conllu_io')
    c = h.str('between', 1, 'x \t\u00a0.ж')
    d = h.str('after', h.choice('tail', [0, 1]), ' x')
    multi = h.bool('multiword')
    k = {'text_replacement': 'w'} if multi else {}
    doc = dm.Document('a' + c + 'b' + d, [dm.Token(0, 1, head_sentence_index=-1, **k), dm.Token(2, 3, head_sentence_index=0)])
    rows = _lines(h, io.CoNLLUWriter().write_to_str(doc))[0]
    white = h.any([c == ' ', c == '\t', c == '\u00a0'])
    h.check('no-space mark', h.all([h.iff(rows[0][9] == 'SpaceAfter=No', h.not_(white)),
                                    h.iff(rows[0][9] == '_', white)]))
    if multi:
        h.check('mark on the range line only', rows[1][9] == '_')
    if len(d) == 1:
        h.check('mark before following text', h.iff(rows[-1][9] == 'SpaceAfter=No', d == 'x'))
    else:
        h.check('no mark at the end of the text', rows[-1][9] == '_')
