"""C07 reading CoNLL-U reproduces exactly the annotation in the file"""
from props.common import is_tree, chosen_tree
from props.conllu import ID, LEMMA, UPOS, XPOS, FEATS, HEAD, DEPREL, line, word, Spec, matches

BOUNDS = {'sentences': 'up to 3', 'words per sentence': 'up to 4 of arbitrary kind (word, multiword token of 1-3 words, empty '
          'node), one shape with 12 words, one with 130 and a multiword token of 12', 'strings': 'forms and annotations of 1-2 characters from an alphabet with '
          'non-ASCII letters, underscore, no-break space, dash, dot, number sign',
          'columns': 'all 64 selections', 'heads': 'all', 'line ends': 'LF and CRLF, from a string and from a file'}
ASSUMPTIONS = ['well-formed text: every sentence is closed by an empty line, features are Name=Value, word numbers count up']


def cases(tier):
    core = ['text', 'form', 'lemma', 'part of speech', 'head']
    out = [('annotation', 'annotation', {}, core), ('columns', 'columns', {}, ['text', 'form']),
           ('columns_order', 'columns_order', {}, ['text', 'form']),
           ('feats', 'feats', {}, ['part of speech']), ('misc', 'misc', {}, ['text']),
           ('trees2', 'trees', {'sizes': [2, 2]}, ['refused iff not a tree']),
           ('trees3', 'trees', {'sizes': [1, 3]}, ['refused iff not a tree']),
           ('trees_none', 'trees_none', {}, ['no head', 'unselected heads are not checked']),
           ('partial', 'partial', {}, ['refused iff partly annotated']),
           ('long', 'long', {}, core), ('huge', 'huge', {}, core), ('file', 'file', {}, core), ('several', 'several', {}, core)]
    shapes = [['w', 'm2', 'w'], ['m3'], ['m1', 'w'], ['m2', 'm2'], ['e', 'w', 'e', 'w'], ['w', 'me2', 'w'], ['w', 'e', 'm2', 'e']]
    for i, s in enumerate(shapes):
        out.append(('structure_' + '_'.join(s), 'structure', {'shape': s, 'second': False}, ['text', 'form', 'multiword']))
    out.append(('structure_two', 'structure', {'shape': ['m2', 'w'], 'second': True}, ['text', 'form', 'multiword']))
    out.append(('comments', 'comments', {}, ['text', 'form']))
    if tier == 'thorough':
        out.append(('trees4', 'trees', {'sizes': [4]}, ['refused iff not a tree']))
        for s in (['m3', 'm2', 'w', 'e'], ['w', 'w', 'm3', 'w'], ['me2', 'me2']):
            out.append(('structure_' + '_'.join(s), 'structure', {'shape': s, 'second': True}, ['text', 'form', 'multiword']))
    return out


FORM_ALPHABET = 'aж_\u00a0-.#'


def _absent(x):
    """underscore means absent (forks)"""
    return None if x == '_' else x


def _read(h, io, text, **k):
    return list(io.CoNLLUReader(**k).read_from_str(text))


def annotation(h):
    """two words with arbitrary annotation, default columns"""
    io = h.mod('evaluation.conllu_io')
    spec = Spec()
    lines = []
    for i in (1, 2):
        full = i == 1
        form = h.str('form%d' % i, 1, FORM_ALPHABET)
        lemma = h.str('lemma%d' % i, 1, 'bє_')
        upos = h.str('upos%d' % i, 1, 'N_')
        xpos = h.str('xpos%d' % i, 1, 'x_=|') if full else '_'
        rel = h.str('rel%d' % i, 1, 'r_:')
        fv = h.str('fv%d' % i, 1, 'v,Я')
        some = h.bool('feats%d' % i)
        lines.append(word(i, form, 2 - i if full else 0, lemma=lemma, upos=upos, xpos=xpos,
                          feats='F=' + fv if some else '_', deprel=rel) if not full else
                     word(i, form, 2, lemma=lemma, upos=upos, xpos=xpos, feats='F=' + fv if some else '_', deprel=rel))
        spec.token(form, True, lemma=_absent(lemma), deprel=_absent(rel), head=2 if full else 0,
                   pos=[_absent(upos), _absent(xpos), [['F', fv]] if some else []])
    spec.end()
    docs = _read(h, io, '\n'.join(lines) + '\n\n')
    h.check('one document', len(docs) == 1)
    matches(h, docs[0], spec)


def _column_doc(h, cols, given, default):
    io = h.mod('evaluation.conllu_io')
    spec = Spec()
    has = set(cols)
    if DEPREL in has:
        has.add(HEAD)
    lines = []
    for i in (1, 2):
        lines.append(word(i, 'f%d' % i, i - 1, lemma='l%d' % i, upos='U%d' % i, xpos='X%d' % i, feats='A=%d|B=b' % i,
                          deprel='d%d' % i, deps='2:x', misc='SpaceAfter=No' if i == 1 else '_'))
        pos = None
        if UPOS in has or XPOS in has or FEATS in has:
            pos = ['U%d' % i if UPOS in has else None, 'X%d' % i if XPOS in has else None,
                   [['A', '%d' % i], ['B', 'b']] if FEATS in has else []]
        spec.token('f%d' % i, i != 1, lemma='l%d' % i if LEMMA in has else None, pos=pos,
                   head=i - 1 if HEAD in has else None, deprel='d%d' % i if DEPREL in has else None)
    spec.end()
    text = '\n'.join(lines) + '\n\n'
    reader = io.CoNLLUReader() if default else io.CoNLLUReader(columns=given)
    docs = list(reader.read_from_str(text))
    h.check('one document', len(docs) == 1)
    matches(h, docs[0], spec)


def columns(h):
    cols = [c for c in (LEMMA, UPOS, XPOS, FEATS, HEAD, DEPREL) if h.bool('column%d' % c)]
    _column_doc(h, cols, cols, False)


def columns_order(h):
    """any iterable in any order; and the default selection"""
    if h.bool('default'):
        _column_doc(h, [LEMMA, UPOS, XPOS, FEATS, DEPREL], None, True)
        return
    if h.bool('set'):
        given = {LEMMA, DEPREL}
        _column_doc(h, [LEMMA, DEPREL], given, False)
        h.check('selection as given', given == {LEMMA, DEPREL})
        return
    cols = [[LEMMA, DEPREL, UPOS], [XPOS, FEATS, HEAD]][1 if h.bool('other') else 0]
    p = [cols[i] for i in h.perm('perm', 3)]
    _column_doc(h, p, iter(p) if h.bool('iterator') else tuple(p), False)


def feats(h):
    io = h.mod('evaluation.conllu_io')
    n = h.choice('count', [0, 1, 2, 3, 4, 9])
    odd = h.choice('odd', ['_', '', 'a b', ' a', ' ']) if n == 2 else None
    names = ['Case', 'Gen', 'Num', 'Z[x]', 'A', 'Tense', 'Person', 'VerbForm', 'Poss']
    order = h.perm('order', n) if n and n < 4 else list(range(n))
    vals = [h.str('v%d' % i, 1 + i % 2, 'aЖ,1') for i in range(n)]
    if odd is not None:
        vals[1] = odd
    s = '_'
    if n:
        s = '|'.join([names[i] + '=' + vals[i] for i in order])
    spec = Spec()
    spec.token('x', True, pos=['N', None, sorted([[names[i], vals[i]] for i in range(n)], key=lambda x: x[0])], head=0, deprel='root')
    spec.end()
    docs = _read(h, io, word(1, 'x', 0, upos='N', feats=s, deprel='root') + '\n\n')
    matches(h, docs[0], spec)
    t = docs[0].get_token(0)
    h.check('feature', h.all([h.same(t.pos.feature(names[i]), vals[i]) for i in range(n)] + [t.pos.feature('None') is None]))


MISCS = [('_', True), ('SpaceAfterAll=No', True), ('NoSpaceAfter=No', True), ('SpaceAfter=No', False), ('Foo=Bar', True), ('Foo=Bar|SpaceAfter=No', False),
         ('SpaceAfter=No|Foo=Bar', False), ('Flag', True), ('Flag|SpaceAfter=No', False), ('SpacesAfter=\\n', True),
         ('Foo=SpaceAfter', True), ('A=b|Translit=x=y', True), ('\u00a0', True), ('Gloss=x \u2003', True), ('|', True), ('A=a|B=b|C=c|D=d|SpaceAfter=No', False),
         ('A=a|B=b|C=c|SpaceAfter=No|D=d', False), ('A=a|B=b|C=c|D=d', True)]


def misc(h):
    io = h.mod('evaluation.conllu_io')
    spec = Spec()
    lines = []
    for i in (1, 2):
        m, space = h.choice('misc%d' % i, MISCS)
        lines.append(word(i, 'a%d' % i, i - 1, deprel='r', misc=m))
        spec.token('a%d' % i, space, head=i - 1, deprel='r', pos=[None, None, []])
    spec.end()
    docs = _read(h, io, '\n'.join(lines) + '\n\n')
    matches(h, docs[0], spec)


def trees(h, sizes):
    io = h.mod('evaluation.conllu_io')
    spec = Spec()
    text = ''
    conds = []
    for s, n in enumerate(sizes):
        heads = []
        for i in range(1, n + 1):
            p = h.int('head%d_%d' % (s, i), 0, n + 1)
            heads.append(p - 1)
            text = text + word(i, 'w', p, deprel='r%d' % i) + '\n'
            spec.token('w', True, head=p, deprel='r%d' % i, pos=[None, None, []])
        conds.append(is_tree(h, n, heads))
        text = text + '\n'
        spec.end()
    ok = h.all(conds)
    r = h.call(_read, h, io, text)
    h.check('refused iff not a tree', h.iff(r.ok, ok), [r.error])
    if r.ok:
        h.check('one document', len(r.value) == 1)
        matches(h, r.value[0], spec)
    else:
        h.check('refusal is a ValueError', r.error == 'ValueError', [r.error])


def trees_none(h):
    """without the syntax columns heads are neither read nor checked; underscore heads are absent"""
    io = h.mod('evaluation.conllu_io')
    hidden = h.bool('hidden')
    spec = Spec()
    lines = []
    for i in (1, 2):
        head = str(h.int('head%d' % i, 0, 3)) if hidden else '_'
        lines.append(line(id=str(i), form='w', lemma='l', head=head, deprel='r' if hidden else '_'))
        spec.token('w', True, lemma='l', pos=[None, None, []])
    spec.end()
    r = h.call(_read, h, io, '\n'.join(lines) + '\n\n', columns=[LEMMA, UPOS] if hidden else [LEMMA, UPOS, HEAD, DEPREL])
    h.check('unselected heads are not checked', r.ok and len(r.value) == 1, [r.error])
    matches(h, r.value[0], spec)


def partial(h):
    io = h.mod('evaluation.conllu_io')
    flags, lines = [], []
    for i in (1, 2, 3):
        f = h.bool('has%d' % i)
        flags.append(f)
        lines.append(line(id=str(i), form='w', head=str(i - 1) if f else '_', deprel='r'))
    r = h.call(_read, h, io, '\n'.join(lines) + '\n\n')
    h.check('refused iff partly annotated', h.iff(r.ok, h.any([h.all(flags), h.not_(h.any(flags))])), [r.error])
    if not r.ok:
        h.check('refusal is a ValueError', r.error == 'ValueError')


def _sentence(h, spec, shape, name, lines):
    """appends the lines of a sentence of this shape, chained from its first word"""
    k = 0
    for pos, kind in enumerate(shape):
        nm = '%s%d' % (name, pos)
        if kind == 'e':
            lines.append(line(id='%d.%d' % (k, (1, 2, 10, 3)[pos % 4]), form=h.str(nm + '.form', 1, 'e_'), lemma='e', upos='E', head='_', deps='0:x',
                              misc='SpaceAfter=No' if h.bool(nm + '.glued') else '_'))
        elif kind == 'w':
            k += 1
            form = h.str(nm + '.form', 1 + pos % 2, 'aж_-.')
            glued = h.bool(nm + '.glued')
            lines.append(word(k, form, k - 1, lemma='l%d' % k, upos='U', deprel='r%d' % k,
                              misc='SpaceAfter=No' if glued else '_'))
            spec.token(form, h.not_(glued), head=k - 1, deprel='r%d' % k, lemma='l%d' % k, pos=['U', None, []])
        else:
            n = int(kind[-1])
            form = h.str(nm + '.form', 2, 'aж')
            glued = h.bool(nm + '.glued')
            lines.append(line(id='%d-%d' % (k + 1, k + n), form=form, misc='SpaceAfter=No' if glued else '_'))
            words = []
            for i in range(n):
                k += 1
                f = h.str('%s.w%d' % (nm, i), 1, 'xї_\u00a0')
                inner = h.bool(nm + '.inner') if i == 0 else False
                lines.append(word(k, f, k - 1, lemma='l%d' % k, upos='U', deprel='r%d' % k,
                                  misc='SpaceAfter=No' if inner else '_'))
                words.append(dict(form=f, lemma='l%d' % k, pos=['U', None, []], head=k - 1, deprel='r%d' % k))
                if kind.startswith('me') and i == 0:
                    lines.append(line(id='%d.%d' % (k, pos), form='e', lemma='e', deps='0:x'))
            spec.multi(form, h.not_(glued), words)
    lines.append('')
    spec.end()


def structure(h, shape, second):
    io = h.mod('evaluation.conllu_io')
    spec = Spec()
    lines = []
    _sentence(h, spec, shape, 'p', lines)
    if second:
        _sentence(h, spec, list(reversed(shape)), 'q', lines)
    docs = _read(h, io, '\n'.join(lines) + '\n')
    h.check('one document', len(docs) == 1)
    matches(h, docs[0], spec)


def comments(h):
    io = h.mod('evaluation.conllu_io')
    spec = Spec()
    text = ''
    for s in range(2):
        n = h.choice('comments%d' % s, [0, 1, 2])
        text = text + ''.join(['# ' + h.str('c%d.%d' % (s, i), 1, 'x\t1#') + ' = 1\tx\n' for i in range(n)])
        text = text + word(1, '#', 0, deprel='root') + '\n'
        if h.bool('inner%d' % s):
            text = text + '#\n'
        text = text + word(2, '#b', 1, deprel='x') + '\n\n'
        spec.token('#', True, head=0, deprel='root', pos=[None, None, []])
        spec.token('#b', True, head=1, deprel='x', pos=[None, None, []])
        spec.end()
    if h.bool('trailing'):
        text = text + '# the end\n'
    docs = _read(h, io, text)
    h.check('one document', len(docs) == 1)
    matches(h, docs[0], spec)


def long(h):
    """twelve words, multiword token 9-11, one arbitrary annotation and head anywhere"""
    io = h.mod('evaluation.conllu_io')
    spec = Spec()
    lines = []
    at = h.choice('at', [1, 5, 9, 10, 11, 12])
    p = h.int('head', 0, 12)
    glue = h.bool('glued')
    words = []
    for i in range(1, 13):
        if i == 9:
            lines.append(line(id='9-11', form='мул', misc='SpaceAfter=No' if glue else '_'))
        head = p if i == at else i - 1
        form = h.str('form', 2, 'aЖ') if i == at else 'f%d' % i
        lem = h.str('lemma', 1, 'l_') if i == at else 'l%d' % i
        lines.append(word(i, form, head, lemma=lem, upos='U%d' % i, xpos='x', feats='F=%d|G=g' % i, deprel='r%d' % i,
                          misc='SpaceAfter=No' if i == 12 else '_'))
        w = dict(head=head, deprel='r%d' % i, lemma=_absent(lem), pos=['U%d' % i, 'x', [['F', '%d' % i], ['G', 'g']]])
        if 9 <= i <= 11:
            words.append(dict(w, form=form))
            if i == 11:
                spec.multi('мул', h.not_(glue), words)
        else:
            spec.token(form, i != 12, **w)
    spec.end()
    ok = is_tree(h, 12, [p - 1 if i == at else i - 2 for i in range(1, 13)])
    r = h.call(_read, h, io, '\n'.join(lines) + '\n\n')
    h.check('long: refused iff not a tree', h.iff(r.ok, ok), [r.error])
    if r.ok:
        matches(h, r.value[0], spec)


def huge(h):
    """a sentence of 130 words with a multiword token 98-109, a head anywhere"""
    io = h.mod('evaluation.conllu_io')
    spec = Spec()
    lines = []
    n = 130
    at = h.choice('at', [1, 99, 100, 104, n])
    p = h.choice('head', [0, 1, 9, 10, 11, 99, 100, 101, n - 1, n])
    form = h.str('form', 3, 'a9Ж')
    words = []
    for i in range(1, n + 1):
        if i == 98:
            lines.append(line(id='98-109', form=form, misc='SpaceAfter=No'))
        head = p if i == at else i - 1
        lines.append(word(i, 'f%d' % i, head, lemma='l%d' % i, upos='U%d' % i, xpos='x', feats='F=%d' % i, deprel='r%d' % i))
        w = dict(head=head, deprel='r%d' % i, lemma='l%d' % i, pos=['U%d' % i, 'x', [['F', '%d' % i]]])
        if 98 <= i <= 109:
            words.append(dict(w, form='f%d' % i))
            if i == 109:
                spec.multi(form, False, words)
        else:
            spec.token('f%d' % i, True, **w)
    spec.end()
    ok = chosen_tree(n, [p - 1 if i == at else i - 2 for i in range(1, n + 1)])
    r = h.call(_read, h, io, '\n'.join(lines) + '\n\n')
    h.check('long: refused iff not a tree', h.iff(r.ok, ok), [r.error])
    if r.ok:
        matches(h, r.value[0], spec)


def file(h):
    """from a file and from a string, LF and CRLF"""
    io = h.mod('evaluation.conllu_io')
    ds = h.mod('evaluation.dataset')
    end = '\r\n' if h.bool('crlf') else '\n'
    spec = Spec()
    lines = []
    _sentence(h, spec, ['w', 'm2'], 'p', lines)
    text = end.join(lines) + end
    how = h.choice('how', ['file', 'string', 'dataset', 'default dataset'])
    if how == 'string':
        docs = list(io.CoNLLUReader().read_from_str(text))
    else:
        path = h.file('in.conllu', text)
        if how == 'file':
            docs = list(io.CoNLLUReader().read_from_file(path))
        elif how == 'dataset':
            data = ds.CoNLLUDataSet(path, io.CoNLLUReader(7))
            docs = list(data)
            h.check('data set can be read again', h.same([d.text for d in data], [d.text for d in docs]))
        else:
            docs = list(ds.CoNLLUDataSet(path))
    h.check('one document', len(docs) == 1)
    matches(h, docs[0], spec)


def several(h):
    """three sentences in documents of at most two: annotation and text start anew in every document"""
    io = h.mod('evaluation.conllu_io')
    specs = [Spec(), Spec()]
    lines = []
    shapes = [['w', 'm2'], ['w'], ['m2', 'w']]
    for s in range(3):
        _sentence(h, specs[s // 2], shapes[s], 's%d' % s, lines)
    docs = list(io.CoNLLUReader(2).read_from_str('\n'.join(lines) + '\n'))
    h.check('two documents', len(docs) == 2)
    matches(h, docs[0], specs[0])
    matches(h, docs[1], specs[1])
