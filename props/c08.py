"""C08 the reader splits files into documents of the requested number of sentences"""
from props.common import pos_key
from props.conllu import line, word

BOUNDS = {'sentences': '0 to 6 (thorough 9) of one or two words or a multiword token, plus 49 to 101 for the default limit and up to 160 for limits up to 120, over a thousand documents; sentences of 130 words',
          'limit': '1 to 7 (thorough 10)', 'source': 'string, file, data set'}
ASSUMPTIONS = ['well-formed text: every sentence is closed by an empty line']


def cases(tier):
    out = [('chunks', 'chunks', {'most': 6 if tier == 'quick' else 9, 'kinds': 3}, ['sentences per document', 'annotation'])]
    out.append(('kinds', 'kinds', {'n': 4 if tier == 'quick' else 5}, ['sentences per document', 'annotation']))
    out.append(('default', 'default', {}, ['sentences per document']))
    out.append(('source', 'source', {}, ['sentences per document']))
    out.append(('short', 'short', {}, ['sentences per document', 'annotation']))
    out.append(('big', 'big', {}, ['sentences per document']))
    out.append(('thousand', 'thousand', {}, ['sentences per document']))
    out.append(('closed', 'closed', {}, ['file closed']))
    out.append(('interleaved', 'interleaved', {}, ['sentences per document']))
    return out


def _sentence(h, i, kind, glue=False):
    """the lines of sentence i and what must be read for it"""
    m = 'SpaceAfter=No' if glue else '_'
    if kind == 0:
        return [word(1, 'a%d' % i, 0, lemma='l%d' % i, upos='U', feats='F=%d' % i, deprel='root', misc=m)], \
            [['a%d' % i, 'l%d' % i, ['U', None, [['F', '%d' % i]]], -1, 'root', 0, False, not glue]]
    if kind == 1:
        return [('# text', '#text', '#', '## 1\tx')[i % 4], word(1, 'a%d' % i, 2, lemma='l%d' % i, deprel='x'),
                word(2, 'b', 0, deprel='root', misc=m)], \
            [['a%d' % i, 'l%d' % i, [None, None, []], 1, 'x', 0, False, True],
             ['b', None, [None, None, []], -1, 'root', 0, False, not glue]]
    return [line(id='1-2', form='m%d' % i, misc=m), word(1, 'x', 0, deprel='root'), word(2, 'y%d' % i, 1, deprel='z')], \
        [['x', None, [None, None, []], -1, 'root', 0, True, not glue],
         ['y%d' % i, None, [None, None, []], 0, 'z', 1, True, not glue]]


def _view(sent):
    return [[t.text, t.lemma, pos_key(t.pos), t.head_index, t.deprel, t.sub_index, t.is_multiword, t.space_after]
            for t in sent.tokens]


def _check(h, docs, n, limit, want):
    """docs as they come out for n sentences under the limit"""
    full, rest = n // limit, n % limit
    sizes = [limit] * full + ([rest] if rest else [])
    h.check('sentences per document', h.same([d.sentences_count for d in docs], sizes), [[d.sentences_count for d in docs]])
    h.check('no empty document', h.all([d.tokens_count > 0 for d in docs]))
    if want is None:
        return
    got = []
    for d in docs:
        views = [_view(s) for s in d.sentences]
        got.extend(views)
    # the space mark of the last word of a document is not visible there
    for g, w in zip(got, want):
        h.check('annotation', h.same([x[:7] for x in g], [x[:7] for x in w]))
    h.check('all sentences', len(got) == len(want))
    k = 0
    for d in docs:
        for s in d.sentences:
            if not s.is_last:
                h.check('space marks', h.same([x[7] for x in got[k]], [x[7] for x in want[k]]))
            k += 1


def chunks(h, most, kinds):
    io = h.mod('evaluation.conllu_io')
    n = int(h.int('sentences', 0, most))
    limit = int(h.int('limit', 1, most + 1))
    lines, want = [], []
    for i in range(n):
        ls, w = _sentence(h, i, i % kinds)
        lines.extend(ls)
        lines.append('')
        want.append(w)
    if h.bool('closing comment'):
        lines.append('# end')
    text = '\n'.join(lines) + '\n' if lines else ''
    docs = list(io.CoNLLUReader(limit).read_from_str(text))
    _check(h, docs, n, limit, want)
    texts = [d.text for d in docs]
    whole = ''.join([d.text for d in io.CoNLLUReader(most + 2).read_from_str(text)])
    h.check('text of the documents together', h.same(''.join(texts), whole))


def kinds(h, n):
    """the kind of every sentence is arbitrary, also whether it is glued to the next one"""
    io = h.mod('evaluation.conllu_io')
    limit = int(h.int('limit', 1, n))
    lines, want = [], []
    for i in range(n):
        ls, w = _sentence(h, i, h.choice('kind%d' % i, [0, 1, 2]), bool(h.bool('glued%d' % i)) if i < 2 else i == 3)
        lines.extend(ls)
        lines.append('')
        want.append(w)
    docs = list(io.CoNLLUReader(limit).read_from_str('\n'.join(lines) + '\n'))
    _check(h, docs, n, limit, want)


def default(h):
    io = h.mod('evaluation.conllu_io')
    n = h.choice('sentences', [49, 50, 51, 100, 101])
    limit = h.choice('limit', [None, 12, 25])
    text = ''.join([word(1, 'w', 0, deprel='root') + '\n\n' for _ in range(n)])
    docs = list((io.CoNLLUReader() if limit is None else io.CoNLLUReader(limit)).read_from_str(text))
    _check(h, docs, n, limit or 50, None)


def short(h):
    """sentences of one word of one character that is glued to what follows"""
    io = h.mod('evaluation.conllu_io')
    n = int(h.int('sentences', 1, 4))
    limit = int(h.int('limit', 1, 4))
    lines, want = [], []
    for i in range(n):
        form = h.str('form%d' % i, 1, 'aж_')
        glue = bool(h.bool('glued%d' % i))
        lines += [word(1, form, 0, deprel='root', misc='SpaceAfter=No' if glue else '_'), '']
        want.append([[form, None, [None, None, []], -1, 'root', 0, False, not glue]])
    docs = list(io.CoNLLUReader(limit).read_from_str('\n'.join(lines) + '\n'))
    _check(h, docs, n, limit, want)


def big(h):
    """big limits and long sentences"""
    io = h.mod('evaluation.conllu_io')
    k = h.choice('words', [1, 130])
    n = h.choice('sentences', [59, 60, 61, 160] if k == 1 else [3, 4, 5])
    limit = h.choice('limit', [60, 64, 120] if k == 1 else [2, 4, 60])
    one = ''.join([word(i, 'w', i - 1, deprel='d') + '\n' for i in range(1, k + 1)]) + '\n'
    docs = list(io.CoNLLUReader(limit).read_from_str(one * n))
    _check(h, docs, n, limit, None)
    h.check('words per document', [d.tokens_count for d in docs] == [d.sentences_count * k for d in docs])


def thousand(h):
    """a data set of more than a thousand documents"""
    io = h.mod('evaluation.conllu_io')
    ds = h.mod('evaluation.dataset')
    n = 1030
    path = h.file('in.conllu', (word(1, 'w', 0, deprel='root') + '\n\n') * n)
    limit = h.choice('limit', [1, 2])
    _check(h, list(ds.CoNLLUDataSet(path, io.CoNLLUReader(limit))), n, limit, None)


def interleaved(h):
    """one reader reads two texts at the same time; a third one is left early"""
    io = h.mod('evaluation.conllu_io')
    limit = int(h.int('limit', 1, 3))
    reader = io.CoNLLUReader(limit)
    texts, wants, ns = [], [], []
    for k in range(2):
        n = h.choice('sentences%d' % k, [1, 3, 5])
        lines, want = [], []
        for i in range(n):
            ls, w = _sentence(h, 10 * k + i, (i + k) % 3)
            lines += ls + ['']
            want.append(w)
        texts.append('\n'.join(lines) + '\n')
        wants.append(want)
        ns.append(n)
    left = reader.read_from_str(texts[0])
    if h.bool('left early'):
        next(left)
    a, b = reader.read_from_str(texts[0]), reader.read_from_str(texts[1])
    da, db = [], []
    for _ in range(6):
        for it, docs in ((a, da), (b, db)):
            d = next(it, None)
            if d is not None:
                docs.append(d)
    _check(h, da, ns[0], limit, wants[0])
    _check(h, db, ns[1], limit, wants[1])


class Opened(object):
    """an open file, remembers that it was closed"""

    def __init__(self, text):
        self.lines = [x + '\n' for x in text.split('\n')[:-1]]
        self.closed = False

    def __iter__(self):
        return self

    def __next__(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if not self.lines:
            raise StopIteration
        return self.lines.pop(0)

    def readline(self):
        return next(self, '')

    def readlines(self):
        return list(self)

    def read(self):
        return ''.join(list(self))

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def closed(h):
    """the file does not stay open when the stream ends, is abandoned or meets a broken line"""
    io = h.mod('evaluation.conllu_io')
    end = h.choice('end', ['read', 'abandoned', 'broken'])
    n = int(h.int('sentences', 1, 4))
    limit = int(h.int('limit', 1, 3))
    lines = []
    for i in range(n):
        lines.extend(_sentence(h, i, i % 3)[0] + [''])
    if end == 'broken':
        lines.extend(['1\tx', ''])
    text = '\n'.join(lines) + '\n'
    path = h.file('in.conllu', text)
    opened = []

    def open_file(name, mode='r', *a, **k):
        opened.append(Opened(text))
        return opened[-1]
    io.open = open_file
    try:
        docs = io.CoNLLUReader(limit).read_from_file(path)
        if end == 'abandoned':
            next(docs)
            getattr(docs, 'close', opened.clear)()
        else:
            r = h.call(lambda: list(docs))
            h.check('broken line refused', r.ok == (end == 'read'), [r.error])
    finally:
        del io.open
    h.check('file closed', all([f.closed for f in opened]), [len(opened)])


def source(h):
    io = h.mod('evaluation.conllu_io')
    ds = h.mod('evaluation.dataset')
    n = int(h.int('sentences', 0, 5))
    limit = int(h.int('limit', 1, 6))
    end = '\r\n' if h.bool('crlf') else '\n'
    lines, want = [], []
    for i in range(n):
        ls, w = _sentence(h, i, i % 3)
        lines.extend(ls)
        lines.append('')
        want.append(w)
    path = h.file('in.conllu', end.join(lines) + end if lines else '')
    how = h.choice('how', ['file', 'data set', 'default data set'])
    if how == 'file':
        _check(h, list(io.CoNLLUReader(limit).read_from_file(path)), n, limit, want)
    elif how == 'data set':
        data = ds.CoNLLUDataSet(path, io.CoNLLUReader(limit))
        _check(h, list(data), n, limit, want)
        _check(h, list(data), n, limit, want)
    else:
        _check(h, list(ds.CoNLLUDataSet(path)), n, 1, want)
