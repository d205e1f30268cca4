"""C04 derived tokens and documents change only what was asked for"""
from props.common import token_fields, pos_key, structure, head_indices, shows_heads

BOUNDS = {'derivations': 'sequences of up to 2 (thorough 3) of the four derivations', 'annotations': 'every annotation '
          'absent or present, words of multiword tokens and plain words',
          'document': 'up to 4 tokens in any order, new spans arbitrary; multiword token of 3; 12 tokens'}
ASSUMPTIONS = []

OPS = ['morphology', 'syntax', 'extras', 'update']


def cases(tier):
    out = []
    must = ['derived as asked', 'original unchanged']
    for kind in ('token', 'document', 'sentence'):
        out.append(('derive_' + kind, 'derive', {'kind': kind, 'steps': 2}, must))
    if tier == 'thorough':
        out.append(('derive3', 'derive', {'kind': 'document', 'steps': 3}, must))
    out.append(('order3', 'order', {'n': 3}, ['from_document takes annotations']))
    if tier == 'thorough':
        out.append(('order4', 'order', {'n': 4}, ['from_document takes annotations']))
    out.append(('mwt', 'mwt', {}, ['from_document takes annotations']))
    out.append(('spans2', 'spans', {'n': 2, 'm': 2}, ['refused iff spans differ']))
    out.append(('spans2_3', 'spans', {'n': 2, 'm': 3}, ['refused iff spans differ']))
    out.append(('spans3_2', 'spans', {'n': 3, 'm': 2}, ['refused iff spans differ']))
    for n, m in ((0, 0), (0, 1), (1, 0), (2, 0)):
        out.append(('spans%d_%d' % (n, m), 'spans', {'n': n, 'm': m}, ['refused iff spans differ']))
    out.append(('subwords', 'subwords', {}, ['refused iff spans differ']))
    out.append(('spans12', 'spans_long', {}, ['refused iff spans differ']))
    out.append(('odd_text', 'odd_text', {}, ['from_document keeps structure']))
    out.append(('alias', 'alias', {}, ['stored annotations unchanged']))
    out.append(('chain', 'chain', {}, ['history kept']))
    return out


def _extras(e):
    return sorted([k, e[k]] for k in e)


def _all(t, heads=True):
    out = token_fields(t) + [_extras(t.extras)]
    if heads:
        out += head_indices(t)
    return out


def _model(t):
    return {'start': t.start, 'end': t.end, 'sub': t.sub_index, 'rep': t.text_replacement, 'pos': t.pos, 'lemma': t.lemma,
            'deprel': t.deprel, 'hd': head_indices(t)[0], 'hs': head_indices(t)[1],
            'extras': dict((k, t.extras[k]) for k in t.extras)}


def _agrees(h, t, m):
    return h.all([h.same(t.start, m['start']), h.same(t.end, m['end']), h.same(t.sub_index, m['sub']),
                  h.same(t.text_replacement, m['rep']), h.iff(t.is_multiword, m['rep'] is not None),
                  h.same(pos_key(t.pos), pos_key(m['pos'])), h.same(t.lemma, m['lemma']), h.same(t.deprel, m['deprel']),
                  not shows_heads(t) or h.same(head_indices(t), [m['hd'], m['hs']]),
                  h.iff(t.has_head, m['hd'] is not None or m['hs'] is not None),
                  h.same(_extras(t.extras), sorted([k, v] for k, v in m['extras'].items()))])


def _opt(h, name, v):
    return v if h.bool(name) else None


def derive(h, kind, steps):
    dm = h.mod('datamodel')
    s = h.int('start', 1, 3)
    e = h.int('end', 2, 5)
    h.assume(s < e)
    k = {}
    multi = h.bool('multi')
    if multi:
        k = {'sub_index': h.int('sub', 0, 2) if kind == 'token' else 0, 'text_replacement': 'w'}
    rooted = h.choice('head', ['none', 'word', 'root'])
    if rooted != 'none':
        k['head_sentence_index'] = -1 if rooted == 'root' else 0
        if kind != 'token':
            k['head_document_index'] = -1 if rooted == 'root' else 1
    annotated = h.bool('annotated')
    if annotated:
        k.update(pos=dm.Pos('N', 'x', {'A': 'a'}), lemma='le', deprel='nsubj', extras=dm.TokenExtras({'k': 'v', 'z': [1]}))
    t = dm.Token(s, e, **k)
    text = 'abcde fgh'
    if kind == 'document':
        t = dm.Document(text, [dm.Token(0, 1), t], [dm.Sentence(0, 1), dm.Sentence(1, 2)]).get_token(1)
    elif kind == 'sentence':
        t = dm.Document(text, [dm.Token(0, 1), t], [dm.Sentence(0, 1), dm.Sentence(1, 2)]).get_sentence(1).get_token(0)
    m = _model(t)
    before = _all(t)
    cur = t
    for step in range(steps):
        op = h.choice('op%d' % step, OPS)
        cls = dm.Token if kind == 'token' or h.bool('plain%d' % step) else type(cur)
        m = dict(m)
        full = h.bool('full%d' % step)
        if op == 'morphology':
            if full:
                m['pos'], m['lemma'] = dm.Pos('V', None, {'B': 'b%d' % step}), ['l0', '', 'l2'][step]
                cur = cls.with_morphology(cur, m['pos'], m['lemma'])
            elif h.bool('only pos%d' % step):
                m['pos'], m['lemma'] = dm.Pos('X'), None
                cur = cls.with_morphology(cur, pos=m['pos'])
            else:
                m['pos'], m['lemma'] = None, 'q%d' % step
                cur = cls.with_morphology(cur, lemma=m['lemma'])
        elif op == 'syntax':
            if full:
                m['deprel'], m['hd'], m['hs'] = 'obj%d' % step, h.int('hd%d' % step, -1, 3), None
                cur = cls.with_syntax(cur, m['deprel'], head_document_index=m['hd'])
            elif h.bool('only relation%d' % step):
                m['deprel'], m['hd'], m['hs'] = 'det', None, None
                cur = cls.with_syntax(cur, m['deprel'])
            else:
                m['deprel'], m['hd'], m['hs'] = None, None, h.int('hs%d' % step, -1, 3)
                cur = cls.with_syntax(cur, head_sentence_index=m['hs'])
        elif op == 'extras':
            if full:
                m['extras'] = {'n%d' % step: 'x'}
                cur = cls.with_extras(cur, dm.TokenExtras(m['extras']))
            else:
                m['extras'] = {}
                cur = cls.with_extras(cur)
        else:
            if full:
                upd = h.choice('updates%d' % step, [{'k': 'new%d' % step, 'more': 1}, {'k': None}, {'k': 0, 'more': ''}])
                m['extras'] = dict(m['extras'], **upd)
                cur = cls.update_extras(cur, upd)
            elif h.bool('empty%d' % step):
                cur = cls.update_extras(cur, {})
            else:
                cur = cls.update_extras(cur)
        h.check('derived as asked', _agrees(h, cur, m))
        if kind != 'token' and isinstance(cur, dm.DocumentToken):
            h.check('surface kept', h.all([h.same(cur.doc_text, t.doc_text), h.same(cur.text, t.text),
                                           h.iff(cur.space_after, t.space_after)]))
    h.check('original unchanged', h.same(_all(t), before))


def _doc(dm, n):
    toks = [dm.Token(2 * i, 2 * i + 1, lemma='old%d' % i, pos=dm.Pos('O'), deprel='o', head_sentence_index=-1,
                     extras=dm.TokenExtras({'old': i})) for i in range(n)]
    sents = ([dm.Sentence(0, 1)] if n else []) + ([dm.Sentence(1, n)] if n > 1 else [])
    return dm.Document('x ' * n, toks, sents)


def order(h, n):
    dm = h.mod('datamodel')
    doc = _doc(dm, n)
    before = [_all(t) for t in doc.tokens]
    new = []
    for t in doc.tokens:
        i = len(new)
        if h.bool('tag%d' % i):
            new.append(dm.Token.with_morphology(t, dm.Pos('N%d' % i), h.str('lemma%d' % i, 1, 'aю')))
        else:
            head = 0
            if i:  # within the second sentence or the root
                head = h.int('head%d' % i, -1, n - 1)
                h.assume(head != 0)
            new.append(t.with_syntax(t, 'r%d' % i, head_document_index=head))
    if h.bool('iterator'):
        r = dm.Document.from_document(doc, [new[i] for i in h.perm('perm', n)])
    else:
        r = doc.from_document(doc, new)
    got = list(r.tokens)
    h.check('from_document keeps structure', h.same(structure(r), structure(doc)))
    h.check('from_document takes annotations', h.all([
        h.all([h.same(pos_key(g.pos), pos_key(w.pos)), h.same(g.lemma, w.lemma), h.same(g.deprel, w.deprel),
               h.iff(g.has_head, w.has_head), h.iff(g.is_root, w.is_root), h.same(_extras(g.extras), _extras(w.extras))])
        for g, w in zip(got, new)]))
    for i, g in enumerate(got):
        w = new[i]
        if head_indices(w)[0] is not None:
            h.check('from_document takes heads', g.head_index == head_indices(w)[0])
    h.check('document unchanged', h.same([_all(t) for t in doc.tokens], before))


def mwt(h):
    dm = h.mod('datamodel')
    toks = [dm.Token(0, 2)] + [dm.Token(3, 6, sub_index=i, text_replacement='w%d' % i) for i in range(3)] + [dm.Token(6, 7)]
    doc = dm.Document('ab cde.', toks, [dm.Sentence(0, 1), dm.Sentence(1, 5)])
    new = []
    for i, t in enumerate(doc.tokens):
        new.append(t.with_morphology(t, dm.Pos('N', None, {'F': str(i)}), 'l%d' % i))
    if h.bool('plain again'):   # the word of a one-part multiword token becomes a plain word and the other way round
        new[0] = dm.Token(0, 2, lemma='l0', pos=dm.Pos('N', None, {'F': '0'}), text_replacement='q')
        r = dm.Document.from_document(doc, new)
        h.check('from_document takes annotations', h.same([[t.lemma, t.pos.feature('F'), t.text] for t in r.tokens],
                [['l%d' % i, str(i), t.text if i else 'q'] for i, t in enumerate(doc.tokens)]))
        r = dm.Document.from_document(r, doc.tokens if h.bool('given one by one') else list(doc.tokens))
        h.check('from_document keeps structure', h.same(structure(r), structure(doc)))
        return
    r = dm.Document.from_document(doc, [new[i] for i in h.perm('perm', 5)])
    h.check('from_document keeps structure', h.same(structure(r), structure(doc)))
    h.check('from_document takes annotations', h.same([[t.lemma, t.pos.feature('F'), t.text] for t in r.tokens],
                                                      [['l%d' % i, str(i), t.text] for i, t in enumerate(doc.tokens)]))


def spans(h, n, m):
    """new tokens anywhere"""
    dm = h.mod('datamodel')
    doc = _doc(dm, n)
    new, facts = [], []
    for i in range(m):
        s = h.int('s%d' % i, 0, max(2 * n - 1, 1))
        e = h.int('e%d' % i, 1, max(2 * n, 2))
        h.assume(s < e)
        facts.append((s, e))
        new.append(dm.Token(s, e, lemma='n%d' % i))
    same = h.all([m == n] + [h.any([h.all([f[0] == 2 * i, f[1] == 2 * i + 1]) for f in facts]) for i in range(n)])
    r = h.call(dm.Document.from_document, doc, new)
    h.check('refused iff spans differ', h.iff(r.ok, same), [r.error])
    if not r.ok:
        h.check('refusal is a ValueError', r.error == 'ValueError', [r.error])


def subwords(h):
    """plain words are offered as words of multiword tokens anywhere and the other way round"""
    dm = h.mod('datamodel')
    multi = h.bool('multiword document')
    places = [(0, 2, 0), (0, 2, 1), (3, 4, 0)] if multi else [(0, 2, 0), (3, 4, 0), (5, 6, 0)]
    doc = dm.Document('ab c d', [dm.Token(s, e, sub_index=u, text_replacement='w' if multi and e == 2 else None) for s, e, u in places])
    new, facts = [], []
    changed = h.choice('changed', [0, 1, 2])
    for i in range(3):
        s, e, u = places[i]
        if changed == i:
            s, e, u = h.int('start', 0, 5), h.int('end', 1, 6), h.int('sub', 0, 2)
            h.assume(s < e)
        facts.append((s, e))
        new.append(dm.Token(s, e, sub_index=u, text_replacement='v' if h.bool('replaced%d' % i) or u != 0 else None))
    same = h.all([h.all([h.total([h.all([f[0] == s, f[1] == e]) for f in facts]) == len([p for p in places if p[:2] == (s, e)])]) for s, e, _ in places])
    r = h.call(dm.Document.from_document, doc, new)
    if h.not_(same):
        h.check('refused iff spans differ', h.all([h.not_(r.ok), r.error == 'ValueError']), [r.error])
    elif not multi:
        h.check('refused iff spans differ', r.ok or any([t.sub_index != 0 for t in new]), [r.error])


def spans_long(h):
    dm = h.mod('datamodel')
    n = 12
    doc = _doc(dm, n)
    at = h.choice('at', [0, 1, 6, 10, 11])
    ds = h.int('ds', -1, 1)
    de = h.int('de', -1, 1)
    h.assume(h.all([2 * at + ds >= 0, ds < 1 + de]))
    drop = h.choice('drop', [None, 0, 11])
    new = []
    for i in range(n):
        if i == drop:
            continue
        new.append(dm.Token(2 * i + ds, 2 * i + 1 + de) if i == at else dm.Token(2 * i, 2 * i + 1))
    same = h.all([ds == 0, de == 0, drop is None]) if drop != at else False
    r = h.call(dm.Document.from_document, doc, new)
    h.check('refused iff spans differ', h.iff(r.ok, same), [r.error])
    if not r.ok:
        h.check('refusal is a ValueError', r.error == 'ValueError', [r.error])


def odd_text(h):
    """texts with spaces at the ends and without words"""
    dm = h.mod('datamodel')
    text = h.str('before', h.choice('n', [0, 1, 2]), ' \na') + h.choice('word', ['', 'w', 'w w']) + h.str('behind', h.choice('m', [0, 1, 2]), ' \u00a0.')
    toks = []
    for i, c in enumerate(text):
        if c == 'w':
            toks.append(dm.Token(i, i + 1, lemma='old'))
    doc = dm.Document(text, toks)
    r = dm.Document.from_document(doc, [t.with_morphology(t, lemma='new') for t in doc.tokens])
    h.check('from_document keeps structure', h.all([h.same(r.text, text), h.same(structure(r), structure(doc))]))
    h.check('from_document takes annotations', all([t.lemma == 'new' for t in r.tokens]) and r.tokens_count == len(toks))


def _frozen(x):
    if isinstance(x, dict):
        return ['dict'] + [[k, _frozen(x[k])] for k in sorted(x)]
    if isinstance(x, (list, tuple)):
        return [_frozen(y) for y in x]
    return x


def alias(h):
    """every dictionary that went in or came out is changed afterwards"""
    dm = h.mod('datamodel')
    v = h.str('value', 1, 'ab')
    fin = {'A': v, 'B': 'b'}
    ein = {'k': v, 'nested': {'deep': [v]}, 'pair': ([v], {'x': v}), 'rows': [[v], [v]]}
    pos = dm.Pos('N', 'x', fin)
    ext = dm.TokenExtras(ein)
    upd = {'u': {'deep': [v]}}
    ext2 = ext.update(upd)
    t = dm.Token(0, 1, pos, 'l', extras=ext)
    t2 = dm.Token.update_extras(t, upd)
    toks = [t]
    sents = [dm.Sentence(0, 1)]
    doc = dm.Document('x', toks, sents)

    def snap():
        return [[e['pair'][0], sorted(e['pair'][1]), e['rows']] for e in (ext, ext2, t2.extras, doc.get_token(0).extras)], [pos_key(t.pos), pos_key(doc.get_token(0).pos), pos.feature('A'), pos.feature('B'), pos.feature('C'), pos.feature('a'), pos.feature('B '), pos.feature(''),
                sorted(ext.keys()), ext['k'], ext['nested']['deep'], sorted(ext['nested']),
                sorted(ext2.keys()), ext2['u']['deep'], sorted(ext2['u']), ext2['nested']['deep'], ext2['k'],
                sorted(t2.extras.keys()), t2.extras['u']['deep'], t2.extras['nested']['deep'],
                sorted(doc.get_token(0).extras.keys()), doc.get_token(0).extras['nested']['deep'],
                doc.tokens_count, doc.sentences_count, len(list(doc.sentences_boundaries)), 'A' in ext, 'k' in ext]
    h.check('stored annotations unchanged', dm.Pos('N', None, {'a': v}).feature('A') is None and dm.Pos('N', None, {'Case': v}).feature('CASE') is None)
    before = _frozen(snap())
    hb = hash(pos)
    what = h.choice('what', ['feats in', 'feats out', 'extras in', 'nested in', 'item out', 'dict out', 'update in',
                             'update nested', 'dict nested out', 'derived out', 'lists', 'pair in', 'pair out', 'pair dict out', 'rows in', 'rows out', 'rows dict out', 'doc feats out', 'derived dict out'])
    w = h.str('changed', 1, 'cd')
    if what == 'feats in':
        fin['A'] = w
        fin['C'] = w
        del fin['B']
    elif what == 'feats out':
        f = pos.feats
        f['A'] = w
        f['C'] = w
    elif what == 'doc feats out':
        f = doc.get_token(0).pos.feats
        f['B'] = w
        f.pop('A')
    elif what == 'extras in':
        ein['k'] = w
        ein['A'] = w
    elif what == 'nested in':
        ein['nested']['deep'].append(w)
        ein['nested']['other'] = w
    elif what == 'item out':
        ext['nested']['deep'].append(w)
        ext['nested']['other'] = w
    elif what == 'dict out':
        d = ext.as_dict()
        d['k'] = w
        d['A'] = w
    elif what == 'dict nested out':
        ext.as_dict()['nested']['deep'].append(w)
        ext2.as_dict()['u']['x'] = w
    elif what.startswith('pair'):
        o = {'in': ein['pair'], 'out': h.choice('whose', [ext, ext2, t2.extras])['pair'] if what == 'pair out' else None,
             'dict out': t2.extras.as_dict()['pair'] if what == 'pair dict out' else None}[what[5:]]
        o[0].append(w)
        o[1]['y'] = w
    elif what.startswith('rows'):
        o = {'in': ein['rows'], 'out': h.choice('whose', [ext, ext2, t2.extras])['rows'] if what == 'rows out' else None,
             'dict out': ext2.as_dict()['rows'] if what == 'rows dict out' else None}[what[5:]]
        o[1].append(w)
        o.append([w])
    elif what == 'update in':
        upd['u'] = {'deep': [w]}
        upd['k'] = w
    elif what == 'update nested':
        upd['u']['deep'].append(w)
        upd['u']['x'] = w
    elif what == 'derived out':
        t2.extras['nested']['deep'].append(w)
        ext2['u']['deep'].append(w)
        doc.get_token(0).extras['nested']['deep'].append(w)
    elif what == 'derived dict out':
        t2.extras.as_dict()['nested']['deep'].append(w)
        doc.get_token(0).extras.as_dict()['nested']['x'] = w
    else:
        toks.append(dm.Token(1, 2))
        sents.append(dm.Sentence(1, 2))
    h.check('stored annotations unchanged', h.same(_frozen(snap()), before))
    h.check('hash unchanged', hash(pos) == hb)


def chain(h):
    """a document derived twice: first tags, then syntax; every version keeps its own annotation"""
    dm = h.mod('datamodel')
    n = 3
    doc = _doc(dm, n)
    v0 = [_all(t) for t in doc.tokens]
    first = h.bool('tags first')
    heads = [h.int('head%d' % i, -1, n - 2) if i else -1 for i in range(n)]

    def tag(d):
        return dm.Document.from_document(d, [t.with_morphology(t, dm.Pos('N'), 'l') for t in d.tokens])

    def parse(d):
        out = []
        for s, sent in enumerate(d.sentences):
            for i, t in enumerate(sent):
                out.append(t.with_syntax(t, 'r', head_sentence_index=heads[s + i]))
        return dm.Document.from_document(d, out)
    d1 = tag(doc) if first else parse(doc)
    v1 = [_all(t) for t in d1.tokens]
    d2 = parse(d1) if first else tag(d1)
    h.check('history kept', h.all([h.same([_all(t) for t in doc.tokens], v0), h.same([_all(t) for t in d1.tokens], v1)]))
    h.check('chain: morphology', h.same([[t.lemma, t.pos.upos] for t in d2.tokens], [['l', 'N']] * n))
    h.check('chain: syntax', h.all([h.same([t.deprel for t in d2.tokens], ['r'] * n)] +
                                   [h.same([t.head_index for t in s.tokens], heads[k:k + s.tokens_count])
                                    for k, s in enumerate(d2.sentences)]))
    h.check('chain: structure', h.same(structure(d2), structure(doc)))
