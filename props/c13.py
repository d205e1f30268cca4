"""C13 laws of precision, recall and F1"""
from props.common import is_tree
from props.evalspec import W, Bank, alignments, risky, close

BOUNDS = {'characters': '4', 'tokenisations': 'all pairs, and pairs of multiword splits', 'words': 'up to 5 per side',
          'heads': 'all pairs of trees of 3 words (thorough 4 against 3)', 'tags': 'arbitrary one-character values'}
ASSUMPTIONS = ['the law of exchange is claimed where only one alignment is admissible (no tie inside of a multiword token) and the '
               'recorded finding of C12 does not interfere']

ALL = ['Tokens', 'Sentences', 'Words', 'UPOS', 'XPOS', 'Feats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS']
BELOW = [('AllTags', 'UPOS'), ('AllTags', 'XPOS'), ('AllTags', 'Feats'), ('LAS', 'UAS')] + \
    [(m, 'Words') for m in ('UPOS', 'XPOS', 'Feats', 'AllTags', 'Lemmas', 'UAS', 'LAS')]

LAWS = ['between 0 and 1', 'exchange', 'requiring more', 'harmonic mean']


def cases(tier):
    out = [('spans', 'spans', {'size': 4 if tier == 'quick' else 5}, LAWS), ('tags', 'tags', {}, LAWS),
           ('trees', 'trees', {'n': 3, 'm': 3}, LAWS), ('trees_split', 'trees', {'n': 3, 'm': 2}, LAWS),
           ('relations', 'relations', {}, LAWS), ('mwt', 'mwt', {}, LAWS), ('mwt_tags', 'mwt_tags', {}, LAWS),
           ('weights', 'weights', {}, LAWS),
           ('self_plain', 'self_plain', {}, ['with itself']), ('self_mwt', 'self_mwt', {}, ['with itself']),
           ('self_long', 'self_long', {}, ['with itself'])]
    if tier == 'thorough':
        out += [('trees4', 'trees', {'n': 4, 'm': 3}, LAWS), ('trees4same', 'trees', {'n': 4, 'm': 4}, LAWS)]
    return out


def _laws(h, g, s, weights=None):
    ev = h.mod('evaluation.conll17_ud_eval')
    a = ev.evaluate(g.load(ev), s.load(ev), *([weights] if weights else []))
    b = ev.evaluate(s.load(ev), g.load(ev), *([weights] if weights else []))
    names = ALL + (['WeightedLAS'] if weights else [])
    for m in names:
        for r in (a[m], b[m]):
            vals = [r.precision, r.recall, r.f1] + ([r.aligned_accuracy] if r.aligned_accuracy is not None else [])
            h.check('between 0 and 1', all([0 <= v <= 1 for v in vals]), [m, vals])
            p, q = r.precision, r.recall
            h.check('harmonic mean', close(r.f1 * (p + q), 2 * p * q), [m, vals])
    for x, y in BELOW:
        for r in (a, b):
            h.check('requiring more', r[x].precision <= r[y].precision + 1e-9 and r[x].recall <= r[y].recall + 1e-9 and
                    r[x].f1 <= r[y].f1 + 1e-9, [x, y])
    unique = len(alignments(g, s)) == 1 and not risky(g, s) and not risky(s, g)
    for m in names:
        if unique or m in ('Tokens', 'Sentences'):
            ok = close(a[m].precision, b[m].recall) and close(a[m].recall, b[m].precision) and close(a[m].f1, b[m].f1)
            if a[m].aligned_accuracy is not None and m != 'CLAS' and m != 'WeightedLAS':
                ok = ok and close(a[m].aligned_accuracy, b[m].aligned_accuracy)
            h.check('exchange', ok, [m, a[m].precision, b[m].recall])


def _segment(h, name, text):
    sents, toks, cur = [], [], ''
    for i, c in enumerate(text):
        cur += c
        if i == len(text) - 1 or h.bool('%s.end%d' % (name, i)):
            toks.append((None, [W(cur)]))
            cur = ''
            if i == len(text) - 1 or (i == 1 and h.bool('%s.cut' % name)):
                sents.append(toks)
                toks = []
    return Bank(sents)


def spans(h, size):
    _laws(h, _segment(h, 'gold', 'abcde'[:size]), _segment(h, 'system', 'abcde'[:size]))


def tags(h):
    forms = h.choice('system', [['a', 'b', 'c'], ['ab', 'c'], ['a', 'bc']])
    gs = [(None, [W(c, upos=h.str('gu%d' % i, 1, 'NV') if i else 'N', xpos=h.str('gx', 1, 'xy') if i == 2 else 'x',
                    lemma=h.str('gl', 1, 'lL') if i == 0 else 'l')]) for i, c in enumerate('abc')]
    ss = [(None, [W(c, upos='N', xpos='x', feats=h.choice('sf', ['_', 'A=a']) if i == 0 else '_',
                    lemma=h.str('sl', 1, 'lL') if i == 1 else 'l')]) for i, c in enumerate(forms)]
    _laws(h, Bank([gs]), Bank([ss]))


def _tree(h, name, n):
    hs = [h.int('%s%d' % (name, i), 0, n) for i in range(n)]
    h.assume(is_tree(h, n, [p - 1 for p in hs]))
    return hs


def trees(h, n, m):
    a, b = _tree(h, 'gold', n), _tree(h, 'system', m)
    gf = ['w%d' % i for i in range(n)]
    sf = gf[:m - 1] + [''.join(gf[m - 1:])]
    rel = h.choice('rel', ['r', 'q'])
    _laws(h, Bank([[(None, [W(f, a[i], deprel='r')]) for i, f in enumerate(gf)]]),
          Bank([[(None, [W(f, b[i], deprel=rel if i == 0 else 'r')]) for i, f in enumerate(sf)]]))


RELS = ['nsubj', 'punct', 'aux:pass', 'obj']


def relations(h):
    gs = [(None, [W('w%d' % i, i, deprel=h.choice('gold%d' % i, RELS))]) for i in range(2)]
    first = h.choice('h', [0, 2])
    ss = [(None, [W('w%d' % i, [first, 1][i], deprel=h.choice('system%d' % i, RELS))]) for i in range(2)]
    if ss[0][1][0]['head'] == 2:
        ss[1][1][0]['head'] = 0
    _laws(h, Bank([gs]), Bank([ss]))


SPLITS = [['a', 'b', 'c', 'd'], [('abc', 2), 'd'], ['a', ('bc', 2), 'd'], [('ab', 2), ('cd', 2)], ['ab', ('cd', 3)], ['abcd'], [('abcd', 3)]]


def _bank(h, name, split, alphabet):
    toks, k = [], 0
    for t in split:
        if isinstance(t, str):
            toks.append((None, [W(t)]))
            k += 1
        else:
            ws = []
            for i in range(t[1]):
                ws.append(W(h.str('%s.%d' % (name, k), 1, alphabet(t[0]))))
                k += 1
            toks.append((t[0], ws))
    return Bank([toks])


def mwt(h):
    g = _bank(h, 'gold', SPLITS[h.choice('g', list(range(len(SPLITS))))], lambda t: t[-1] + t[0])
    s = _bank(h, 'system', SPLITS[h.choice('s', list(range(len(SPLITS))))], lambda t: t[0].upper())
    _laws(h, g, s)


def mwt_tags(h):
    gs = [[(None, [W('w', 0)]), ('ab', [W('a', 1, upos=h.str('g0', 1, 'NV'), deprel='x'), W('B', h.int('gh', 1, 2), upos='N', deprel='y')])]]
    ss = [[(None, [W('w', h.choice('root', [0, 2]))]), (None, [W('a', h.choice('sh', [0, 1]), upos='N', deprel='x')]),
           (None, [W('b', 1, upos=h.str('s0', 1, 'NV'), deprel=h.str('sd', 1, 'xy'))])]]
    h.assume((ss[0][0][1][0]['head'] == 0) != (ss[0][1][1][0]['head'] == 0))
    _laws(h, Bank(gs), Bank(ss))


def weights(h):
    gs = [(None, [W('w%d' % i, i, deprel=h.choice('gold%d' % i, ['aux', 'nsubj', 'obj']))]) for i in range(2)]
    ss = [(None, [W('w%d' % i, i, deprel=h.choice('system%d' % i, ['aux', 'nsubj', 'obj']))]) for i in range(2)]
    _laws(h, Bank([gs]), Bank([ss]), {'aux': 0.25, 'nsubj': 2.0})


def _itself(h, b):
    ev = h.mod('evaluation.conll17_ud_eval')
    r = ev.evaluate(b.load(ev), b.load(ev))
    content = any([w[3]['deprel'] not in ('punct', 'aux:pass') for w in b.words])
    for m in ALL:
        want = 1.0 if m != 'CLAS' or content else 0.0
        h.check('with itself', close(r[m].precision, want) and close(r[m].recall, want) and close(r[m].f1, want) and
                (close(r[m].aligned_accuracy, want) if m not in ('Tokens', 'Sentences', 'Words') else True), [m])


def self_plain(h):
    hs = _tree(h, 'head', 3)
    words = [W(h.str('f%d' % i, 1, 'aж'), hs[i], upos=h.str('u%d' % i, 1, 'N_'), feats=h.choice('feats', ['_', 'A=b', 'B=b|A=a']) if i == 0
               else '_', deprel=h.choice('rel%d' % i, RELS)) for i in range(3)]
    cut = h.choice('cut', [3, 1])
    if cut == 1:
        words[0]['head'] = 0
        words[1]['head'] = 2
        words[2]['head'] = 0
    _itself(h, Bank([[(None, [w]) for w in words[:cut]]] + ([[(None, [w]) for w in words[cut:]]] if cut < 3 else [])))


def self_mwt(h):
    n = h.choice('n', [1, 2, 3])
    ws = [W(h.str('f%d' % i, 1, 'abA'), (h.choice('h', [1, 3]) if n > 1 else 1) if i == 0 else 1, upos='U%d' % i) for i in range(n)]
    toks = [(None, [W('x', 0)]), ('abc', ws), ('d', [W(h.str('last', 1, 'da'), 1)])]
    if h.bool('before'):
        toks = [toks[0], toks[1], (None, [W('a', 1)])]
    _itself(h, Bank([toks]))


def self_long(h):
    sents = []
    for k in range(3):
        toks = []
        for i in range(4):
            if k == 1 and i == 1:
                toks.append(('q', [W('a', 1), W(h.str('inner', 1, 'ab'), 1)]))
            else:
                toks.append((None, [W('w%d' % i, 0 if i == 0 else 1, upos=h.str('u%d%d' % (k, i), 1, 'NV') if i == 3 else 'X')]))
        sents.append(toks)
    _itself(h, Bank(sents))
