"""C12 evaluation aligns words correctly and counts exactly the correct ones"""
from props.common import is_tree
from props.evalspec import W, Bank, alignments, lagging, risky, agrees, spans_ok, METRICS

BOUNDS = {'characters': '4 to 6, one text of 150 and one with tokens of 24', 'tokenisations': 'all pairs over 4 characters (thorough 5), all pairs of a set of multiword splits with '
          'arbitrary case and inner forms', 'words': 'up to 6 per side, 12 or 26 in single shapes', 'heads': 'all trees of 3 words on both sides',
          'tags': 'arbitrary one-character values', 'sentences': 'up to 3'}
ASSUMPTIONS = ['inside of multiword tokens any longest common subsequence is a correct alignment']

KNOWN = 'words before a multiword token take no part in its alignment'


def cases(tier):
    out = [('spans', 'spans', {'size': 4 if tier == 'quick' else 5}, ['scores', 'token and sentence scores']),
           ('tags', 'tags', {}, ['scores']), ('tags_shift', 'tags_shift', {}, ['scores']),
           ('heads_same', 'heads', {'n': 3, 'shape': 'same'}, ['scores']),
           ('heads_split', 'heads', {'n': 3, 'shape': 'split'}, ['scores']),
           ('heads_sentences', 'heads', {'n': 3, 'shape': 'sentences'}, ['scores']),
           ('clas', 'clas', {}, ['scores']), ('weights', 'weights', {}, ['weighted scores']),
           ('characters', 'characters', {}, ['error iff characters differ']),
           ('characters_length', 'characters_length', {}, ['error iff characters differ']),
           ('lcs', 'lcs', {}, ['scores']), ('lag', 'lag', {}, ['scores', KNOWN]), ('lcs_tags', 'lcs_tags', {}, ['scores']), ('long', 'long', {}, ['scores']), ('large', 'large', {}, ['scores']), ('lcs_four', 'lcs_four', {}, ['scores']), ('straddle', 'straddle', {}, ['scores']),
           ('big_tokens', 'big_tokens', {}, ['scores']), ('far', 'far', {}, ['error iff characters differ']),
           ('empty', 'empty', {}, ['empty treebanks']), ('files', 'files', {}, ['scores from files'])]
    for i in range(len(SPLITS)):
        out.append(('mwt%d' % i, 'mwt', {'gold': i}, ['scores']))
    if tier == 'thorough':
        out.append(('heads4', 'heads', {'n': 4, 'shape': 'same'}, ['scores']))
    return out


def _verify(h, g, s, metrics=METRICS, label='scores'):
    ev = h.mod('evaluation.conll17_ud_eval')
    result = ev.evaluate(g.load(ev), s.load(ev))
    h.check('metrics', h.same(sorted(result), sorted(METRICS + ['Tokens', 'Sentences', 'Words'])))
    h.check('token and sentence scores', spans_ok(h, result, g, s))
    als = alignments(g, s)
    ok = h.any([agrees(h, result, g, s, al, metrics) for al in als])
    if risky(g, s):
        # nothing but the recorded finding may be wrong
        h.check(label, h.any([ok] + [agrees(h, result, g, s, al, metrics) for al in lagging(g, s)]), [result['Words'].precision])
        h.check(KNOWN, ok, [result['Words'].precision])
    else:
        h.check(label, ok, [result['Words'].precision])
    return result


def _segment(h, name, text, cut=True):
    """an arbitrary tokenisation (and segmentation) of the characters"""
    sents, toks, cur = [], [], ''
    for i, c in enumerate(text):
        cur += c
        if i == len(text) - 1 or h.bool('%s.end%d' % (name, i)):
            toks.append((None, [W(cur)]))
            cur = ''
            if i == len(text) - 1 or (cut and i == 1 and h.bool('%s.cut' % name)):
                sents.append(toks)
                toks = []
    return Bank(sents)


def spans(h, size):
    text = 'abcdef'[:size]
    _verify(h, _segment(h, 'gold', text), _segment(h, 'system', text))


def tags(h):
    """same tokens, arbitrary tags on both sides"""
    gs, ss = [], []
    which = h.choice('which', ['upos', 'xpos', 'feats', 'lemma', 'deprel'])
    for i in range(3):
        a, b = W('w%d' % i), W('w%d' % i)
        a[which] = h.str('gold%d' % i, 1, 'xяY_')
        b[which] = h.str('system%d' % i, 1, 'xяY_')
        other = [x for x in ('upos', 'xpos', 'feats', 'lemma') if x != which][i]
        a[other] = 'o'
        b[other] = h.str('other%d' % i, 1, 'oO')
        gs.append((None, [a]))
        ss.append((None, [b]))
    _verify(h, Bank([gs]), Bank([ss]))


def tags_shift(h):
    """different tokens: only aligned words are compared"""
    forms = h.choice('system', [['ab', 'c', 'd'], ['a', 'b', 'cd'], ['a', 'bc', 'd'], ['abc', 'd']])
    gs = [(None, [W(c, upos=h.str('gold%d' % i, 1, 'NV'), lemma='l', feats='A=a|B=b')]) for i, c in enumerate('abcd')]
    ss = [(None, [W(f, upos=h.str('system%d' % i, 1, 'NV'), lemma=h.str('lemma%d' % i, 1, 'lL'),
                    feats=h.choice('feats%d' % i, ['A=a|B=b', 'B=b|A=a']) if i == 0 else 'A=a|B=b')]) for i, f in enumerate(forms)]
    if h.bool('swap'):
        gs, ss = ss, gs
    _verify(h, Bank([gs]), Bank([ss]))


def _tree(h, name, n):
    hs = [h.int('%s%d' % (name, i), 0, n) for i in range(n)]
    h.assume(is_tree(h, n, [p - 1 for p in hs]))
    return hs


def heads(h, n, shape):
    """all pairs of trees"""
    metrics = ['UAS', 'LAS', 'CLAS']
    if shape == 'same':
        a, b = _tree(h, 'gold', n), _tree(h, 'system', n)
        gs = [[(None, [W('w%d' % i, a[i], deprel='r')]) for i in range(n)]]
        ss = [[(None, [W('w%d' % i, b[i], deprel='r' if i else h.choice('rel', ['r', 'r:x', 'q']))]) for i in range(n)]]
    elif shape == 'split':
        # the system splits the last word
        a, b = _tree(h, 'gold', n - 1), _tree(h, 'system', n)
        gs = [[(None, [W('ab', a[0], deprel='r')]), (None, [W('cd', a[1], deprel='r')])]]
        at = h.bool('first')
        forms = ['a', 'b', 'cd'] if at else ['ab', 'c', 'd']
        ss = [[(None, [W(f, b[i], deprel='r')]) for i, f in enumerate(forms)]]
        if h.bool('swap'):
            gs, ss = ss, gs
    else:
        # sentences are cut at different places
        a, b = _tree(h, 'gold', 3), _tree(h, 'system', 2)
        gs = [[(None, [W('ab'[0], 0, deprel='root')])], [(None, [W(c, a[i], deprel='r')]) for i, c in enumerate('bcd')]]
        ss = [[(None, [W(c, b[i], deprel='r')]) for i, c in enumerate('ab')], [(None, [W('c', 2, deprel='r')]),
                                                                             (None, [W('d', 0, deprel='r')])]]
        if h.bool('swap'):
            gs, ss = ss, gs
    _verify(h, Bank(gs), Bank(ss), metrics)


RELS = ['nsubj', 'punct', 'aux:pass', 'case', 'obj']


def clas(h):
    """functional relations do not count"""
    gs, ss = [], []
    for i in range(2):
        gs.append((None, [W('w%d' % i, i, deprel=h.choice('gold%d' % i, RELS))]))
        ss.append((None, [W('w%d' % i, h.choice('head%d' % i, [[0, 2], [1, 0]][i]), deprel=h.choice('system%d' % i, RELS))]))
    h.assume((ss[0][1][0]['head'] == 0) != (ss[1][1][0]['head'] == 0))
    _verify(h, Bank([gs]), Bank([ss]), ['UAS', 'LAS', 'CLAS'])


ALL_RELS = ['aux', 'case', 'cc', 'clf', 'cop', 'det', 'mark', 'punct', 'nsubj', 'root', 'conj', 'advcl', 'nmod', 'acl', 'dep', 'expl']


def weights(h):
    ev = h.mod('evaluation.conll17_ud_eval')
    g0 = h.choice('gold', ALL_RELS)
    g = Bank([[(None, [W('a', 0, deprel=g0)]), (None, [W('b', 1, deprel='nsubj')])]])
    s = Bank([[(None, [W('a', 0, deprel=h.choice('system', [g0, 'obl']))]), (None, [W('b', 1, deprel=h.choice('second', ['nsubj', 'x']))])]])
    ws = {'aux': 0.5, 'nsubj': 2.0, 'root': 0.0, '_': 5.0, 'case': -1.0, 'mark': 100.0, 'dep': 0.001}
    result = ev.evaluate(g.load(ev), s.load(ev), ws)
    al = alignments(g, s)[0]
    h.check('weighted scores', agrees(h, result, g, s, al, ['LAS', 'CLAS', 'WeightedLAS'], ws))


def characters(h):
    ev = h.mod('evaluation.conll17_ud_eval')
    a = [h.str('gold%d' % i, 1, 'aAж') for i in range(3)]
    b = [h.str('system%d' % i, 1, 'aAж') for i in range(3)]
    g = Bank([[(None, [W(a[0] + a[1])]), (None, [W(a[2])])]])
    multi = h.bool('multiword')
    s = Bank([[(b[0] if multi else None, [W(b[0])]), (None, [W(b[1] + ' ' + b[2] if h.bool('space') else b[1] + b[2])])]])
    r = h.call(ev.evaluate, g.load(ev), s.load(ev))
    same = h.all([x == y for x, y in zip(a, b)])
    h.check('error iff characters differ', h.iff(r.ok, same), [r.error])
    if not r.ok:
        h.check('its own error', isinstance(r.exc, ev.UDError), [r.error])


def characters_length(h):
    ev = h.mod('evaluation.conll17_ud_eval')
    n, m = h.choice('gold', [0, 1, 2, 3]), h.choice('system', [0, 1, 2, 3])
    g = Bank([[(None, [W('abc'[:n])])]] if n else [])
    s = Bank([[(None, [W('abc'[:m])])]] if m else [])
    r = h.call(ev.evaluate, g.load(ev), s.load(ev))
    h.check('error iff characters differ', r.ok == (n == m), [r.error])
    if not r.ok:
        h.check('its own error', isinstance(r.exc, ev.UDError), [r.error])


# tokenisations of 'abcde'; a tuple is a multiword token of that many words
SPLITS = [['a', 'b', 'c', 'd', 'e'], ['abcde'], [('abc', 3), 'd', 'e'], ['a', ('bc', 2), 'de'], [('ab', 2), ('cd', 2), 'e'],
          ['ab', ('cde', 2)], [('abc', 2), ('de', 2)], ['a', ('bcd', 3), 'e'], ['abc', ('de', 2)], [('a', 1), 'bc', ('de', 2)]]


def _bank(h, name, split, alphabet):
    toks = []
    k = 0
    for t in split:
        if isinstance(t, str):
            toks.append((None, [W(t, upos='U%d' % (k % 2))]))
            k += 1
        else:
            ws = []
            for i in range(t[1]):
                ws.append(W(h.str('%s.%d' % (name, k), 1, alphabet(t[0])), upos='U%d' % (k % 2)))
                k += 1
            toks.append((t[0], ws))
    return Bank([toks])


def mwt(h, gold):
    """multiword tokens with arbitrary inner forms against every other tokenisation"""
    g = _bank(h, 'gold', SPLITS[gold], lambda t: t[-1] + t[-1].upper())
    s = _bank(h, 'system', SPLITS[h.choice('system', list(range(len(SPLITS))))], lambda t: t[:2] if len(t) > 1 else t + 'x')
    _verify(h, g, s, ['UPOS', 'UAS'])


def lcs(h):
    """both sides one multiword token: arbitrary forms of three words each"""
    n, m = h.choice('gold', [2, 3]), h.choice('system', [2, 3])
    g = Bank([[('xyz', [W(h.str('g%d' % i, 1, 'aA' if i == 0 else 'ab'), upos='U%d' % i) for i in range(n)])]])
    s = Bank([[('xyz', [W(h.str('s%d' % i, 1, 'ab' if i else 'bA'), upos='U%d' % i) for i in range(m)])]])
    _verify(h, g, s, ['UPOS', 'UAS'])


def lag(h):
    """several plain words face the word before a multiword token"""
    g = Bank([[(None, [W('abc')]), ('de', [W(h.str('g0', 1, 'bd')), W(h.str('g1', 1, 'ce'))])]])
    s = Bank([[(None, [W(c)]) for c in 'abcde']])
    if h.bool('swap'):
        g, s = s, g
    _verify(h, g, s, ['UPOS', 'UAS'])


def lcs_tags(h):
    """a multiword token between plain words; tags and heads of its words are arbitrary"""
    gs = [[(None, [W('w', 0)]), ('ab', [W('a', 1, upos=h.str('g0', 1, 'NV'), deprel='x'), W('B', h.int('gh', 1, 2), upos='N', deprel='y')]),
           (None, [W('z', h.choice('gz', [1, 2, 3]))])]]
    forms = h.choice('system', [[('w', None), ('a', None), ('b', None), ('z', None)], [('w', None), ('ab', None), ('z', None)],
                                [('w', None), ('ab', ['b', 'a']), ('z', None)], [('wa', ['w', 'a']), ('bz', ['b', 'Z'])],
                                [('w', None), ('ab', ['a', 'b', 'b']), ('z', None)]])
    toks = []
    k = 0
    for f, ws in forms:
        words = []
        for w in (ws or [f]):
            words.append(W(w, 0 if k == 0 else h.choice('sh%d' % k, [1, k]), upos=h.str('s%d' % k, 1, 'NV') if k in (1, 2) else '_',
                           deprel='x' if k == 1 else 'y' if k == 2 else '_'))
            k += 1
        toks.append((f if ws else None, words))
    g, s = Bank(gs), Bank([toks])
    if h.bool('swap'):
        g, s = s, g
    _verify(h, g, s, ['UPOS', 'UAS', 'LAS'])


def long(h):
    """twelve words in two sentences, one word of the system differs in everything"""
    at = h.choice('at', [0, 5, 10, 11])
    gs, ss = [[], []], [[], []]
    for i in range(12):
        w = 'w%d' % i
        k = i if i < 5 else i - 5
        a = W(w, k, upos='U', lemma='l', xpos='X', feats='F=%d' % i, deprel='r')
        b = dict(a)
        if i == at:
            b['upos'] = h.str('upos', 1, 'UV')
            b['lemma'] = h.str('lemma', 1, 'lL')
            b['xpos'] = h.str('xpos', 1, 'Xx')
            b['deprel'] = h.str('deprel', 1, 'rq')
            if k > 1:
                b['head'] = h.int('head', 1, k)
        side = 0 if i < 5 else 1
        gs[side].append((None, [a]))
        if i == 8:
            ss[side].append((w, [b]))
        else:
            ss[side].append((None, [b]))
    _verify(h, Bank(gs), Bank(ss))


def large(h):
    """26 words in two sentences, the heads of two words of the system differ"""
    at = h.choice('at', [3, 12, 24])
    roots = h.bool('roots')
    gs, ss = [[], []], [[], []]
    for i in range(26):
        side, k = (0, i) if i < 20 else (1, i - 20)
        a = W('w%d' % i, k, deprel='r')
        b = dict(a)
        if roots and k < 2:
            b['head'] = [2, 0][k]
        elif i == at:
            b['head'] = h.int('head', 1, k)
        gs[side].append((None, [a]))
        ss[side].append((None, [b]))
    _verify(h, Bank(gs), Bank(ss), ['UAS', 'LAS', 'CLAS'])


def lcs_four(h):
    """a multiword token of one or two words against one of four"""
    n = h.choice('gold', [1, 2])
    g = Bank([[('xyz', [W(h.str('g%d' % i, 1, 'ab' if i else 'bc'), upos='U%d' % i) for i in range(n)])]])
    s = Bank([[('xyz', [W(c, upos='U%d' % (i % 2)) for i, c in enumerate(h.choice('system', ['aaab', 'aaba', 'caab', 'abab', 'baac', 'aabc', 'aaaa']))])]])
    if h.bool('swap'):
        g, s = s, g
    _verify(h, g, s, ['UPOS', 'UAS'])


def straddle(h):
    """plain tokens that begin inside of a multiword token of the other side and end behind it"""
    f = h.choice('inner', ['cd', 'c', 'cde', 'x'])
    if h.bool('behind'):    # plain tokens that cross each other in front of a multiword token
        ws = [W(h.str('g%d' % i, 1, 'cd'), upos='U%d' % i) for i in range(2)]
        g = Bank([[(None, [W('a')]), (None, [W('bc')]), ('de', ws)]])
        s = Bank([[(None, [W(x, upos='U%d' % (k % 2))]) for k, x in enumerate(h.choice('system', [['ab', 'c', 'd', 'e'], ['ab', 'cd', 'e'], ['abc', 'd', 'e']]))]])
        if h.bool('swap'):
            g, s = s, g
        _verify(h, g, s, ['UPOS', 'UAS'])
        return
    g = Bank([[('abc', [W(h.choice('first', ['a', 'ab', 'y']), upos='N'), W(f, upos='N')]), (None, [W('d', upos='N')]), (None, [W('e', upos='N')])]])
    s = Bank([[(None, [W(x, upos='N')]) for x in h.choice('system', [['ab', 'cd', 'e'], ['ab', 'cde'], ['a', 'b', 'cd', 'e'], ['a', 'bcd', 'e'], ['abcd', 'e']])]])
    if h.bool('swap'):
        g, s = s, g
    _verify(h, g, s, ['UPOS', 'UAS'])


def big_tokens(h):
    """tokens of about 24 characters"""
    text = 'abcdefghijklmnopqrstuvwxyz0123456789'
    cuts = [h.choice(x, [22, 23, 24, 25]) for x in ('gold', 'system')]
    more = [h.bool('more%d' % i) for i in range(2)]
    banks = [Bank([[(None, [W(text[:c])]), (None, [W(text[c:])])] if not m else [(None, [W(text[:1])]), (None, [W(text[1:c])]), (None, [W(text[c:])])]])
             for c, m in zip(cuts, more)]
    _verify(h, *banks)


def far(h):
    """a text of 150 characters, one of the last ones is arbitrary"""
    ev = h.mod('evaluation.conll17_ud_eval')
    banks = []
    for name in ('gold', 'system'):
        c = h.str(name, 1, 'aAж')
        banks.append(Bank([[(None, [W('wordwordword%02d%s' % (i, c if i == 9 else 'e'))]) for i in range(10)]]))
    r = h.call(ev.evaluate, banks[0].load(ev), banks[1].load(ev))
    h.check('error iff characters differ', h.iff(r.ok, h.same(banks[0].words[9][3]['form'], banks[1].words[9][3]['form'])), [r.error])


def empty(h):
    ev = h.mod('evaluation.conll17_ud_eval')
    e = Bank([])
    result = ev.evaluate(e.load(ev), e.load(ev))
    h.check('empty treebanks', h.all([r.precision == 0 and r.recall == 0 and r.f1 == 0 for r in result.values()]))


def files(h):
    """the same from files"""
    ev = h.mod('evaluation.conll17_ud_eval')
    g = Bank([[(None, [W('a', 0, upos='N')]), (None, [W('b', 1, upos='V')])]])
    s = Bank([[(None, [W('a', 0, upos=h.str('u', 1, 'NV'))]), (None, [W('b', 1, upos='V')])]])

    class Args(object):
        gold_file = h.file('gold.conllu', g.text())
        system_file = h.file('system.conllu', s.text())
        weights = None
    result = ev.evaluate_wrapper(Args)
    h.check('scores from files', agrees(h, result, g, s, alignments(g, s)[0]))
