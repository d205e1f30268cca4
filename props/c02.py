"""C02 syntax validation accepts exactly single-rooted dependency trees"""
from props.common import tree_ok, is_tree

BOUNDS = {'words per sentence': 'up to 4 (thorough 5) with arbitrary and possibly absent heads, 4 (thorough 5) with all heads, '
          '12 with two arbitrary heads', 'sentences': 'up to 3; 9 of two words, one of them arbitrary', 'head values': 'from two before the sentence to one behind it',
          'notation': 'sentence-relative, document-relative, both'}
ASSUMPTIONS = []


def cases(tier):
    must = ['accepts iff tree']
    out = []
    for n in (1, 2, 3):
        for nt in ('sentence', 'document'):
            out.append(('one%d_%s' % (n, nt), 'one', {'n': n, 'notation': nt, 'optional': True}, must))
    out.append(('one4', 'one', {'n': 4, 'notation': 'sentence', 'optional': True}, must))
    out.append(('full4', 'one', {'n': 4, 'notation': 'document', 'optional': False}, must))
    out.append(('two2_2', 'several', {'sizes': [2, 2], 'free': [0, 1]}, must))
    out.append(('three', 'several', {'sizes': [1, 3, 2], 'free': [1, 2]}, must))
    out.append(('last', 'several', {'sizes': [2, 2, 3], 'free': [2]}, must))
    out.append(('middle', 'several', {'sizes': [3, 3, 1], 'free': [1]}, must))
    out.append(('long', 'long', {'n': 12}, must))
    out.append(('partial', 'partial', {'n': 12}, must))
    out.append(('many', 'many', {'k': 9}, must))
    out.append(('unannotated', 'unannotated', {'n': 4}, ['accepts iff tree']))
    out.append(('off', 'off', {'n': 3}, ['accepted without validation']))
    if tier == 'thorough':
        out.append(('full5', 'one', {'n': 5, 'notation': 'sentence', 'optional': False}, must))
        out.append(('one5', 'one', {'n': 5, 'notation': 'sentence', 'optional': True}, must))
        out.append(('three3', 'several', {'sizes': [3, 3, 3], 'free': [0, 2]}, must))
    return out


def _tok(dm, i, has, head, start, notation, multi):
    k = {}
    if has:
        if notation != 'document':   # trees with and without relation names
            k['deprel'] = 'r%d' % i
        if notation in ('sentence', 'both'):
            k['head_sentence_index'] = head
        if notation in ('document', 'both'):
            k['head_document_index'] = -1 if head == -1 else head + start
    if multi is not None:
        a, b, sub = multi
        return dm.Token(a, b, sub_index=sub, text_replacement='w', **k)
    return dm.Token(2 * i, 2 * i + 1, **k)


def _decide(h, dm, toks, sents, ok, n):
    r = h.call(dm.Document, 'x ' * n, toks, sents, validate_syntax=True)
    h.observe('outcome', r.error)
    h.check('accepts iff tree', h.iff(r.ok, ok), [r.error])
    if not r.ok:
        h.check('refusal is a ValueError', r.error == 'ValueError', [r.error])
    return r


def one(h, n, notation, optional):
    dm = h.mod('datamodel')
    has, heads, toks = [], [], []
    for i in range(n):
        has.append(h.bool('has%d' % i) if optional else True)
        heads.append(h.int('head%d' % i, -2, n))
    ok = tree_ok(h, n, has, heads)
    for i in range(n):
        toks.append(_tok(dm, i, has[i], heads[i], 0, notation, None))
    _decide(h, dm, toks, None, ok, n)


def several(h, sizes, free):
    """sentences listed in free have arbitrary heads, the others are chains; the second word of the last sentence shares
    its multiword token with the first one"""
    dm = h.mod('datamodel')
    toks, sents, conds = [], [], []
    start = 0
    total = sum(sizes)
    for s, n in enumerate(sizes):
        heads, has = [], []
        nt = h.choice('notation%d' % s, ['sentence', 'document', 'both']) if s in free else 'document'
        for i in range(n):
            if s in free:
                # heads may point into the neighbouring sentences
                heads.append(h.int('head%d_%d' % (s, i), -2, n))
                if nt != 'sentence':  # the document index -1 is the root mark, not a word
                    h.assume(h.any([heads[i] == -1, heads[i] + start != -1]))
                has.append(True if i else h.bool('has%d' % s))
            else:
                heads.append(i - 1)
                has.append(True)
        conds.append(tree_ok(h, n, has, heads))
        for i in range(n):
            multi = None
            if s == len(sizes) - 1 and i < 2 and n > 1:
                multi = (2 * start, 2 * start + 1, i)
            toks.append(_tok(dm, start + i, has[i], heads[i], start, nt, multi))
        sents.append(dm.Sentence(start, start + n))
        start += n
    _decide(h, dm, toks, sents, h.all(conds), total)


def long(h, n):
    """a sentence of n words: a chain running backwards, two words of it re-attached anywhere"""
    dm = h.mod('datamodel')
    heads = [i + 1 for i in range(n - 1)] + [-1]
    for k in range(2):
        at = h.choice('at%d' % k, [[0, 10], [n - 1, 5]][k])
        heads[at] = h.int('head%d' % k, -2, n)
    ok = is_tree(h, n, heads)
    pre = 2
    toks = [dm.Token(0, 1, head_sentence_index=-1), dm.Token(2, 3, head_sentence_index=0)]
    toks += [dm.Token(2 * (i + pre), 2 * (i + pre) + 1, deprel=['root', 'obj'][i % 2], head_sentence_index=heads[i]) for i in range(n)]
    _decide(h, dm, toks, [dm.Sentence(0, pre), dm.Sentence(pre, n + pre)], ok, n + pre)


def partial(h, n):
    """a sentence of n words, one of them arbitrary or unannotated, behind another sentence"""
    dm = h.mod('datamodel')
    shape = h.choice('shape', ['chain', 'star', 'backwards'])
    heads = {'chain': [i - 1 for i in range(n)], 'star': [-1] + [0] * (n - 1), 'backwards': [i + 1 for i in range(n - 1)] + [-1]}[shape]
    at = h.choice('at', [0, 1, 6, 9, n - 1])
    has = [True] * n
    if h.bool('absent'):
        has[at] = False
    else:
        heads[at] = h.int('head', -2, n)
    ok = False if not has[at] else is_tree(h, n, heads)
    toks = [dm.Token(0, 1, head_sentence_index=-1)]
    toks += [dm.Token(2 * i + 2, 2 * i + 3, head_sentence_index=heads[i] if has[i] else None) for i in range(n)]
    _decide(h, dm, toks, [dm.Sentence(0, 1), dm.Sentence(1, n + 1)], ok, n + 1)


def many(h, k):
    """many sentences of two words, one of them arbitrary"""
    dm = h.mod('datamodel')
    at = h.choice('at', [0, 3, 4, 5, 6, k - 2, k - 1])
    toks, ok = [], True
    for s in range(k):
        heads, has = [-1, 0], [True, True]
        if s == at:
            heads = [h.int('head%d' % i, -2, 2) for i in range(2)]
            has = [h.bool('has%d' % i) for i in range(2)]
            ok = tree_ok(h, 2, has, heads)
        for i in range(2):
            toks.append(_tok(dm, 2 * s + i, has[i], heads[i], 2 * s, 'sentence', None))
    _decide(h, dm, toks, [dm.Sentence(2 * s, 2 * s + 2) for s in range(k)], ok, 2 * k)


def unannotated(h, n):
    """one word of one sentence (anywhere) has or lacks its head"""
    dm = h.mod('datamodel')
    all_have = h.bool('all')
    odd = h.int('odd', 0, 2 * n)
    toks, flags = [], []
    for i in range(2 * n):
        f = all_have if odd != i else h.not_(all_have)
        flags.append(f)
        toks.append(dm.Token(2 * i, 2 * i + 1, head_sentence_index=i % n - 1 if f else None))
    ok = odd == 2 * n
    _decide(h, dm, toks, [dm.Sentence(0, n), dm.Sentence(n, 2 * n)], ok, 2 * n)


def off(h, n):
    """without the request nothing about trees is checked, so documents under construction can be represented"""
    dm = h.mod('datamodel')
    toks = []
    for i in range(n):
        toks.append(dm.Token(2 * i, 2 * i + 1, head_sentence_index=h.int('head%d' % i, -1, n - 1)
                             if h.bool('has%d' % i) else None))
    r = h.call(dm.Document, 'x ' * n, toks)
    h.check('accepted without validation', r.ok, [r.error])
