"""C11 the evaluation loader accepts exactly valid dependency treebanks"""
import io

from props.common import is_tree
from props.conllu import line

BOUNDS = {'sentences': 'up to 3', 'words': 'up to 4 per sentence with arbitrary heads (-1 .. n+1), plain or in multiword tokens of up to 3; '
          '12 words with two arbitrary heads, 60 words in 30 sentences or one with one arbitrary head', 'word numbers': '0 .. n+1 of up to 3 words, 0 .. 30 in a sentence of 12', 'columns': '1, 9, 10, 11 in any line',
          'forms': '1-3 characters incl. spaces and no-break spaces'}
ASSUMPTIONS = ['numbers inside of multiword tokens are not verified (nor does the official CoNLL 2017 script)',
               'no empty nodes between the words of a multiword token']


def cases(tier):
    out = []
    must = ['accepted iff valid']
    for g in ([1], [1, 1], [2], [1, 2], [3], [1, 1, 1]):
        out.append(('heads' + '+'.join(map(str, g)), 'heads', {'groups': [g]}, must))
    out.append(('heads_two', 'heads', {'groups': [[1, 1], [2]]}, must))
    out.append(('heads_second', 'heads', {'groups': [[1], [2, 1]]}, must))
    out.append(('numbers', 'numbers', {'n': 3}, must))
    out.append(('numbers_mwt', 'numbers_mwt', {}, must))
    out.append(('columns', 'columns', {}, must))
    out.append(('closing', 'closing', {}, must))
    out.append(('malformed', 'malformed', {}, must))
    out.append(('inside', 'inside', {}, must))
    out.append(('spans', 'spans', {'shape': [[1, 1]]}, ['token spans', 'word spans']))
    out.append(('spans_mwt', 'spans', {'shape': [[1, 2], [3]]}, ['token spans', 'word spans', 'sentence spans']))
    out.append(('spans_two', 'spans', {'shape': [[2], [1, 1]]}, ['token spans', 'word spans', 'sentence spans']))
    out += [('long', 'long', {}, must), ('long_numbers', 'long_numbers', {}, must), ('long_token', 'long_token', {}, must), ('large', 'large', {}, must),
            ('many', 'many', {}, must), ('tails', 'tails', {}, must), ('empties', 'empties', {}, must)]
    out.append(('file', 'file', {}, ['from a file']))
    if tier == 'thorough':
        out.append(('heads4', 'heads', {'groups': [[1, 1, 2]]}, must))
        out.append(('heads_three', 'heads', {'groups': [[2], [1], [1, 1]]}, must))
    return out


def _load(h, ev, text):
    return ev.load_conllu(io.StringIO(text))


def _decide(h, ev, text, ok):
    r = h.call(_load, h, ev, text)
    h.observe('outcome', r.error)
    h.check('accepted iff valid', h.iff(r.ok, ok), [r.error])
    if not r.ok:
        h.check('refusal is its own error', isinstance(r.exc, ev.UDError), [r.error])
    return r


def _links(h, ud, first, heads):
    """words from first on are linked to their heads (0 root)"""
    for i, p in enumerate(heads):
        w = ud.words[first + i]
        if p == 0:
            h.check('root has no parent', w.parent is None)
        else:
            q = w.parent
            h.check('linked to its head', q is not None and h.any([h.all([p == j + 1, q is ud.words[first + j]])
                                                                   for j in range(len(heads))]))


def heads(h, groups):
    ev = h.mod('evaluation.conll17_ud_eval')
    text = ''
    conds, all_heads = [], []
    for s, g in enumerate(groups):
        n = sum(g)
        hs = [h.int('head%d_%d' % (s, i), -1, n + 1) for i in range(n)]
        all_heads.append(hs)
        conds.append(is_tree(h, n, [p - 1 for p in hs]))
        i = 0
        for k in g:
            if k > 1:
                text = text + line(id='%d-%d' % (i + 1, i + k), form='m') + '\n'
            for _ in range(k):
                text = text + line(id=str(i + 1), form='w', head=str(hs[i]), deprel='r') + '\n'
                i += 1
        text = text + '\n'
    r = _decide(h, ev, text, h.all(conds))
    if r.ok:
        first = 0
        h.check('number of words', len(r.value.words) == sum([len(x) for x in all_heads]))
        for hs in all_heads:
            _links(h, r.value, first, hs)
            first += len(hs)


def numbers(h, n):
    """word numbers count up from one in every sentence"""
    ev = h.mod('evaluation.conll17_ud_eval')
    text = ''
    conds = []
    for s in range(2):
        m = n if s else 1
        for i in range(m):
            k = h.int('number%d_%d' % (s, i), 0, n + 1)
            conds.append(k == i + 1)
            text = text + line(id=str(k), form='w', head=str(i)) + '\n'
        text = text + '\n'
    _decide(h, ev, text, h.all(conds))


def numbers_mwt(h):
    """after a multiword token of k words the numbers go on"""
    ev = h.mod('evaluation.conll17_ud_eval')
    k = h.choice('words', [1, 2, 3])
    text = line(id='1', form='w', head='0') + '\n' + line(id='2-%d' % (k + 1), form='m') + '\n'
    for i in range(k):
        text = text + line(id=str(i + 2), form='x', head='1') + '\n'
    e = h.bool('empty node')
    if e:
        text = text + line(id='%d.1' % (k + 1), form='e', head='_') + '\n'
    num = h.int('number', 1, 6)
    text = text + line(id=str(num), form='y', head='1') + '\n\n'
    r = _decide(h, ev, text, num == k + 2)
    if r.ok:
        h.check('empty nodes are skipped', len(r.value.words) == k + 2 and len(r.value.tokens) == 3)


def columns(h):
    """one line of any kind has another number of columns"""
    ev = h.mod('evaluation.conll17_ud_eval')
    at = h.choice('line', [0, 1, 2, 3, 4])
    cols = h.choice('columns', [1, 9, 10, 11])
    lines = [line(id='1', form='a', head='0'), line(id='2-3', form='b'), line(id='2', form='c', head='1'),
             line(id='3', form='d', head='1'), line(id='4', form='e', head='1')]
    x = lines[at].split('\t')
    lines[at] = '\t'.join(x[:cols] if cols < 11 else x + ['_'])
    _decide(h, ev, '\n'.join(lines) + '\n\n', cols == 10)


def closing(h):
    """sentences are closed by exactly one empty line; comments only before sentences"""
    ev = h.mod('evaluation.conll17_ud_eval')
    n = h.choice('sentences', [0, 1, 2, 3])
    text = ''
    end = '\r\n' if h.bool('crlf') else '\n'
    for s in range(n):
        if h.bool('comment%d' % s):
            text += '# sentence\t1' + end
        text += line(id='1', form='a', head='0') + end + end
    extra = h.choice('extra', ['', 'open', 'empty', 'comment', 'no newline'])
    ok = True
    if extra == 'open':
        text += line(id='1', form='a', head='0') + end
        ok = False
    elif extra == 'empty':
        text += end
        ok = False
    elif extra == 'comment':
        text += '# the end' + end
    elif extra == 'no newline':
        text += line(id='1', form='a', head='0')
        ok = False
    r = _decide(h, ev, text, ok)
    if r.ok:
        h.check('number of sentences', len(r.value.sentences) == n and len(r.value.words) == n)


BAD = [('number', 'x'), ('number', ''), ('range', '1-x'), ('range', '1-2-3'), ('range', '-'), ('head', 'x'), ('head', '_'), ('head', ''),
       ('inner head', 'x'), ('inner head', '_'), ('form', ''), ('form', ' '), ('form', '  '), ('range form', ' '),
       ('cut', None), ('fine', None)]


def malformed(h):
    ev = h.mod('evaluation.conll17_ud_eval')
    what, v = h.choice('what', BAD)
    d = {'number': '1', 'range': '2-3', 'head': '0', 'inner head': '1', 'form': 'a', 'range form': 'b'}
    if what in d:
        d[what] = v
    lines = [line(id=d['number'], form=d['form'], head=d['head']), line(id=d['range'], form=d['range form']),
             line(id='2', form='c', head='1'), line(id='3', form='d', head=d['inner head'])]
    if what == 'cut':
        lines.pop()
    _decide(h, ev, '\n'.join(lines) + '\n\n', what == 'fine')


INSIDE = [('comment', '# text'), ('empty comment', '#'), ('comment of ten columns', '#\ta\t_\t_\t_\t_\t0\tr\t_\t_'), ('indented', ' '), ('indented mark', '  # text'), ('indented mark of ten columns', ' #\ta\t_\t_\t_\t_\t0\tr\t_\t_'), ('tabs', '\t' * 9)]


def inside(h):
    """a line that is no word in front of, inside of or behind the lines of a sentence: only comments, only in front"""
    ev = h.mod('evaluation.conll17_ud_eval')
    lines = [line(id='1', form='a', head=str(h.int('head', 0, 1))), line(id='2-3', form='bc'), line(id='2', form='b', head='1'), line(id='3', form='c', head='2'),
             line(id='3.1', form='e', head='_'), line(id='4', form='d', head='1')]
    what, extra = h.choice('what', INSIDE)
    at = h.choice('at', [0, 1, 2, 3, 4, 5, 6, None])
    if at is not None:
        lines.insert(at, extra)
    ok = h.all([h.same(lines[1 if at == 0 else 0].split('\t')[6], '0'), at is None or at == 0 and 'comment' in what])
    _decide(h, ev, '\n'.join(lines) + '\n\n', ok)


def tails(h):
    """the last column may be anything, also empty or of spaces"""
    ev = h.mod('evaluation.conll17_ud_eval')
    at = h.choice('line', [0, 1, 2, 3, 4])
    v = h.choice('value', ['', ' ', 'Gloss=x ', '\u00a0', 'SpaceAfter=No'])
    lines = [line(id='1', form='a', head='0'), line(id='2-3', form='bc'), line(id='2', form='b', head='1'), line(id='3', form='c', head='2'), line(id='4', form='d', head=str(h.int('head', 1, 4)))]
    lines[at] = lines[at][:-1] + v
    r = _decide(h, ev, '\n'.join(lines) + '\n\n', h.int('head', 1, 4) != 4)
    if r.ok:
        h.check('words', [w.columns[1] for w in r.value.words] == ['a', 'b', 'c', 'd'] and (at == 1 or r.value.words[max(at - 1, 0)].columns[9] == v))


def empties(h):
    """empty nodes of any number are no words, words whose columns are all underscores are"""
    ev = h.mod('evaluation.conll17_ud_eval')
    lines = [line(id='1', form='a', head='0'), line(id='2', form='_', head='1'), line(id='3', form='c', head=str(h.int('head', 0, 3)))]
    at = h.choice('at', [0, 1, 2, 3])
    form = h.choice('form', ['e', '_', 'x y'])
    for i in h.choice('nodes', [[1], [2], [10], [1, 2, 3], [21]]):
        lines.insert(at, line(id='%d.%d' % (at, i), form=form, head='_'))
        if len(lines) > 4:
            at += 1
    closed = h.bool('closed')
    r = _decide(h, ev, '\n'.join(lines) + ('\n\n' if closed else '\n'), h.all([closed, h.int('head', 0, 3) != 0, h.int('head', 0, 3) != 3]))
    if r.ok:
        h.check('words', [w.columns[1] for w in r.value.words] == ['a', '_', 'c'] and ''.join(r.value.characters) == 'a_c')
    alone = h.call(_load, h, ev, line(id='0.1', form='e', head='_') + '\n')
    h.check('accepted iff valid', not alone.ok, [alone.error])


def spans(h, shape):
    ev = h.mod('evaluation.conll17_ud_eval')
    text = ''
    toks, words, sents, chars = [], [], [], ''
    pos = 0
    for s, groups in enumerate(shape):
        start = pos
        i = 0
        for gi, k in enumerate(groups):
            form = h.str('form%d_%d' % (s, gi), 2 + gi % 2, 'aЖ \u00a0')
            bare = form.replace(' ', '')
            h.assume(len(bare) > 0)
            span = [pos, pos + len(bare)]
            toks.append(span)
            pos += len(bare)
            chars = chars + bare
            if k > 1:
                text = text + line(id='%d-%d' % (i + 1, i + k), form=form) + '\n'
            for j in range(k):
                i += 1
                rel = h.choice('relation', ['nsubj', 'nsubj:pass', 'a:b:c']) if not words else 'x:y'
                text = text + line(id=str(i), form=form if k == 1 else 'w%d' % j, lemma='l%d' % i, head=str(i - 1), deprel=rel) + '\n'
                words.append((span, k > 1, 'l%d' % i, rel.split(':')[0], i - 1, bare if k == 1 else 'w%d' % j))
            if s == 0 and h.bool('empty%d' % gi):
                text = text + line(id='%d.1' % i, form='eee', head='_') + '\n'
        sents.append([start, pos])
        text = text + '\n'
    ud = _load(h, ev, text)
    h.check('token spans', h.same([[t.start, t.end] for t in ud.tokens], toks))
    h.check('characters', h.same(''.join(ud.characters), chars) and len(ud.characters) == len(chars))
    h.check('sentence spans', h.same([[t.start, t.end] for t in ud.sentences], sents))
    h.check('number of words', len(ud.words) == len(words))
    for w, (span, multi, lemma, rel, head, form) in zip(ud.words, words):
        h.check('word spans', h.same([w.span.start, w.span.end], span))
        h.check('multiword mark', h.iff(w.is_multiword, multi))
        h.check('word columns', h.all([h.same(w.columns[2], lemma), h.same(w.columns[7], rel), h.same(w.columns[6], str(head)),
                                       h.same(w.columns[1], form)]))
    first = 0
    for g in shape:
        _links(h, ud, first, list(range(sum(g))))
        first += sum(g)


def long(h):
    """twelve words in the second sentence, two of them attached anywhere"""
    ev = h.mod('evaluation.conll17_ud_eval')
    n = 12
    hs = [i for i in range(n)]
    for k in range(2):
        at = h.choice('at%d' % k, [[0, 9], [4, 11]][k])
        hs[at] = h.int('head%d' % k, 0, n + 1)
    text = line(id='1', form='a', head='0') + '\n\n'
    for i in range(n):
        if i == 8:
            text = text + line(id='9-11', form='мул') + '\n'
        text = text + line(id=str(i + 1), form='w%d' % i, head=str(hs[i])) + '\n'
    r = _decide(h, ev, text + '\n', is_tree(h, n, [p - 1 for p in hs]))
    if r.ok:
        _links(h, r.value, 1, hs)
        h.check('long: multiword marks', h.same([w.is_multiword for w in r.value.words], [8 <= i - 1 <= 10 for i in range(n + 1)]))
        h.check('long: tokens', len(r.value.tokens) == 11)


def long_numbers(h):
    """one of twelve words of the second sentence has an arbitrary number"""
    ev = h.mod('evaluation.conll17_ud_eval')
    at = h.choice('at', [0, 1, 9, 10, 11])
    k = h.int('number', 0, 30)
    text = line(id='1', form='a', head='0') + '\n\n'
    for i in range(12):
        text = text + line(id=str(k) if i == at else str(i + 1), form='w', head=str(i)) + '\n'
    _decide(h, ev, text + '\n', k == at + 1)


def long_token(h):
    """a multiword token of twelve words"""
    ev = h.mod('evaluation.conll17_ud_eval')
    last = h.choice('last', [2, 9, 10, 11, 13])
    text = line(id='1', form='a', head='0') + '\n' + line(id='2-%d' % last, form='bc') + '\n'
    for i in range(1, 13):
        text = text + line(id=str(i + 1), form='w%d' % i, head=str(h.int('head', 0, 14)) if i == 11 else str(i)) + '\n'
    p = h.int('head', 0, 14)
    r = _decide(h, ev, text + '\n', h.all([p >= 1, p <= 11]))
    if r.ok:
        h.check('long: multiword marks', h.same([w.is_multiword for w in r.value.words], [1 <= i < last for i in range(13)]))
        h.check('long: tokens', len(r.value.tokens) == 2 + 13 - last)


def large(h):
    """a chain of sixty words with one arbitrary head"""
    ev = h.mod('evaluation.conll17_ud_eval')
    n = 60
    at = h.choice('at', [0, 1, 30, 59])
    p = h.int('head', 0, n + 1)
    text = ''
    for i in range(n):
        text = text + line(id=str(i + 1), form='w', head=str(p) if i == at else str(i)) + '\n'
    r = _decide(h, ev, text + '\n', p == 0 if at == 0 else h.all([p >= 1, p <= at]))
    if r.ok:
        _links(h, r.value, 0, [p if i == at else i for i in range(n)])


def many(h):
    """thirty sentences of two words, one with arbitrary heads"""
    ev = h.mod('evaluation.conll17_ud_eval')
    at = h.choice('at', [0, 20, 29])
    a, b = h.int('a', 0, 3), h.int('b', 0, 3)
    text = ''
    for s in range(30):
        for i in range(2):
            text = text + line(id=str(i + 1), form='w', head=str([a, b][i]) if s == at else str(i)) + '\n'
        text = text + '\n'
    r = _decide(h, ev, text, h.any([h.all([a == 0, b == 1]), h.all([a == 2, b == 0])]))
    if r.ok:
        h.check('many: sentences', h.same([[x.start, x.end] for x in r.value.sentences], [[2 * s, 2 * s + 2] for s in range(30)]))
        _links(h, r.value, 2 * at, [a, b])


def file(h):
    ev = h.mod('evaluation.conll17_ud_eval')
    end = '\r\n' if h.bool('crlf') else '\n'
    text = line(id='1', form=h.str('form', 2, 'aЖ'), head='2') + end + line(id='2', form='b', head='0') + end + end
    ud = ev.load_conllu_file(h.file('t.conllu', text))
    h.check('from a file', len(ud.words) == 2 and ud.words[0].parent is ud.words[1] and
            h.same([[t.start, t.end] for t in ud.tokens], [[0, 2], [2, 3]]))
    h.check('columns from a file', h.same(ud.words[0].columns[2:6] + ud.words[0].columns[7:], ['_'] * 7))
