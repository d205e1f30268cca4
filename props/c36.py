"""C36 the comparison script reports exactly the scores of the two files"""
import argparse
import sys

from props.evalspec import W, Bank, METRICS

BOUNDS = {'files': '1 or 2 sentences of up to 3 words; every head, two relations, tags and lemmas of one character', 'weights': 'up to 3 lines of every kind, names and digits of one character',
          'options': 'none, -v, --verbose, -w, --weights in every place'}
ASSUMPTIONS = ['weights are decimal numbers']
ALL = ['Tokens', 'Sentences', 'Words'] + METRICS


def cases(tier):
    return [('lines1', 'weights', {'n': 1}, ['weights']), ('lines2', 'weights', {'n': 2}, ['weights']), ('lines3', 'weights', {'n': 3}, ['weights']),
            ('names', 'names', {}, ['weights']), ('no_weights', 'no_weights', {}, ['weights']),
            ('plain', 'report', {'what': 'plain'}, ['las']), ('verbose', 'report', {'what': 'verbose'}, ['table']), ('weighted', 'report', {'what': 'weights'}, ['table']),
            ('roles', 'roles', {}, ['table']), ('wrong', 'wrong', {}, ['table']), ('options', 'options', {}, ['table']), ('broken', 'broken', {}, ['refused']), ('wrapper', 'wrapper', {}, ['scores'])]


KINDS = [('# comment 1', None), ('', None), ('  \t ', None), ('nsubj 0.5', ('nsubj', 0.5)), ('obj\t2', ('obj', 2.0)), (' det   0 ', ('det', 0.0)), ('nsubj 3', ('nsubj', 3.0)),
         ('one', 'bad'), ('a b c', 'bad'), ('a x', 'bad'), ('#x 1', None), ('case -1', ('case', -1.0)), ('cop 1000', ('cop', 1000.0)), ('_ 5e-1', ('_', 0.5)), ('a#b 1.25', ('a#b', 1.25))]


def _read(h, text):
    with open(h.file('weights', text), 'r') as f:
        return h.call(h.mod('evaluation.conll17_ud_eval').load_deprel_weights, f)


def weights(h, n):
    """comments and empty lines do not count, every other line is a name and its weight, the last one wins"""
    lines = [h.choice('line%d' % i, KINDS if n < 3 else KINDS[:1] + KINDS[2:4] + KINDS[6:9]) for i in range(n)]
    end = '\n' if h.bool('end') else ''
    r = _read(h, '\n'.join([l[0] for l in lines]) + end)
    ok = all([l[1] != 'bad' for l in lines])
    h.check('weights', r.ok == ok and (ok or r.error == 'ValueError'), [r.error])
    if ok:
        want = {}
        for l in lines:
            if l[1]:
                want[l[1][0]] = l[1][1]
        h.check('weights', r.value == want, [r.value, want])


def names(h):
    a, b = h.str('a', 2, 'nNбЖ:#'), h.str('b', 1, 'nб')
    x, y = h.int('x', 0, 9), h.int('y', 0, 9)
    r = _read(h, a + ' ' + str(x) + '\r\n' + b + '\t' + str(y) + '.5\n')
    h.check('weights', r.ok, [r.error])
    if a[0] == '#':
        h.check('weights', len(r.value) == 1 and r.value[b] == y + 0.5, [r.value])
    else:
        h.check('weights', h.all([len(r.value) == 2, r.value[a] == x, r.value[b] == y + 0.5]), [r.value])


def no_weights(h):
    ev = h.mod('evaluation.conll17_ud_eval')
    h.check('weights', ev.load_deprel_weights(None) is None)
    r = _read(h, '# nothing\n' if h.bool('comment') else '')
    h.check('weights', r.ok and r.value == {}, [r.error])


def _banks(h, plain=False):
    """two treebanks of the same text"""
    g = Bank([[(None, [W('ж', 0, deprel='root', upos='A', lemma='l')]), (None, [W('b', 1, deprel='nsubj', upos='B', xpos='x', lemma='b')]), (None, [W('c', 2, deprel='det', feats='K=v')])],
              [(None, [W('d', 0, deprel='root')])]])
    s = Bank([[(None, [W('ж', 0, deprel='root', upos='A', lemma='l')]),
               (None, [W('b', 1, deprel=h.choice('rel1', ['nsubj', 'obj', 'det']), upos=h.str('upos', 1, 'AB'), xpos='x', lemma=h.str('lemma', 1, 'bl'))]),
               (None, [W('c', h.choice('head2', [1, 2]), deprel=h.choice('rel2', ['det', 'obj']), feats='K=v')])],
              [(None, [W('d', 0, deprel='root')])]])
    return g, s


def _run(h, args):
    """the command; its outcome and what it prints"""
    ev = h.mod('evaluation.conll17_ud_eval')
    out = []
    ev.print = lambda *a, **k: out.extend(' '.join([str(x) for x in a]).split('\n'))
    h.patch(argparse.FileType, '__call__', lambda self, path: open(path, 'r'))
    old = sys.argv
    sys.argv = ['conll17_ud_eval'] + args
    try:
        r = h.call(ev.main)
    finally:
        sys.argv = old
    h.observe('outcome', r.error)
    h.observe('output', out)
    return r, out


def _scores(h, g, s, weights=None):
    ev = h.mod('evaluation.conll17_ud_eval')
    return ev.evaluate(g.load(ev), s.load(ev), weights)


def _is_table(h, out, scores, names):
    rows = [[c.strip() for c in l.split('|')] for l in out]
    rows = [r for r in rows if len(r) == 5 and r[0] != 'Metrics']
    h.check('table', [r[0] for r in rows] == names, [out])
    for r in rows:
        x = scores[r[0]]
        for cell, v in zip(r[1:], [x.precision, x.recall, x.f1, x.aligned_accuracy]):
            h.check('table', (cell == '') == (v is None) and (v is None or abs(float(cell) - 100 * v) <= 0.0051), [r, v])


def report(h, what):
    g, s = _banks(h)
    args = [h.file('gold', g.text()), h.file('system', s.text())]
    if what == 'plain':
        r, out = _run(h, args)
        h.check('runs', r.ok, [r.error])
        las = 100 * _scores(h, g, s)['LAS'].f1
        h.check('las', len(out) == 1 and out[0].startswith('LAS F1 Score: ') and abs(float(out[0][14:]) - las) <= 0.0051, [out, las])
    elif what == 'verbose':
        r, out = _run(h, args + [h.choice('option', ['-v', '--verbose', '-vv', '-vvv'])])
        h.check('runs', r.ok, [r.error])
        _is_table(h, out, _scores(h, g, s), ALL)
    else:
        w = {'nsubj': h.choice('weight', [0, 0.5, 2]), 'det': 3} if h.bool('listed') else {}
        f = h.file('weights', 'nsubj %s\n# comment\ndet 3\n' % w['nsubj'] if w else h.choice('nothing', ['', '# nothing\n\n']))
        r, out = _run(h, args + ['--weights', f] + [[], ['-v'], ['-vv']][h.choice('verbose', [0, 1, 2])])
        h.check('runs', r.ok, [r.error])
        _is_table(h, out, _scores(h, g, s, w), ALL + ['WeightedLAS'])


def roles(h):
    """precision is about the second file, recall about the first"""
    one = Bank([[(None, [W('ab', 0)]), (None, [W('c', 1)])]])
    two = Bank([[(None, [W('a', 0)]), (None, [W('b', 1)]), (None, [W('c', 1)])]])
    a, b = (one, two) if h.bool('order') else (two, one)
    r, out = _run(h, ['-v', h.file('gold', a.text()), h.file('system', b.text())])
    h.check('runs', r.ok, [r.error])
    rows = [[c.strip() for c in l.split('|')] for l in out if l.startswith('Words')]
    p, rec = ('33.33', '50.00') if a is one else ('50.00', '33.33')
    h.check('table', rows == [['Words', p, rec, '40.00', '']], [rows])


def wrong(h):
    """every metric may be zero"""
    k = {n: h.str(n, 1, 'ab') for n in ('upos', 'xpos', 'feats', 'lemma', 'deprel')}
    g = Bank([[(None, [W('w', 0, **{n: 'a' for n in k})]), (None, [W('v', 1, **{n: 'a' for n in k})])]])
    heads = h.choice('heads', [[0, 1], [2, 0]])
    s = Bank([[(None, [W('w', heads[0], **k)]), (None, [W('v', heads[1], **k)])]])
    r, out = _run(h, ['-v', h.file('gold', g.text()), h.file('system', s.text())])
    h.check('runs', r.ok, [r.error])
    _is_table(h, out, _scores(h, g, s), ALL)


def options(h):
    """the options may stand anywhere"""
    g, s = _banks(h)
    parts = [[h.file('gold', g.text()), h.file('system', s.text())], [h.choice('w', ['-w', '--weights']), h.file('weights', 'det 2\n')], ['-v']]
    order = h.choice('order', [[0, 1, 2], [1, 0, 2], [2, 1, 0], [2, 0, 1]])
    r, out = _run(h, [a for k in order for a in parts[k]])
    h.check('runs', r.ok, [r.error])
    _is_table(h, out, _scores(h, g, s, {'det': 2}), ALL + ['WeightedLAS'])


def broken(h):
    """nothing is reported when a file or the weights are not valid"""
    ev = h.mod('evaluation.conll17_ud_eval')
    g, s = _banks(h)
    what = h.choice('what', ['gold', 'system', 'other text', 'weights'])
    text = {'gold': g.text(), 'system': s.text()}
    if what in text:
        text[what] = text[what][:-1]
    elif what == 'other text':
        text['system'] = text['system'].replace('d', 'e')
    args = [h.file('gold', text['gold']), h.file('system', text['system']), '-w', h.file('weights', 'det\n' if what == 'weights' else 'det 1\n')]
    r, out = _run(h, args)
    h.check('refused', not r.ok and out == [] and (r.error == 'ValueError' if what == 'weights' else isinstance(r.exc, ev.UDError)), [r.error, out])


def wrapper(h):
    """the scores of two files are those of their contents"""
    ev = h.mod('evaluation.conll17_ud_eval')
    g, s = _banks(h)

    class Args(object):
        gold_file = h.file('gold', g.text())
        system_file = h.file('system', s.text())
        weights = None
    got, want = ev.evaluate_wrapper(Args()), _scores(h, g, s)
    h.check('scores', sorted(got) == sorted(ALL) and all([got[m].precision == want[m].precision and got[m].recall == want[m].recall and got[m].f1 == want[m].f1 and
                                                          got[m].aligned_accuracy == want[m].aligned_accuracy for m in ALL]), [got])
