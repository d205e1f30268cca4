"""C16 scores are compared by the sum of the chosen metrics and averaged per metric"""
BOUNDS = {'metrics': '1 to 3 chosen of 4, 6 chosen of 8', 'results averaged': '1 to 4 (thorough 6), 16', 'values': 'arbitrary multiples of 1/16384 where results are compared (and selected values which differ by 2**-20 to 2**-40), of 1/8 where they are averaged (1/4 where three, five or six results are averaged, one value at a time) between 0 and 1'}
ASSUMPTIONS = ['a metric either has an aligned accuracy in all averaged results or in none, as the evaluation delivers it',
               'values are exact binary fractions, so sums are exact']

from props.evalspec import W, Bank

FINE = 2 ** 14
NAMES = ['UPOS', 'Lemmas', 'Words', 'LAS']
VALUES = ['precision', 'recall', 'f1', 'aligned_accuracy']


def cases(tier):
    out = [('compare%d' % n, 'compare', {'n': n}, ['better iff the sum is greater']) for n in (1, 2, 3)]
    out += [('compare_many', 'compare_many', {}, ['better iff the sum is greater']), ('average_many', 'average_many', {}, ['mean'])]
    out.append(('compare_close', 'compare_close', {}, ['better iff the sum is greater']))
    out.append(('compare_score', 'compare_score', {}, ['better iff the sum is greater']))
    for k in range(1, 5 if tier == 'quick' else 7):
        out.append(('average%d' % k, 'average', {'k': k, 'n': 2}, ['mean', 'absent stays absent']))
    out += [('average_one', 'average', {'k': 3, 'n': 1}, ['mean']), ('average_again', 'average_again', {}, ['mean']),
            ('average_evaluated', 'average_evaluated', {}, ['mean']), ('average_three', 'average', {'k': 2, 'n': 3}, ['mean'])]
    return out


class S(object):
    def __init__(self, precision, recall, f1, aligned_accuracy):
        self.precision = precision
        self.recall = recall
        self.f1 = f1
        self.aligned_accuracy = aligned_accuracy


def compare(h, n):
    ev = h.mod('evaluation.evaluation')
    fields = [NAMES[i] for i in h.perm('fields', 4)[:n]]
    value = h.choice('value', VALUES)
    new = {m: S(*[h.real('new.%s.%s' % (m, v), 0, FINE, FINE) if v == value else h.choice('other', [0.0, 1.0]) if m == 'UPOS' and
                  v == VALUES[(VALUES.index(value) + 1) % 4] else 0.5 for v in VALUES]) for m in NAMES}
    old = {m: S(*[h.real('old.%s.%s' % (m, v), 0, FINE, FINE) if v == value else 0.5 for v in VALUES]) for m in NAMES}
    f = ev.score_comparator(fields, lambda s: getattr(s, value))
    a = sum([getattr(new[m], value) for m in fields])
    b = sum([getattr(old[m], value) for m in fields])
    r = f(new, old)
    h.check('better iff the sum is greater', h.iff(r, a > b), [r])
    h.check('strict', h.not_(h.all([r, f(old, new)])))


def _evaluated(h, name, n=2, lemmas=1):
    """scores of an evaluation, with the numbers of correct tags and lemmas"""
    co = h.mod('evaluation.conll17_ud_eval')
    g = Bank([[(None, [W('w%d' % i, upos='a', lemma='a')]) for i in range(n)]])
    ws = [W('w%d' % i, upos=h.str('%s.upos%d' % (name, i), 1, 'ab'), lemma=h.str('%s.lemma%d' % (name, i), 1, 'ab') if i < lemmas else 'a')
          for i in range(n)]
    s = Bank([[(None, [w]) for w in ws]])
    r = co.evaluate(g.load(co), s.load(co))
    return r, h.total([w['upos'] == 'a' for w in ws]), h.total([w['lemma'] == 'a' for w in ws])


def compare_score(h):
    """with scores of the evaluation"""
    ev = h.mod('evaluation.evaluation')
    new, u, l = _evaluated(h, 'new')
    old, v, m = _evaluated(h, 'old')
    value = h.choice('value', VALUES)
    fields = h.choice('fields', [['UPOS'], ['Lemmas', 'UPOS']])
    f = ev.score_comparator(fields, lambda s: getattr(s, value))
    r = f(new, old)
    h.check('better iff the sum is greater', h.iff(r, u + l > v + m if len(fields) == 2 else u > v), [r])


def compare_many(h):
    """six of eight metrics, the last ones differ"""
    ev = h.mod('evaluation.evaluation')
    names = ['m%d' % i for i in range(8)]
    new, old = [{m: S(0.5, 0.5, 0.25 * (i % 3), 0.5) for i, m in enumerate(names)} for _ in range(2)]
    at = h.choice('at', [0, 3, 4, 5, 7])
    new[names[at]].f1 = h.real('new', 0, FINE, FINE)
    old[names[at]].f1 = h.real('old', 0, FINE, FINE)
    f = ev.score_comparator(names[:6], lambda s: s.f1)
    h.check('better iff the sum is greater', h.iff(f(new, old), new[names[at]].f1 > old[names[at]].f1 if at < 6 else False))


def compare_close(h):
    """sums which differ by very little"""
    ev = h.mod('evaluation.evaluation')
    base = h.choice('base', [0.0, 0.25, 0.9375])
    d, e = [h.choice(n, [0.0, 2.0 ** -20, 2.0 ** -30, 2.0 ** -40]) for n in ('new', 'old')]
    k = h.choice('metrics', [1, 2])
    new = {'UPOS': S(0.5, 0.5, base + d, 0.5), 'LAS': S(0.5, 0.5, 0.5, 0.5)}
    old = {'UPOS': S(0.5, 0.5, base + e, 0.5), 'LAS': S(0.5, 0.5, 0.5, 0.5)}
    f = ev.score_comparator(['UPOS', 'LAS'][:k], lambda s: s.f1)
    h.check('better iff the sum is greater', h.iff(f(new, old), d > e))


def _near(h, x, y):
    d = x - y
    return h.all([d < 1e-9, d > -1e-9])


def average(h, k, n):
    ev = h.mod('evaluation.evaluation')
    fields = NAMES[:n] if h.bool('order') else NAMES[n - 1::-1]
    # thirds are not exact: there only one value of one metric is arbitrary at a time
    thin = k not in (1, 2, 4)
    only = (h.choice('metric', fields), h.choice('value', VALUES)) if thin else None
    results = []
    for i in range(k):
        results.append({m: S(*[None if v == 'aligned_accuracy' and m == 'Lemmas' else
                               0.25 * i if thin and only != (m, v) else h.real('%d.%s.%s' % (i, m, v), 0, 4 if thin else 8, 4 if thin else 8)
                               for v in VALUES]) for m in NAMES[:3]})
    avg = ev.get_metrics_averager(fields)
    got = avg(results)
    h.check('chosen metrics', sorted(got.keys()) == sorted(fields))
    for m in fields:
        for v in VALUES:
            x = getattr(got[m], v)
            if v == 'aligned_accuracy' and m == 'Lemmas':
                h.check('absent stays absent', x is None)
            else:
                h.check('mean', x is not None and _near(h, x * k, sum([getattr(r[m], v) for r in results])), [m, v, x])


def average_many(h):
    """sixteen results, one value is arbitrary"""
    ev = h.mod('evaluation.evaluation')
    at = h.choice('at', [0, 9, 15])
    value = h.choice('value', VALUES)
    rs = [{m: S(*[h.real(m, 0, 8, 8) if i == at and v == value else 0.125 * (i % 4) for v in VALUES]) for m in NAMES} for i in range(16)]
    got = ev.get_metrics_averager(NAMES)(rs)
    for m in NAMES:
        for v in VALUES:
            h.check('mean', _near(h, getattr(got[m], v) * 16, sum([getattr(r[m], v) for r in rs])), [m, v])


def average_again(h):
    """one averager for several groups of results"""
    ev = h.mod('evaluation.evaluation')
    avg = ev.get_metrics_averager(['UPOS'])
    for g, k in enumerate([2, h.choice('second', [1, 2, 4])]):
        rs = [{'UPOS': S(*[h.real('%d.%d.%s' % (g, i, v), 0, 8, 8) for v in VALUES])} for i in range(k)]
        got = avg(rs)
        for v in VALUES:
            h.check('mean', _near(h, getattr(got['UPOS'], v) * k, sum([getattr(r['UPOS'], v) for r in rs])))


def average_evaluated(h):
    """of scores the evaluation delivers, as used for several seeds; the result can be averaged and compared again"""
    ev = h.mod('evaluation.evaluation')
    got = [_evaluated(h, 'r%d' % i, 2, 0) for i in range(3)]
    rs, t = [x[0] for x in got], h.total([x[1] for x in got])
    avg = ev.get_metrics_averager(['UPOS', 'Words'])
    got = avg(rs)
    for v in VALUES:
        h.check('mean', _near(h, getattr(got['UPOS'], v) * 6, t * 1.0))
    h.check('mean', h.all([_near(h, getattr(got['Words'], v), 1.0) for v in VALUES[:3]]))
    h.check('absent stays absent', got['Words'].aligned_accuracy is None)
    again = avg([got])
    h.check('mean of one', h.all([_near(h, again['UPOS'].f1, got['UPOS'].f1), again['Words'].aligned_accuracy is None]))
    f = ev.score_comparator(['UPOS', 'Words'], lambda s: s.f1)
    h.check('not better than itself', h.not_(f(got, got)))
