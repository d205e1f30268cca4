"""C15 model selection keeps exactly the first best model and disposes of the others"""
from props.evalspec import W, Bank

BOUNDS = {'epochs': '1 to 6 (thorough 9), 25 with two arbitrary scores', 'hyperparameter sets': '1 to 6 (thorough 9), 25 with two arbitrary scores, with 2 epochs each in the combined case',
          'seeds': '1 to 3', 'scores': 'arbitrary integers 0..4 (every order with every tie)'}
ASSUMPTIONS = ['there is at least one epoch and one hyperparameter set', 'the comparison is a strict order on scores']


def cases(tier):
    n = 6 if tier == 'quick' else 9
    out = [('epochs%d' % k, 'epochs', {'n': k}, ['selected', 'disposed']) for k in range(1, n + 1)]
    out += [('sets%d' % k, 'sets', {'n': k}, ['selected', 'disposed']) for k in range(1, (6 if tier == 'quick' else 9) + 1)]
    out += [('epochs_many', 'epochs', {'n': 25}, ['selected', 'disposed']), ('sets_many', 'sets', {'n': 25}, ['selected', 'disposed']), ('seed_places', 'seed_places', {}, ['places'])]
    out += [('seeds%d' % k, 'seeds', {'n': k}, ['averaged']) for k in (1, 2, 3, 12)]
    out += [('arguments', 'arguments', {}, ['trained with']), ('combined', 'combined', {'sets': 2, 'epochs': 2}, ['selected', 'disposed']),
            ('combined3', 'combined', {'sets': 3, 'epochs': 2}, ['selected', 'disposed']),
            ('main_one', 'whole', {'seeds': False}, ['kept files', 'test scores']),
            ('main_seeds', 'whole', {'seeds': True}, ['kept files']), ('main_refuses', 'refuses', {}, ['refused'])]
    return out


class Scores(object):
    def __init__(self, v, tag):
        self.v = v
        self.tag = tag

    def __bool__(self):
        return bool(self.v != 0)


def _better(a, b):
    return a.v > b.v


class Model(object):
    def __init__(self, tag):
        self.tag = tag


class Tester(object):
    def __init__(self):
        self.calls = []

    def test(self, tagger, name):
        self.calls.append((tagger.tag, name))
        return Scores(0, ('tested', tagger.tag, name))


class Trainer(object):
    """yields one model per score; asks for the dev score of every epoch"""

    def __init__(self, values, tag=''):
        self.values = values
        self.calls = []
        self.tag = tag

    def train(self, data, **k):
        self.calls.append((data, k))
        for i, v in enumerate(self.values):
            m = Model((self.tag, i))
            if k.get('dev_tester'):
                k['dev_tester'](m)
            yield Scores(v, (self.tag, i)), m


def _first_best(h, values, i):
    """the i-th value is the first greatest"""
    return h.all([values[j] < values[i] for j in range(i)] + [values[j] <= values[i] for j in range(i + 1, len(values))])


def _selected(h, values, got, disposed, names):
    """got: index chosen; disposed: list of names"""
    h.check('selected', _first_best(h, values, got), [got])
    want = sorted([n for i, n in enumerate(names) if i != got])
    h.check('disposed', sorted(disposed) == want, [disposed, want])


def _values(h, n):
    if n < 10:
        return [h.int('score%d' % i, 0, min(n - 1, 4)) for i in range(n)]
    # rising with two arbitrary scores
    values = [i // 2 for i in range(n)]
    values[h.choice('a', [2, 11, 24])] = h.int('first', 0, n)
    values[h.choice('b', [5, 13, 17])] = h.int('second', 0, n)
    return values


def seed_places(h):
    """models of different seeds have different places"""
    ev = h.mod('evaluation.evaluation')
    seeds = h.choice('seeds', [[1, 11], [0, 10], [7, 1007], [1, -1], [12345, 1012345], [3, 2147483651]])
    places, tests = [], []
    for s in seeds:
        trainer, dev = Trainer([1]), Tester()
        disposed = []
        e = ev.SingleSeedEvaluator('/base', s, _better, [], dev, lambda s: None, lambda p: disposed.append(p))
        test, _ = e.evaluate(trainer, {}, 'p')
        t = Tester()
        test(t, 'x')
        places.append(trainer.calls[0][1]['model_dir'])
        tests.append(t.calls[0][1])
        h.check('places', trainer.calls[0][1]['seed'] == s and places[-1] == '/base/p/%d' % s and tests[-1] == 'p/%d/x' % s and dev.calls[0][1] == 'p/%d/epoch-0-dev.conll' % s, [places, tests])


def epochs(h, n):
    ev = h.mod('evaluation.evaluation')
    values = _values(h, n)
    disposed, printed = [], []
    dev = Tester()
    trainer = Trainer(values)
    path = h.choice('path', ['', 'params-3'])
    e = ev.SingleSeedEvaluator('/base', 11, _better, ['data'], dev, lambda s: printed.append(s.tag), lambda p: disposed.append(p))
    test, scores = e.evaluate(trainer, {}, path) if path else e.evaluate(trainer, {})
    base = path + '/11/' if path else '11/'
    got = scores.tag[1]
    _selected(h, values, got, disposed, [base + 'epoch-%d' % i for i in range(n)])
    h.check('dev tests', dev.calls == [(('', i), base + 'epoch-%d-dev.conll' % i) for i in range(n)], [dev.calls])
    h.check('reported', printed == [('', i) for i in range(n)] + [('', got)])
    final = Tester()
    for name in ('x.conll', 'y'):
        r = test(final, name)
        h.check('tested', final.calls[-1] == (('', got), base + name) and r.tag == ('tested', ('', got), base + name), [final.calls])
    h.check('tested once', len(final.calls) == 2)
    h.observe('best', got)


def arguments(h):
    """the trainer gets the data, the seed, the place of the model and the parameters"""
    ev = h.mod('evaluation.evaluation')
    data = ['data']
    trainer = Trainer([1])
    seed = h.int('seed', 0, 3)
    lr = h.int('lr', 0, 5)
    e = ev.SingleSeedEvaluator('/base', seed, _better, data, Tester(), lambda s: None, lambda p: None)
    e.evaluate(trainer, {'lr': lr, 'other': 'x'}, 'p')
    h.check('trained once', len(trainer.calls) == 1)
    got, k = trainer.calls[0]
    dev = k.pop('dev_tester')
    h.check('trained with', h.all([got is data, sorted(k) == ['lr', 'model_dir', 'model_name_format', 'other', 'seed'], k['lr'] == lr,
                                   k['other'] == 'x', k['seed'] == seed, h.same(k['model_dir'], '/base/p/' + str(seed)),
                                   k['model_name_format'].format(4) == 'epoch-4']))


class Evaluator(object):
    def __init__(self, values, tag=''):
        self.values = values
        self.calls = []
        self.tag = tag

    def evaluate(self, trainer, params, model_path=''):
        i = len(self.calls)
        self.calls.append((trainer, params, model_path))

        def test(tester, name):
            return Scores(0, ('tested', self.tag, i, name))
        return test, Scores(self.values[i], (self.tag, i))


def sets(h, n):
    ev = h.mod('evaluation.evaluation')
    values = _values(h, n)
    disposed = []
    evaluator = Evaluator(values)
    params = [{'i': i} for i in range(n)]
    if h.bool('one without parameters'):
        params[-1] = {}
    trainer = object()
    best = ev.ParametersEstimator(evaluator, _better, lambda p: disposed.append(p)).params_search(trainer, iter(params))
    names = ['params-%d' % i for i in range(n)]
    h.check('every set once', len(evaluator.calls) == n and all([c[0] is trainer and c[1] is params[i] and c[2] == names[i]
                                                                 for i, c in enumerate(evaluator.calls)]))
    got = best.scores.tag[1]
    _selected(h, values, got, disposed, names)
    h.check('all of one set', best.params is params[got] and best.path == names[got] and
            best.model(None, 'q').tag == ('tested', '', got, 'q'))
    p, m, s, path = best
    h.check('as a tuple', p is params[got] and s is best.scores and path == names[got])
    h.observe('best', got)


def seeds(h, n):
    ev = h.mod('evaluation.evaluation')
    values = [h.int('score%d' % i, 0, 3) for i in range(n)]
    evs = [Evaluator([v, v], 's%d' % i) for i, v in enumerate(values)]
    got = []

    def average(scores):
        got.append([s.tag for s in scores])
        return Scores(h.total([s.v for s in scores]), ('average', len(got)))
    printed = []
    e = ev.AverageEvaluator(evs, average, lambda s: printed.append(s.tag))
    trainer = object()
    params = {'a': 1}
    test, scores = e.evaluate(trainer, params, 'p')
    h.check('averaged', got == [[('s%d' % i, 0) for i in range(n)]] and scores.tag == ('average', 1), [got])
    h.check('average of scores', scores.v == h.total(values))
    h.check('every seed once', all([len(x.calls) == 1 and x.calls[0][0] is trainer and x.calls[0][1] is params and x.calls[0][2] == 'p'
                                    for x in evs]))
    h.check('reported', printed == [('average', 1)])
    r = test(None, 'name')
    h.check('all models tested', got[1:] == [[('tested', 's%d' % i, 0, 'name') for i in range(n)]] and r.tag == ('average', 2), [got])


def combined(h, sets, epochs):
    """sets of epochs: the best epoch of the best set survives"""
    ev = h.mod('evaluation.evaluation')
    values = [[h.int('score%d_%d' % (s, i), 0, 2) for i in range(epochs)] for s in range(sets)]
    disposed = []
    models = []

    class T(object):
        def train(self, data, which=None, **k):
            for i, v in enumerate(values[which]):
                yield Scores(v, (which, i)), Model((which, i))
    e = ev.SingleSeedEvaluator('/base', 1, _better, [], Tester(), lambda s: None, lambda p: disposed.append(p))
    best = ev.ParametersEstimator(e, _better, lambda p: disposed.append(p)).params_search(
        T(), iter([{'which': s} for s in range(sets)]))
    s, i = best.scores.tag
    h.check('selected', h.all([_first_best(h, values[s], i)] + [values[a][b] < values[s][i] for a in range(s) for b in range(epochs)] +
                              [values[a][b] <= values[s][i] for a in range(s + 1, sets) for b in range(epochs)]))
    h.check('its own set', best.params == {'which': s} and best.path == 'params-%d' % s)
    # what is left: the directories that were never disposed of, nor a parent of them
    left = [(a, b) for a in range(sets) for b in range(epochs)
            if 'params-%d' % a not in disposed and 'params-%d/1/epoch-%d' % (a, b) not in disposed]
    h.check('disposed', left == [(s, i)] and len(set(disposed)) == len(disposed), [disposed])
    t = Tester()
    best.model(t, 'n')
    h.check('tested', t.calls == [((s, i), 'params-%d/1/n' % s)])


GOLD = [[(None, [W('a', 0, upos='N')]), (None, [W('b', 1, upos='V')])]]


def whole(h, seeds):
    """the command itself: files on disk and the final test"""
    dm = h.mod('datamodel')
    ev = h.mod('evaluation.evaluation')
    train = h.file('train.conllu', Bank(GOLD).text())
    test = h.file('test.conllu', Bank(GOLD).text())
    quality = [[h.choice('q%d_%d' % (r, i), [0, 1, 2] if not seeds else [0, 2]) for i in range(2)] for r in range(2)]
    log = []

    class Tagger(object):
        def __init__(self, q, name):
            self.q = q
            self.name = name

        def _one(self, d):
            gold = ['N', 'V']
            toks = [dm.Token.with_morphology(t, dm.Pos(gold[i] if i < self.q else 'X'), None) for i, t in enumerate(d.tokens)]
            return dm.Document.from_document(d, toks)

        def tag(self, documents):
            log.append((self.name, [f for f in h.listing() if f.startswith('models')]))
            return map(self._one, documents)

    class T(object):
        def train(self, data, dev_tester=None, seed=None, model_dir=None, model_name_format=None, run=0):
            h.check('training data', len(list(data)) == 1)
            for i, q in enumerate(quality[run]):
                rel = model_dir[len(h.path('models')) + 1:]
                h.file('models/' + rel + '/' + model_name_format.format(i) + '/weights', 'x')
                t = Tagger(q, (run, seed, i))
                yield dev_tester(t), t

    ev.get_trainer = h.mod('evaluation.trainers').get_trainer = lambda name: T()
    settings = {'model_dir': h.path('models'), 'metric_printer': {'fields': ['UPOS', 'Words']},
                'cmp_metric': {'fields': ['UPOS'], 'metric': 'f1'}, 'train_set': {'path': train},
                'dev_set': {'path': test}, 'test_set': {'path': test, 'results_path': h.path('results')},
                'random_seed': [5, 6] if seeds else 5}
    delete = h.bool('delete') if not seeds else True
    ev.main(ev._Arguments(settings, 'any', [{'run': 0}, {'run': 1}], bool(delete)))
    ss = [5, 6] if seeds else [5]
    best = []
    for r in range(2):
        best.append(quality[r].index(max(quality[r])))
    win = 0 if quality[0][best[0]] >= quality[1][best[1]] else 1
    dev, final = log[:4 * len(ss)], log[4 * len(ss):]
    h.check('dev tests', [x[0] for x in dev] == [(r, s, i) for r in range(2) for s in ss for i in range(2)], [[x[0] for x in log]])
    h.check('selected', [x[0] for x in final] == [(win, s, best[win]) for s in ss], [[x[0] for x in final]])
    if delete:
        want = sorted('models/params-%d/%d/epoch-%d/weights' % (win, s, best[win]) for s in ss)
    else:
        want = sorted('models/params-%d/%d/epoch-%d/weights' % (r, s, i) for r in range(2) for s in ss for i in range(2))
    h.check('kept files', all([x[1] == want for x in final]), [final, want])
    h.check('removed at the end', h.exists(h.path('models')) == (not delete))
    out = [f for f in h.listing() if f.startswith('results')]
    h.check('test scores', out == ['results/params-%d/%d/best-test.conll' % (win, s) for s in ss], [out])


def refuses(h):
    """with removal requested, a directory that holds something is refused and left alone"""
    ev = h.mod('evaluation.evaluation')
    kind = h.choice('kind', ['absent', 'empty', 'used', 'hidden'])
    if kind == 'empty':
        h.dir('models')
    precious = {'used': 'models/precious', 'hidden': 'models/.precious'}.get(kind)
    if precious:
        h.file(precious, 'x')
    test = h.file('test.conllu', Bank(GOLD).text())

    class T(object):
        def train(self, data, dev_tester=None, **k):
            raise KeyError('trained')
    ev.get_trainer = h.mod('evaluation.trainers').get_trainer = lambda name: T()
    settings = {'model_dir': h.path('models'), 'metric_printer': {'fields': ['UPOS']}, 'cmp_metric': {'fields': ['UPOS'], 'metric': 'f1'},
                'train_set': {'path': test}, 'dev_set': {'path': test}, 'random_seed': 5}
    delete = h.bool('delete')
    r = h.call(ev.main, ev._Arguments(settings, 'any', {}, bool(delete)))
    h.check('refused', h.iff(r.error == 'ValueError', h.all([delete, precious is not None])), [r.error])
    if precious:
        h.check('left alone', h.exists(h.path(precious)))
