"""C35 an experiment follows its settings, method and hyperparameters"""
import sys

from props.evalspec import W, Bank

BOUNDS = {'experiments': '1 or 2 hyperparameter sets (25 with one arbitrary quality), 1 to 3 seeds, 1 or 2 epochs (15 with one arbitrary quality)', 'data': '1 to 5 sentences per file; every quality of the tags and lemmas of two words',
          'fields': 'every choice of compared and printed fields among two, each of the four values, also for models that split words', 'method names': 'the three methods and arbitrary strings of up to 4 characters'}
ASSUMPTIONS = ['the training itself is arbitrary (C29, C33, C34 are about it)']


def cases(tier):
    return [('selection_sets', 'selection', {'sets': 2, 'seeds': 1, 'epochs': 1}, ['selected']), ('selection_epochs', 'selection', {'sets': 1, 'seeds': 1, 'epochs': 2}, ['selected']),
            ('selection_seeds', 'selection', {'sets': 2, 'seeds': 2, 'epochs': 1}, ['selected']),
            ('selection_many', 'selection_many', {}, ['selected']), ('fields', 'fields', {'several': False}, ['selected', 'printed']), ('fields_seeds', 'fields', {'several': True}, ['selected', 'printed']),
            ('value', 'value', {}, ['selected', 'printed']), ('train_set', 'train_set', {}, ['training data']), ('test_set', 'test_set', {}, ['tested', 'printed']), ('results', 'results', {}, ['saved results']),
            ('models', 'models', {}, ['models']), ('methods', 'methods', {}, ['method']), ('unknown', 'unknown', {}, ['method']),
            ('stub', 'stub', {}, ['printed']), ('pretrained', 'pretrained', {}, ['tested'])]


FORMS = 'abcde'


def _bank(n, upos=None, lemmas=None):
    """n sentences of one word"""
    return Bank([[(None, [W(FORMS[i], 0, upos=upos[i] if upos else 'N', lemma=lemmas[i] if lemmas else 'l')])] for i in range(n)])


def _text(v):
    if v is None:
        return 'null'
    if v is True or v is False:
        return 'true' if v else 'false'
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, dict):
        return '{' + ', '.join(['"' + k + '": ' + _text(x) for k, x in v.items()]) + '}'
    if isinstance(v, list):
        return '[' + ', '.join([_text(x) for x in v]) + ']'
    return str(v)


class Tables(object):
    """what is printed: tables of scores and everything else"""

    def __init__(self, h):
        self.lines = []
        for name in ('evaluation.evaluation',):
            h.mod(name).print = self.add

    def add(self, *args, **k):
        self.lines += ' '.join([str(a) for a in args]).split('\n')

    def last(self, n):
        """rows [field, numbers...] of the last n tables"""
        tables = []
        for l in self.lines:
            cells = [c.strip() for c in l.split('|')]
            if len(cells) == 5 and cells[0] == 'Metrics':
                tables.append([])
            elif len(cells) == 5 and tables:
                tables[-1].append([cells[0]] + [float(c) if c else None for c in cells[1:]])
        return tables[-n:]


def _close(h, row, field, values):
    """the row shows these values in percent"""
    return row[0] == field and len(row) == 5 and all([(v is None) == (x is None) and (v is None or abs(100 * v - x) <= 0.0051) for v, x in zip(values, row[1:])])


def _command(h, settings, method, hyper, delete=False, order=0):
    """the command line; the outcome and what was printed"""
    ev = h.mod('evaluation.evaluation')
    out = Tables(h)
    args = [['--settings', h.file('settings.json', _text(settings))], ['--method', method], ['--hyperparams', h.file('hyper.json', _text(hyper))]]
    if delete:
        args.append(['--delete_after'])
    args = args[order:] + args[:order]
    old = sys.argv
    sys.argv = ['evaluation'] + [a for x in args for a in x]
    try:
        def go():
            return ev.main(ev._parse_arguments(ev._build_parser()))
        r = h.call(go)
    finally:
        sys.argv = old
    h.observe('outcome', r.error)
    h.observe('tables', [[row[:1] + [None if x is None else int(x) for x in row[1:]] for row in t] for t in out.last(2)])
    return r, out


class Log(object):
    """stands for the training of networks: models of given quality; remembers everything"""

    def __init__(self, h, quality, epochs=1):
        self.h = h
        self.quality = quality      # (parameters, seed, epoch) -> (right tags, right lemmas)
        self.epochs = epochs
        self.trained = []
        self.tagged = []
        nt = h.mod('neural.tagger.neural_tagger')
        dm = h.mod('datamodel')
        log = self

        class Tagger(object):
            def __init__(self, key):
                self.key = key

            def tag(self, documents):
                tags, lemmas = log.quality(*self.key)
                place = 0
                texts = []
                log.tagged.append((self.key, texts))
                for d in documents:
                    texts.append(d.text.strip())
                    toks = []
                    for t in d.tokens:
                        toks.append(dm.Token.with_morphology(t, dm.Pos('N' if place < tags else 'X'), 'l' if place < lemmas else 'x'))
                        place += 1
                    yield dm.Document.from_document(d, toks)

        def train(trainer, documents, dev_tester=None, seed=None, model_dir=None, model_name_format='epoch-{}', **params):
            log.trained.append((params, seed, [[d.text.strip() for d in documents] for _ in range(2)], model_dir))
            for e in range(log.epochs):
                h.file(model_dir[len(h.path('')):].lstrip('/') + '/' + model_name_format.format(e) + '/weights', 'x')
                t = Tagger((params.get('run', 0), seed, e))
                yield dev_tester(t), t
        h.patch(nt.NeuralTaggerTrainer, 'train', train)


def _settings(h, train, dev, test=None, **k):
    s = {'random_seed': 5, 'model_dir': h.path('models'), 'train_set': {'path': train}, 'dev_set': {'path': dev},
         'cmp_metric': {'fields': ['UPOS'], 'metric': 'f1'}, 'metric_printer': {'fields': ['UPOS', 'Lemmas']}}
    if test is not None:
        s['test_set'] = {'path': test}
    s.update(k)
    return s


def _files(h, train=1, dev=2, test=2):
    return [h.file(n + '.conllu', _bank(k).text()) for n, k in (('train', train), ('dev', dev), ('test', test))]


def selection(h, sets, seeds, epochs):
    """the tested models are those of the best set and their best epochs by the sum of the compared values, averaged over the seeds"""
    train, dev, test = _files(h)
    q = {(r, s, e): (h.choice('tags%d%d%d' % (r, s, e), [0, 1, 2]), h.choice('lemmas%d%d%d' % (r, s, e), [0, 2]))
         for r in range(sets) for s in range(seeds) for e in range(epochs)}
    log = Log(h, lambda r, s, e: q[r, s - 5, e], epochs)
    st = _settings(h, train, dev, test, cmp_metric={'fields': ['UPOS', 'Lemmas'], 'metric': 'f1'}, random_seed=list(range(5, 5 + seeds)) if seeds > 1 else [[5], 5][h.choice('one', [0, 1])])
    r, out = _command(h, st, 'neural', [{'run': i} for i in range(sets)])
    h.check('runs', r.ok, [r.error])
    best = {}
    for i in range(sets):
        total = 0
        for s in range(seeds):
            e = max(range(epochs), key=lambda e: (sum(q[i, s, e]), -e))
            best[i, s] = e
            total += sum(q[i, s, e])
        best[i] = total
    win = max(range(sets), key=lambda i: (best[i], -i))
    h.check('trained', [(t[0], t[1]) for t in log.trained] == [({'run': i}, 5 + s) for i in range(sets) for s in range(seeds)], [log.trained])
    keys = [t[0] for t in log.tagged]
    h.check('selected', keys == [(i, 5 + s, e) for i in range(sets) for s in range(seeds) for e in range(epochs)] + [(win, 5 + s, best[win, s]) for s in range(seeds)], [keys, win])


def selection_many(h):
    """25 hyperparameter sets, two of them alike, or fifteen epochs"""
    train, dev, test = _files(h)
    sets, epochs = h.choice('size', [(25, 1), (1, 15)])
    seeds = h.choice('seeds', [5, [1, 1001], [1, -1]])
    at = h.choice('at', [0, 12, 14, 24])
    q = h.choice('tags', [0, 1, 2])
    log = Log(h, lambda r, s, e: (q if max(r, e) == at else 1, 0), epochs)
    hyper = [{'run': i} for i in range(sets)]
    if sets > 1:
        hyper[3] = {'run': 2}
    r, out = _command(h, _settings(h, train, dev, test, random_seed=seeds), 'neural', hyper)
    h.check('runs', r.ok, [r.error])
    ss = seeds if isinstance(seeds, list) else [seeds]
    places = ['params-%d/%d' % (i, s) for i in range(sets) for s in ss]
    h.check('trained', [(t[0], t[1]) for t in log.trained] == [(p, s) for p in hyper for s in ss] and [t[3] for t in log.trained] == [h.path('models/' + p) for p in places], [log.trained])
    h.check('models', sorted([f for f in h.listing() if f.startswith('models/')]) == sorted(['models/%s/epoch-%d/weights' % (p, e) for p in places for e in range(epochs)]))
    right = [[q if max(p['run'], e) == at else 1 for e in range(epochs)] for p in hyper]
    best = [max(range(epochs), key=lambda e: (x[e], -e)) for x in right]
    win = max(range(sets), key=lambda i: (right[i][best[i]], -i))
    h.check('selected', [t[0] for t in log.tagged[-len(ss):]] == [(hyper[win]['run'], s, best[win]) for s in ss], [log.tagged[-2:], win])


NAMES = ['UPOS', 'Lemmas']


def fields(h, several):
    """the compared and the printed fields are independent of each other"""
    train, dev, test = _files(h)
    compared = h.choice('compared', [['UPOS'], ['Lemmas'], ['UPOS', 'Lemmas']])
    printed = h.choice('printed', [['UPOS'], ['Lemmas'], ['Lemmas', 'UPOS'], ['Words', 'Tokens'], []])
    metric = h.choice('metric', ['precision', 'recall', 'f1', 'aligned_accuracy'])
    q = [(h.choice('tags%d' % r, [0, 1, 2]), h.choice('lemmas%d' % r, [0, 2])) for r in range(2)]
    log = Log(h, lambda r, s, e: q[r])
    st = _settings(h, train, dev, test, cmp_metric={'fields': compared, 'metric': metric}, metric_printer={'fields': printed}, random_seed=[1, 2] if several else 1)
    r, out = _command(h, st, 'neural', [{'run': 0}, {'run': 1}])
    h.check('runs', r.ok, [r.error])
    sums = [sum([x[NAMES.index(f)] for f in compared]) for x in q]
    win = 1 if sums[1] > sums[0] else 0
    n = 2 if several else 1
    h.check('selected', [t[0][0] for t in log.tagged[2 * n:]] == [win] * n, [log.tagged])
    want = {'UPOS': [q[win][0] / 2] * 4, 'Lemmas': [q[win][1] / 2] * 4, 'Words': [1.0, 1.0, 1.0, None], 'Tokens': [1.0, 1.0, 1.0, None]}
    for t in out.last(2):
        h.check('printed', [x[0] for x in t] == printed and all([_close(h, row, f, want[f]) for f, row in zip(printed, t)]), [t, want])


def value(h):
    """the compared value is the configured one: models whose words differ from those of the gold data"""
    dm = h.mod('datamodel')
    nt = h.mod('neural.tagger.neural_tagger')
    gold = Bank([[(None, [W('ab', 0, upos='N')])], [(None, [W('c', 0, upos='N')])], [(None, [W('d', 0, upos='N')])]])
    train, dev = h.file('train.conllu', gold.text()), h.file('dev.conllu', gold.text())
    metric = h.choice('metric', ['precision', 'recall', 'f1', 'aligned_accuracy'])
    q = [(h.choice('right%d' % e, [0, 1, 2]), h.bool('split%d' % e)) for e in range(2)]
    used = []

    class Tagger(object):
        def __init__(self, e):
            self.e = e

        def tag(self, documents):
            used.append(self.e)
            right, split = q[self.e]
            for i, d in enumerate(documents):
                pos = dm.Pos('N' if i > 2 - right else 'X')
                if i == 0 and split:
                    toks = [dm.Token(0, 1, pos), dm.Token(1, 2, pos)]
                    yield dm.Document(d.text, toks)
                else:
                    yield dm.Document.from_document(d, [dm.Token.with_morphology(t, pos, None) for t in d.tokens])

    def trained(trainer, documents, dev_tester=None, **k):
        for e in range(2):
            yield dev_tester(Tagger(e)), Tagger(e)
    h.patch(nt.NeuralTaggerTrainer, 'train', trained)
    r, out = _command(h, _settings(h, train, dev, dev, cmp_metric={'fields': ['UPOS'], 'metric': metric}, metric_printer={'fields': ['UPOS']}), 'neural', {})
    h.check('runs', r.ok, [r.error])
    values = [{'precision': right / (4 if split else 3), 'recall': right / 3, 'f1': 2 * right / (7 if split else 6), 'aligned_accuracy': right / (2 if split else 3)} for right, split in q]
    best = 1 if values[1][metric] > values[0][metric] else 0
    h.check('selected', used == [0, 1, best], [used, values])
    for t in out.last(2):
        h.check('printed', _close(h, t[0], 'UPOS', [values[best][m] for m in ('precision', 'recall', 'f1', 'aligned_accuracy')]), [t, values])


def train_set(h):
    """every document of the training file in each pass, in order or shuffled as the settings say"""
    ds = h.mod('evaluation.dataset')
    h.use_random()
    kind = h.choice('shuffler', ['none', 'seed', 'size'])
    n = h.choice('n', {'none': [1, 5], 'seed': [2], 'size': [1, 3]}[kind])
    train, dev, test = _files(h, n)
    log = Log(h, lambda *a: (0, 0))
    st = _settings(h, train, dev)
    if kind != 'none':
        st['train_set']['shuffler'] = {'seed': 7, 'max_batch_size': 3} if kind == 'seed' else {'seed': 3, 'max_batch_size': 2}
    r, out = _command(h, st, 'neural', {'run': 0, 'other': 'x'})
    h.check('runs', r.ok, [r.error])
    params, seed, passes, _ = log.trained[0]
    h.check('parameters', params == {'run': 0, 'other': 'x'} and seed == 5, [params])
    h.check('training data', all([sorted(p) == list(FORMS[:n]) for p in passes]), [passes])
    if kind == 'none':
        want = [list(FORMS[:n])] * 2
    else:
        d = ds.ShuffledDataset(ds.CoNLLUDataSet(train), **st['train_set']['shuffler'])
        want = [[x.text.strip() for x in d] for _ in range(2)]
    h.check('training data', passes == want, [passes, want])
    h.check('dev data', [t[1] for t in log.tagged] == [['a', 'b']], [log.tagged])


def test_set(h):
    """the final test takes the documents of the test file, once, if there is one"""
    present = h.bool('present')
    n = h.choice('n', [1, 3])
    train, dev, test = _files(h, 1, 2, n)
    q = h.choice('tags', [0, 1, 2, 3])
    log = Log(h, lambda *a: (q, 0))
    r, out = _command(h, _settings(h, train, dev, test if present else None), 'neural', [{}], h.bool('delete'), h.choice('order', [0, 1, 2]))
    h.check('runs', r.ok, [r.error])
    h.check('tested', [t[1] for t in log.tagged] == [['a', 'b']] + ([list(FORMS[:n])] if present else []), [log.tagged])
    tables = out.last(2 if present else 1)
    dev_row = tables[0][0]
    h.check('printed', _close(h, dev_row, 'UPOS', [min(q, 2) / 2] * 4), [tables])
    if present:
        h.check('printed', _close(h, tables[1][0], 'UPOS', [min(q, n) / n] * 4), [tables])


def results(h):
    """results are saved where the settings say and show what was predicted"""
    ev = h.mod('evaluation.evaluation')
    train, dev, test = _files(h)
    to_dev, to_test = h.bool('dev'), h.bool('test')
    several = h.bool('several')
    q = h.choice('tags', [0, 1, 2])
    log = Log(h, lambda *a: (q, 0), 2)
    st = _settings(h, train, dev, test, random_seed=[5, 6] if several else 5)
    if to_dev:
        st['dev_set']['results_path'] = h.path('out/dev')
    if to_test:
        st['test_set']['results_path'] = h.path('out/test')
    r, out = _command(h, st, 'neural', {})
    h.check('runs', r.ok, [r.error])
    seeds = [5, 6] if several else [5]
    want = []
    for s in seeds:
        if to_dev:
            want += ['out/dev/params-0/%d/epoch-%d-dev.conll' % (s, e) for e in range(2)]
        if to_test:
            want.append('out/test/params-0/%d/best-test.conll' % s)
    got = [f for f in h.listing() if f.startswith('out/')]
    h.check('saved results', sorted(got) == sorted(want), [got, want])
    h.check('saved results', sorted([f for f in h.listing() if not f.startswith('out/') and not f.startswith('models/')]) ==
            ['dev.conllu', 'hyper.json', 'settings.json', 'test.conllu', 'train.conllu'], [h.listing()])
    for f in got:
        docs = list(h.mod('evaluation.dataset').CoNLLUDataSet(h.path(f)))
        h.check('saved results', [t.pos.upos for d in docs for t in d.tokens] == ['N'] * q + ['X'] * (2 - q), [docs])


def models(h):
    """models stay unless their removal is asked for; nothing else is ever removed"""
    train, dev, test = _files(h)
    q = [(h.choice('tags%d' % r, [0, 1, 2]), 0) for r in range(2)]
    log = Log(h, lambda r, s, e: q[r], 2)
    h.file('modelsx/keep', 'x')
    delete = h.bool('delete')
    earlier = h.choice('earlier', [None, 'models/notes.txt', 'models/.hidden', 'models/params-7/5/epoch-0/weights'])
    if earlier is not None:
        h.file(earlier, 'x')
    r, out = _command(h, _settings(h, train, dev, test), 'neural', [{'run': 0}, {'run': 1}], delete)
    if delete and earlier is not None:   # what an earlier experiment left is not put at risk
        h.check('models', r.error == 'ValueError' and not log.trained and h.exists(h.path(earlier)), [r.error])
        h.check('data stay', all([h.exists(p) for p in (train, dev, test)]))
        return
    h.check('runs', r.ok, [r.error])
    if earlier is not None:
        h.check('models', h.exists(h.path(earlier)))
    got = [f for f in h.listing() if f.startswith('models') and f != earlier]
    want = [] if delete else ['models/params-%d/5/epoch-%d/weights' % (i, e) for i in range(2) for e in range(2)]
    h.check('models', sorted(got) == want + ['modelsx/keep'] and h.exists(h.path('models')) == (not delete), [got])
    h.check('data stay', all([h.exists(p) for p in (train, dev, test)]))


def methods(h):
    tr = h.mod('evaluation.trainers')
    nt = h.mod('neural.tagger.neural_tagger')
    tg = h.mod('tagger')
    name = h.choice('method', ['stub', 'neural', 'neural_pretrained'])
    want = {'stub': tg.StubTaggerTrainer, 'neural': nt.NeuralTaggerTrainer, 'neural_pretrained': nt.PretrainedTaggerTrainer}[name]
    a, b = tr.get_trainer(name), tr.get_trainer(name)
    h.check('method', type(a) is want and type(b) is want)
    h.check('all methods are named', sorted(tr.trainer_names()) == ['neural', 'neural_pretrained', 'stub'])


def unknown(h):
    """any other method is refused before anything is trained"""
    if h.bool('by name'):
        name = h.str('method', h.choice('n', [0, 1, 4, 6]), 'sntubealr')
        known = ['stub', 'neural', 'neural_pretrained']
        r = h.call(h.mod('evaluation.trainers').get_trainer, name)
        h.check('method', h.all([h.iff(r.ok, h.any([h.same(name, k) for k in known])), r.ok or r.error == 'NotImplementedError']), [r.error])
        return
    train, dev, test = _files(h)
    log = Log(h, lambda *a: (0, 0))
    r, out = _command(h, _settings(h, train, dev, test), h.choice('other', ['Neural', 'neural ', '', 'tagger', 'None']), {}, h.bool('delete'))
    h.check('method', r.error == 'NotImplementedError' and not log.trained and not log.tagged, [r.error])


def stub(h):
    """the baseline: the most frequent tag and the word as its lemma"""
    tags = [h.choice('tag%d' % i, ['N', 'V']) for i in range(3)]
    train = h.file('train.conllu', _bank(3, tags).text())
    gold = [h.choice('gold%d' % i, ['N', 'V']) for i in range(2)]
    lemma = h.choice('lemma', ['a', 'x'])
    dev = h.file('dev.conllu', _bank(2, gold, [lemma, 'b']).text())
    r, out = _command(h, _settings(h, train, dev, dev, random_seed=[1, 2] if h.bool('several') else 1), 'stub', [{}, {}] if h.bool('sets') else {},
                      h.bool('delete'))
    most = 'N' if tags.count('N') > 1 else 'V'
    h.check('runs', r.ok, [r.error])
    for t in out.last(2):
        h.check('printed', len(t) == 2 and _close(h, t[0], 'UPOS', [gold.count(most) / 2] * 4) and _close(h, t[1], 'Lemmas', [(1 + (lemma == 'a')) / 2] * 4), [t])


def pretrained(h):
    """the models an earlier experiment left are evaluated, the best one is tested"""
    nt = h.mod('neural.tagger.neural_tagger')
    dm = h.mod('datamodel')
    train, dev, test = _files(h)
    q = [h.choice('tags%d' % e, [0, 1, 2]) for e in range(3)]
    for e in range(3):
        h.file('models/params-0/5/epoch-%d/weights' % e, 'x')
    used = []

    class Loaded(object):
        def __init__(self, path):
            self.e = int(path[-1])
            used.append(path)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

        def tag(self, documents):
            place = 0
            for d in documents:
                yield dm.Document.from_document(d, [dm.Token.with_morphology(t, dm.Pos('N' if place < q[self.e] else 'X'), None) for t in d.tokens])
                place += d.tokens_count
    h.patch(nt.NeuralTagger, 'load', Loaded)
    r, out = _command(h, _settings(h, train, dev, test), 'neural_pretrained', {})
    h.check('runs', r.ok, [r.error])
    best = q.index(max(q))
    h.check('tested', used == [h.path('models/params-0/5/epoch-%d' % e) for e in (0, 1, 2, best)], [used, q])
    h.check('models', len([f for f in h.listing() if f.startswith('models/')]) == 3)
    h.check('printed', _close(h, out.last(1)[0][0], 'UPOS', [max(q) / 2] * 4))
