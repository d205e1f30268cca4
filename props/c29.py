"""C29 training shows every sentence once per epoch and reports every epoch"""
BOUNDS = {'training': '1 to 7 sentences in up to 3 documents, batches of 1 to 8, 1 to 3 epochs (8 and 60 in the long cases); 210 sentences in batches of 1 to 300',
          'scores': 'one or two metrics, arbitrary multiples of 1/4 between 0 and 1, or absent', 'learning rate': 'several initial values, decays and factors'}
ASSUMPTIONS = ['the network, its builder and the external evaluation are arbitrary; losses are numbers', 'the training set has at least one sentence and can be read again and again']


def cases(tier):
    out = [('batches_%s_%d' % ('_'.join(map(str, d)), b), 'batches', {'docs': d, 'b': b}, ['every sentence once', 'batch sizes', 'same sentences'])
           for d in ([1], [2], [1, 2], [3, 0, 1], [2, 2, 3]) for b in (1, 2, 3, 4, 8)]
    out += [('rate%d' % n, 'rate', {'n': n, 'two': False}, ['learning rate', 'reported']) for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]
    out += [('rate_two', 'rate', {'n': 2, 'two': True}, ['learning rate']), ('rate_long', 'rate_long', {}, ['learning rate']), ('rate_plateau', 'rate_plateau', {}, ['learning rate']),
            ('many_sentences', 'many_sentences', {}, ['every sentence once', 'batch sizes', 'same sentences']), ('many_epochs', 'many_epochs', {}, ['learning rate', 'own name']), ('rate_none', 'rate_none', {}, ['learning rate']), ('epochs', 'epochs', {}, ['own name', 'evaluated once', 'reported']),
            ('lazy', 'lazy', {}, ['one epoch at a time']), ('no_tester', 'no_tester', {}, ['saved', 'result']),
            ('setup', 'setup', {}, ['sizes', 'initial values', 'sparsification']), ('released', 'released', {}, ['released']),
            ('pretrained', 'pretrained', {}, ['reported'])]
    return out


class Score(object):
    def __init__(self, a):
        self.aligned_accuracy = a


class Network(object):
    """stands for the network, its builder and its model; remembers everything"""

    def __init__(self, h, providers):
        self.h = h
        self.providers = providers
        self.log = []
        self.built = []
        self.initialized = []
        self.closed = 0
        self.nn_args = []
        self.losses = []
        self.printed = []

    # builder
    def feature_providers(self):
        return self.providers

    def build(self, shapes):
        self.built.append(shapes)
        return 'network', 'graph'

    # model
    def new(self, network, graph):
        self.log.append(('new', network, graph))
        return self

    def initialize(self, **values):
        self.initialized.append(values)

    def train(self, features, labels):
        self.log.append(('train', features, dict(labels)))
        self.losses.append(0.25 * (1 + len(self.losses) % 5))
        return self.losses[-1]

    def save(self, path):
        self.log.append(('save', path))

    def close(self):
        self.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _docs(h, sizes):
    """documents of so many sentences; sentence k of the data has k % 3 + 1 words"""
    dm = h.mod('datamodel')
    docs, k = [], 0
    for n in sizes:
        toks, sents = [], []
        for _ in range(n):
            m = k % 3 + 1
            sents.append(dm.Sentence(len(toks), len(toks) + m))
            for j in range(m):
                toks.append(dm.Token(2 * len(toks), 2 * len(toks) + 1, None, 's%d' % k))
            k += 1
        docs.append(dm.Document('x ' * len(toks), toks, sents))
    return docs


class Data(object):
    def __init__(self, docs):
        self.docs = docs
        self.passes = 0

    def __iter__(self):
        self.passes += 1
        return iter(self.docs)


def _provider(h):
    """a feature and a label that name the sentence"""
    b = h.mod('features.builder')
    pr = h.mod('features.provider')

    class Name(b.FeatureExtractorBuilder):
        def __init__(self, name):
            self.name = name

        def build(self, dataset):
            return self, b.DoNothingInterpreter(), b.ConstantFeatureInitializer(self.name, ['size of ' + self.name])

        def get_features(self, obj, **kwargs):
            return {self.name: [obj.get_token(0).lemma, dict(kwargs)]}

    class Initial(b.ConstantFeatureInitializer):
        def __init__(self, name):
            b.ConstantFeatureInitializer.__init__(self, name, ['size of ' + name])
            self.name = name

        def initial_values(self):
            return {'values_of_' + self.name: [(1, [2])]}

    class Many(b.FeatureExtractorBuilder):
        """batches as they are"""

        def __init__(self, name):
            self.name = name

        def build(self, dataset):
            return self, b.DoNothingInterpreter(), Initial(self.name)

        def get_features(self, obj, **kwargs):
            return {self.name: [s.get_token(0).lemma for s in obj], self.name + ' options': dict(kwargs)}

    class P(pr.AbstractExtractorBuilderProvider):
        def feature_extractor_builder(self):
            return Many('feature')

        def labels_extractor_builder(self):
            return Many('label')
    return P()


def _trainer(h, net):
    nt = h.mod('neural.tagger.neural_tagger')
    h.use_pickle()

    def builder(shared, tasks, config, seed):
        net.nn_args.append((shared, tasks, config, seed))
        return net
    h.patch(nt, 'get_nn_builder', builder)
    h.patch(nt, 'Model', net)
    nt.print = lambda *a, **k: net.printed.append(' '.join([str(x) for x in a]))
    return nt.NeuralTaggerTrainer()


def _config(h, epochs, b, lr=1.0, decay=0, factor=2, dropout=0.5, sparse=None, **more):
    shared = {'config': {}, 'builder': 'x'}
    if sparse is not None:
        shared['config']['sparse_input_prob'] = sparse
    out = dict(seed=7, epochs=epochs, batch_size=b, dropout=dropout, model_dir=h.path('models'), tasks=['pos'],
               nn_config={'shared_part': shared, 'pos': {'t': 1}, 'lemma': {'t': 2}, 'general': {'optimizer': {'initial_lr': lr, 'lr_decay': decay, 'lr_decrease_factor': factor}}})
    out.update(more)
    return out


def _run(gen):
    out = []
    while True:
        try:
            out.append(next(gen))
        except StopIteration as e:
            return out, e.value


def _epochs(log):
    """the training calls of every epoch, with what followed"""
    out = [[]]
    for e in log:
        if e[0] == 'train':
            out[-1].append(e)
        elif e[0] == 'save':
            out.append([])
    return out[:-1]


def _number(line):
    """the last number of the line"""
    for w in reversed(line.replace(':', ' ').replace('=', ' ').split()):
        try:
            return float(w)
        except ValueError:
            pass
    return None


def _batches(h, net, names, epochs, b, dropout, sparse):
    per = _epochs(net.log)
    h.check('epochs', len(per) == epochs, [len(per)])
    shown = [_number(line) for line in net.printed if 'loss' in line]
    if len(shown) == epochs:
        k = 0
        for calls, x in zip(per, shown):
            mean = sum(net.losses[k:k + len(calls)]) / len(calls)
            k += len(calls)
            h.check('average loss', x is None or -0.01 < x - mean < 0.01, [x, mean])
    for calls in per:
        got = [c[1]['feature'] for c in calls]
        h.check('every sentence once', [n for g in got for n in g] == names, [got])
        h.check('batch sizes', all([len(g) == b for g in got[:-1]]) and 1 <= len(got[-1]) <= b, [got])
        h.check('same sentences', [c[2]['label'] for c in calls] == got, [got])
        h.check('dropout', all([c[2]['dropout_probability'] == dropout for c in calls]))
        h.check('one rate', all([c[2]['learning_rate'] == calls[0][2]['learning_rate'] for c in calls]))
        h.check('sparsification', all([c[1]['feature options'].get('sparse_rate', 0) == sparse and not c[2]['label options'].get('sparse_rate', 0) for c in calls]), [calls])


def batches(h, docs, b):
    net = Network(h, [_provider(h)])
    data = Data(_docs(h, docs))
    epochs = h.choice('epochs', [1, 2])
    dropout = h.real('dropout', 0, 4, 4)
    sparse = h.choice('sparse', [None, 0.25]) if b == 2 else None
    acc = h.real('acc', 0, 4, 4)
    gen = _trainer(h, net).train(data, dev_tester=lambda t: {'UPOS': Score(acc)}, **_config(h, epochs, b, dropout=dropout, sparse=sparse))
    got, taggers = _run(gen)
    h.check('reported', len(got) == epochs)
    names = ['s%d' % i for i in range(sum(docs))]
    _batches(h, net, names, epochs, b, dropout, sparse if sparse is not None else 0)


def _rule(h, lr, decay, factor, accs):
    """the rate of every epoch"""
    out, recent = [], [0] * 5
    for e, a in enumerate(accs):
        lr = lr / (1 + decay * e)
        out.append(lr)
        total = 0
        for x in recent[-5:]:
            total = total + x
        if h.all([a <= recent[-1], 5 * a <= total]):
            lr = lr / factor
        recent.append(a)
    return out


def _rates(h, accs, scores, lr, decay, factor):
    net = Network(h, [_provider(h)])
    left = list(scores)
    gen = _trainer(h, net).train(Data(_docs(h, [1])), dev_tester=lambda t: left.pop(0), **_config(h, len(accs), 2, lr, decay, factor))
    got, taggers = _run(gen)
    h.check('reported', len(got) == len(accs) and all([g[0] is s for g, s in zip(got, scores)]))
    rates = [c[0][2]['learning_rate'] for c in _epochs(net.log)]
    want = _rule(h, lr, decay, factor, accs)
    # rates are compared up to rounding
    h.check('learning rate', len(rates) == len(want) and all([abs(r - w) <= 1e-9 * w for r, w in zip(rates, want)]), [rates, want])


def rate(h, n, two):
    lr, decay, factor = [(1.0, 0, 2), (0.02, 0.05, 1.5), (1.0, 1, 4)][h.choice('schedule', [0, 1, 2])]
    accs, scores = [], []
    for e in range(n + 1):
        if e == n:
            accs.append(0)
            scores.append({'UPOS': Score(0)})
            continue
        a = h.real('acc%d' % e, 0, 4, 4)
        s = {'UPOS': Score(a), 'Words': Score(None)}
        if two:
            a2 = h.real('lemma%d' % e, 0, 4, 4)
            s['Lemmas'] = Score(a2)
            a = a + a2
        accs.append(a)
        scores.append(s)
    _rates(h, accs, scores, lr, decay, factor)


def rate_long(h):
    """the average is of the last five epochs only"""
    base = [0.5, 0.75, 0.25, 0.5, 1.0, 0.25, 0.75, 0.5]
    at = h.choice('at', [0, 2, 4, 5, 6])
    base[at] = h.real('acc', 0, 4, 4)
    if at == 5:
        base[6] = h.real('next', 0, 4, 4)
    _rates(h, base + [0], [{'UPOS': Score(a)} for a in base + [0]], 1.0, h.choice('decay', [0, 0.5]), 2)


def rate_plateau(h):
    """equal scores, and scores better than one of both only"""
    kind = h.choice('kind', [0, 1, 2])
    accs = [[0.5] * 6, [1.0, 0.5, 0.25, 0.5, 0.5], [0, 0, 0.25, 0.25, 0.25, 0.25, 0.25]][kind]
    accs = accs + [h.real('last', 0, 4, 4), 0]
    _rates(h, accs, [{'UPOS': Score(a)} for a in accs], 1.0, 0, 2)


def many_sentences(h):
    net = Network(h, [_provider(h)])
    b = h.choice('b', [1, 2, 32, 70, 100, 210, 300])
    _run(_trainer(h, net).train(Data(_docs(h, [3, 200, 0, 7])), **_config(h, 2, b)))
    _batches(h, net, ['s%d' % i for i in range(210)], 2, b, 0.5, 0)


def many_epochs(h):
    """sixty epochs"""
    net = Network(h, [_provider(h)])
    decay = h.choice('decay', [0, 0.05])
    acc = h.real('acc', 0, 4, 4)
    accs = [i / 100 for i in range(60)]
    accs[h.choice('at', [3, 40])] = acc
    left = [{'UPOS': Score(a)} for a in accs]
    got, taggers = _run(_trainer(h, net).train(Data(_docs(h, [1])), dev_tester=lambda t: left.pop(0), **_config(h, 60, 2, 1.0, decay, 2)))
    h.check('own name', [e[1] for e in net.log if e[0] == 'save'] == [h.path('models') + '/epoch-%d' % i for i in range(60)])
    rates = [c[0][2]['learning_rate'] for c in _epochs(net.log)]
    want = _rule(h, 1.0, decay, 2, accs)[:60]
    h.check('learning rate', len(rates) == 60 and all([abs(r - w) <= 1e-9 * w for r, w in zip(rates, want)]), [rates, want])


def rate_none(h):
    """without any accuracy an epoch is no better than the one before"""
    accs = [0, h.real('acc', 0, 4, 4), 0]
    _rates(h, accs + [0], [{'Words': Score(None)}, {'UPOS': Score(accs[1])}, {}, {}], 1.0, 0, 2)


def epochs(h):
    """every epoch is trained, saved under its own name, evaluated and reported, in this order"""
    net = Network(h, [_provider(h)])
    n = h.choice('n', [1, 2, 3])
    form = h.choice('form', [None, 'm{}', 'a-{}-b'])
    results = [{'UPOS': Score(h.real('acc%d' % i, 0, 4, 4))} for i in range(n)]
    seen = []

    def tester(t):
        net.log.append(('test', t))
        seen.append(t)
        return results[len(seen) - 1]
    more = {'model_name_format': form} if form is not None else {}
    trainer = _trainer(h, net)
    got, taggers = _run(trainer.train(Data(_docs(h, [2, 1])), dev_tester=tester, **_config(h, n, 2, **more)))
    order = [e[0] for e in net.log if e[0] in ('train', 'save', 'test')]
    h.check('order', order == ['train', 'train', 'save', 'test'] * n, [order])
    names = [e[1] for e in net.log if e[0] == 'save']
    want = [h.path('models') + '/' + (form or 'epoch-{}').format(i) for i in range(n)]
    h.check('own name', names == want, [names, want])
    h.check('evaluated once', len(seen) == n and len([1 for i in range(n) for j in range(i) if seen[i] is seen[j]]) == 0)
    h.check('reported', len(got) == n and all([g[0] is r and g[1] is t for g, r, t in zip(got, results, seen)]), [got])
    h.check('tagger of that epoch', all([want[i] in str(t) for i, t in enumerate(seen)]), [seen])
    h.check('result', taggers is None or (len(taggers) == n and all([a is b for a, b in zip(taggers, seen)])), [taggers])
    h.check('released', net.closed == 1, [net.closed])


def lazy(h):
    """an epoch is reported before the next one is trained"""
    net = Network(h, [_provider(h)])
    acc = h.real('acc', 0, 4, 4)
    gen = _trainer(h, net).train(Data(_docs(h, [3])), dev_tester=lambda t: {'UPOS': Score(acc)}, **_config(h, 3, 2))
    for i in range(3):
        next(gen)
        h.check('one epoch at a time', len([e for e in net.log if e[0] == 'save']) == i + 1 and len([e for e in net.log if e[0] == 'train']) == 2 * (i + 1), [net.log])
        h.check('not yet released', net.closed == 0)
    h.check('no more', next(gen, None) is None)


def no_tester(h):
    """without evaluation every epoch is saved and returned"""
    net = Network(h, [_provider(h)])
    n = h.choice('n', [1, 2, 3])
    got, taggers = _run(_trainer(h, net).train(Data(_docs(h, [2])), **_config(h, n, 1, 1.0, 1)))
    h.check('nothing reported', got == [])
    h.check('saved', [e[1] for e in net.log if e[0] == 'save'] == [h.path('models') + '/epoch-%d' % i for i in range(n)])
    h.check('result', len(taggers) == n)
    rates = [c[0][2]['learning_rate'] for c in _epochs(net.log)]
    h.check('learning rate', [abs(r - w) < 1e-9 for r, w in zip(rates, [1.0, 0.5, 0.5 / 3])] == [True] * n, [rates])
    _batches(h, net, ['s0', 's1'], n, 1, 0.5, 0)


def setup(h):
    """the network is built for the sizes of features and labels and gets the initial values once, before training"""
    net = Network(h, [_provider(h)])
    sparse = h.choice('sparse', [None, 0, 0.5])
    c = _config(h, 1, 2, sparse=sparse)
    tasks = [['pos'], ['pos', 'lemma'], ['lemma', 'pos']][h.choice('tasks', [0, 1, 2])]
    c['tasks'] = tasks
    got, _ = _run(_trainer(h, net).train(Data(_docs(h, [2])), dev_tester=lambda t: {'UPOS': Score(1)}, **c))
    nn = c['nn_config']
    h.check('configuration', len(net.nn_args) == 1 and net.nn_args[0][0] is nn['shared_part'] and list(net.nn_args[0][1]) == [nn[t] for t in tasks] and
            net.nn_args[0][2] is nn['general'] and net.nn_args[0][3] == 7, [net.nn_args])
    h.check('sizes', net.built == [{'feature': ['size of feature'], 'label': ['size of label']}], [net.built])
    h.check('initial values', net.initialized == [{'values_of_feature': [(1, [2])], 'values_of_label': [(1, [2])]}] and [e for e in net.log if e[0] == 'new'] == [('new', 'network', 'graph')], [net.initialized])
    h.check('sparsification', all([e[1]['feature options'].get('sparse_rate', 0) == (sparse or 0) for e in net.log if e[0] == 'train']))


def released(h):
    """the network is released once when training is abandoned or fails"""
    net = Network(h, [_provider(h)])
    fails = h.bool('fails')

    def tester(t):
        if fails and len([e for e in net.log if e[0] == 'save']) == 2:
            raise KeyError('broken')
        return {'UPOS': Score(1)}
    gen = _trainer(h, net).train(Data(_docs(h, [1])), dev_tester=tester, **_config(h, 3, 2))
    next(gen)
    if fails:
        r = h.call(lambda: next(gen))
        h.check('failure is passed on', r.error == 'KeyError', [r.error])
    else:
        gen.close()
    h.check('released', net.closed == 1, [net.closed])


def pretrained(h):
    """saved models are evaluated and reported in the order of their names"""
    nt = h.mod('neural.tagger.neural_tagger')
    names = [['epoch-0', 'epoch-1'], ['b', 'a', 'c'], ['only'], [], ['epoch-%d' % i for i in range(12)]][h.choice('names', [0, 1, 2, 3, 4])]
    h.dir('models')
    for n in names:
        h.dir('models/' + n)
    nested = h.bool('nested') and names
    if nested:
        names = names + [names[0] + '/' + n for n in ('x', 'y')]
        for n in names[-2:]:
            h.dir('models/' + n)
        for n in names:
            h.file('models/' + n + '/mapping', '')
    seen = []

    def tester(t):
        seen.append(t)
        return {'UPOS': Score(len(seen))}
    got, taggers = _run(nt.PretrainedTaggerTrainer().train([], dev_tester=tester, model_dir=h.path('models')))
    h.check('reported', len(got) == len(names) and all([g[1] is t for g, t in zip(got, seen)]), [got])
    h.check('in order', all([str(t).find(h.path('models') + '/' + n) >= 0 for t, n in zip(seen, sorted(names))]), [seen])
    h.check('result', taggers is None or len(taggers) == len(names))
