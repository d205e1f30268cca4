"""C33 a model is fed, trained, stored and restored faithfully"""
from props import tfmini
from props.tfmini import Q, add, mul, eq

BOUNDS = {'networks': '1 to 3 inputs, golds and outputs; shared part with 1 to 3 tasks, or 5; matrices of up to 4 rows of 2 numbers, or of 2500',
          'values': 'arbitrary integers in -3..3, learning rates and keep probabilities in {1/4, 1/2, 1}',
          'histories': 'initialise, up to 3 training steps and predictions, save, load, again'}
ASSUMPTIONS = ['TensorFlow is replaced by props/tfmini.py: linear and structural operations are computed exactly, the update of an optimiser is recorded']


def cases(tier):
    out = [('feed_%d%d' % (i, g), 'feed', {'inputs': i, 'golds': g}, ['fed by name']) for i in (1, 2, 3) for g in (0, 1, 2)]
    out += [('unknown_name', 'unknown_name', {}, ['refused'])]
    out += [('train_%d' % n, 'train', {'tasks': n}, ['loss', 'one step', 'gradients', 'predictions', 'no step', 'inputs', 'golds', 'outputs'])
            for n in (1, 2, 3, 5)]
    out += [('matrix_many', 'matrix_many', {}, ['given rows', 'other rows'])]
    out += [('shared_names', 'shared_names', {}, ['loss', 'predictions'])]
    out += [('no_tasks', 'no_tasks', {}, ['refused'])]
    out += [('optimizer_%s' % k, 'optimizer', {'kind': k}, ['optimizer']) for k in ('GD', 'Adam', 'RMSProp')]
    out += [('optimizer_unknown', 'optimizer_unknown', {}, ['refused'])]
    out += [('seed', 'seeded', {}, ['seed'])]
    out += [('providers', 'providers', {}, ['providers'])]
    out += [('matrix_%s' % k, 'matrix', {'rows': r}, ['given rows', 'other rows']) for k, r in
            (('one', [1]), ('two', [0, 2]), ('reversed', [3, 1]), ('all', [0, 1, 2, 3]))]
    out += [('initializers', 'initializers', {}, ['initialised', 'order'])]
    out += [('saved', 'saved', {}, ['same predictions', 'same variables', 'separate', 'trains on'])]
    out += [('saved_twice', 'saved_twice', {}, ['same predictions'])]
    out += [('load_fails_%s' % k, 'load_fails', {'what': k}, ['fails', 'released']) for k in ('nothing', 'mapping', 'graph', 'names')]
    out += [('context', 'context', {}, ['released', 'raised'])]
    out += [('architecture_%s' % k, 'architecture', {'shared': k}, ['architecture']) for k in SHARED]
    out += [('tasks_%s' % k, 'task_names', {'task': k}, ['architecture']) for k in TASKS]
    out += [('unknown_architecture', 'unknown_architecture', {}, ['refused'])]
    return out


SHARED = {'WE_charCNN': 'WECharCNNSharedNetworkBuilder', 'BiLSTM': 'CharCNNBiLSTMSharedNetworkBuilder',
          'BiLSTM_CNN': 'CharCNNBiLSTMCNNSharedNetworkBuilder', 'Dilated_CNN': 'DilatedCNNSharedNetworkBuilder'}
TASKS = {'pos_dense': 'PosDenseTaskNetworkBuilder', 'lemma_dense': 'LemmaDenseTaskNetworkBuilder', 'lemma_suffix': 'LemmaSuffixTaskNetworkBuilder',
         'lemma_combo': 'LemmaCOMBOTaskNetworkBuilder', 'lemma_binary': 'LemmaSuffixBinaryTaskNetworkBuilder'}


def value(h, name):
    return h.int(name, -3, 3)


# ------------------------------------------------------------------ feeding
def feed(h, inputs, golds):
    net = h.mod('neural.network')
    ins = {'i%d' % k: ('input', k) for k in range(inputs)}
    gs = {'g%d' % k: ('gold', k) for k in range(golds)}
    nn = net.NeuralNetwork(ins, {}, gs, None, None, [])
    vi = {'i%d' % k: value(h, 'vi%d' % k) for k in range(inputs) if h.choice('has_i%d' % k, [True, False])}
    vg = {'g%d' % k: value(h, 'vg%d' % k) for k in range(golds) if h.choice('has_g%d' % k, [True, False])}
    mode = h.choice('mode', ['both', 'input'])
    d = nn.get_feed_dict(input=vi, gold=vg) if mode == 'both' else nn.get_feed_dict(input=vi)
    want = [(ins[k], v) for k, v in vi.items()] + ([(gs[k], v) for k, v in vg.items()] if mode == 'both' else [])
    h.check('fed by name', h.all([len(d) == len(want)] + [h.all([k in d, d.get(k) == v]) for k, v in want]))
    h.check('fed by name', len(vi) == len([k for k in vi if k.startswith('i')]) and len(nn.get_feed_dict(vi)) == len(vi))


def unknown_name(h):
    net = h.mod('neural.network')
    nn = net.NeuralNetwork({'a': 'A'}, {}, {'b': 'B'}, None, None, [])
    name = h.choice('name', ['b', 'c', 'A'])
    o = h.call(nn.get_feed_dict, input={'a': 1, name: 2})
    h.check('refused', h.all([not o.ok, o.error == 'KeyError']))
    name2 = h.choice('gold', ['a', 'B'])
    o = h.call(nn.get_feed_dict, input={'a': 1}, gold={name2: 2})
    h.check('refused', h.all([not o.ok, o.error == 'KeyError']))


# ------------------------------------------------------------------ networks of small parts
class Provider(object):
    def __init__(self, name):
        self.name = name


def fakes(h, tf, tasks, log=None, same_input=False):
    """a shared part that adds a variable and a frozen one to its input, tasks that scale it by 2, 3.. and add their input"""
    net = h.mod('neural.network')
    F = tfmini.Facade(tf)

    class Shared(net.AbstractSharedNetworkBuilder):
        def feature_providers(self):
            if not hasattr(self, 'own'):
                self.own = [Provider('shared')]
            return self.own

        def inputs(self, shapes):
            return {'x': F.placeholder(F.float32, [None], name='x')}

        def build(self, shapes, inputs, dropout):
            v = F.get_variable('v', [2])
            w = F.get_variable('frozen', [2], trainable=False)
            s = F.add(F.add(F.nn.dropout(inputs['x'], dropout), v), w)
            return {'s': s, 'size': shapes['size']}, [Recorder('shared', log)]

    class Task(net.AbstractTaskNetworkBuilder):
        def __init__(self, k):
            self.k = k
            self.own = [Provider('task%d' % k)]

        def feature_providers(self):
            return self.own

        def inputs(self, shapes):
            return {'in%d' % self.k: F.placeholder(F.float32, [None], name='in%d' % self.k)}

        def gold(self, shapes):
            return {'gold%d' % self.k: F.placeholder(F.float32, [None], name='gold%d' % self.k)}

        def build(self, shapes, inputs, shared, gold, dropout):
            i, g = inputs['in%d' % self.k], gold['gold%d' % self.k]
            t = F.get_variable('t%d' % self.k, [2])
            out = F.nn.dropout(F.add(F.add(F.multiply(shared['s'], self.k + 2), i), t), dropout)
            out = F.add(out, F.multiply(inputs['x'], 7))
            return {'out%d' % self.k: out}, F.reduce_sum(F.multiply(F.subtract(out, g), 10 ** self.k * shared['size']))

        def initializers(self):
            return [Recorder('task%d' % self.k, log)]
    return Shared(), [Task(k) for k in range(tasks)]


class Recorder(object):
    def __init__(self, name, log):
        self.name = name
        self.log = log

    def initialize(self, session, **kwargs):
        if self.log is not None:
            self.log.append((self.name, sorted(session.variables), sorted(kwargs)))

    def mapping(self):
        return self

    def attach(self, graph):
        return self


def network(h, tf, tasks, optimizer='GD', seed=5, log=None):
    net = h.mod('neural.network')
    shared, builders = fakes(h, tf, tasks, log)
    b = net.MultitaskNetworkBuilder(shared, builders, {'optimizer': {'type': optimizer}}, seed)
    return b, b.build({'size': 3})


def vector(h, name):
    return [value(h, name + '.0'), value(h, name + '.1')]


def reference(tasks, x, ins, golds, keep, v, w, ts):
    """outputs and loss"""
    def drop(a):
        return [tfmini.dropped(i, keep) for i in a]
    s = [a + b + c for a, b, c in zip(drop(x), v, w)]
    outs, loss = {}, 0
    for k in range(tasks):
        o = [p + 7 * q for p, q in zip(drop([a * (k + 2) + i + t for a, i, t in zip(s, ins[k], ts[k])]), x)]
        outs['out%d' % k] = o
        if golds is not None:
            loss = loss + sum([(a - g) * 3 * 10 ** k for a, g in zip(o, golds[k])])
    return outs, loss


def same_numbers(h, a, b):
    """nested lists of exact numbers"""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return h.all([same_numbers(h, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return False
    return eq(a, b)


def same_outputs(h, got, want):
    return h.all([sorted(got) == sorted(want)] + [same_numbers(h, got[k], want[k]) for k in want if k in got])


def start():
    """variables of two numbers start like this"""
    return tfmini.weights([2])


def train(h, tasks):
    tf = tfmini.install(h)
    model_mod = h.mod('neural.model')
    b, (nn, graph) = network(h, tf, tasks)
    m = model_mod.Model.new(nn, graph)
    m.initialize()
    x, ins, golds = vector(h, 'x'), [vector(h, 'in%d' % k) for k in range(tasks)], [vector(h, 'gold%d' % k) for k in range(tasks)]
    keep = h.choice('keep', [1.0, 0.5, 0.25])
    rate = h.choice('rate', [0.5, 0.25])
    features = {'x': x}
    labels = {'dropout_probability': keep, 'learning_rate': rate}
    for k in range(tasks):
        features['in%d' % k] = ins[k]
        labels['gold%d' % k] = golds[k]
    s0 = start()
    outs, loss = reference(tasks, x, ins, golds, keep, s0, s0, [s0] * tasks)
    got = m.train(features, labels)
    h.check('loss', eq(got, loss))
    steps = tf.sessions[-1].steps
    h.check('one step', len(tf.sessions) == 1 and len(steps) == 1)
    step = steps[0]
    h.check('one step', eq(step['rate'], rate))
    names = sorted([v.op_name for v in graph.trainable()])
    h.check('gradients', h.all([sorted([g[0] for g in step['gradients']]) == names, len(names) == tasks + 1]
                               + [h.all([g[0] == g[1], eq(g[2], loss), g[3] == 5, g[4] == names]) for g in step['gradients']]))
    # prediction: no dropout, no labels, no step
    outs, _ = reference(tasks, x, ins, None, 1, s0, s0, [s0] * tasks)
    got = m.predict(features)
    h.check('predictions', same_outputs(h, got, outs))
    h.check('no step', len(steps) == 1)
    h.check('inputs', sorted(nn.mapping().inputs) == sorted(features))
    h.check('golds', sorted(nn.mapping().gold) == sorted(labels))
    h.check('outputs', sorted(nn.get_outputs()) == sorted(outs))
    # dropout is only applied in training unless it is given
    labels2 = dict(labels)
    del labels2['dropout_probability']
    _, loss2 = reference(tasks, x, ins, golds, 1, s0, s0, [s0] * tasks)
    h.check('loss', eq(m.train(features, labels2), loss2))
    h.check('one step', len(steps) == 2)
    o = h.call(m.train, features, {k: v for k, v in labels.items() if k != 'learning_rate'})
    h.check('one step', not o.ok and len(steps) == 2)


def shared_names(h):
    """tasks with inputs and labels of the same names as other tasks"""
    tf = tfmini.install(h)
    net, model_mod = h.mod('neural.network'), h.mod('neural.model')
    F = tfmini.Facade(tf)
    shared, (t0, t1) = fakes(h, tf, 2)
    seen = []

    class Spy(object):
        def __init__(self, t):
            self.t = t

        def __getattr__(self, n):
            return getattr(self.t, n)

        def build(self, shapes, inputs, shared, gold, dropout):
            seen.append((sorted(inputs), sorted(gold), sorted(shared)))
            return self.t.build(shapes, inputs, shared, gold, dropout)
    b = net.MultitaskNetworkBuilder(shared, [Spy(t0), Spy(t1)], {'optimizer': {'type': 'Adam'}}, 1)
    nn, graph = b.build({'size': 3})
    h.check('own labels', h.all([s[1] == ['gold%d' % k] for k, s in enumerate(seen)] + ['x' in s[0] and 'in%d' % k in s[0] for k, s in enumerate(seen)]))
    m = model_mod.Model.new(nn, graph)
    m.initialize()
    x, ins, golds = vector(h, 'x'), [vector(h, 'a'), vector(h, 'b')], [vector(h, 'c'), vector(h, 'd')]
    s0 = start()
    outs, loss = reference(2, x, ins, golds, 1, s0, s0, [s0] * 2)
    f = {'x': x, 'in0': ins[0], 'in1': ins[1]}
    h.check('loss', eq(m.train(f, {'gold0': golds[0], 'gold1': golds[1], 'learning_rate': 1}), loss))
    h.check('predictions', same_outputs(h, m.predict(f), outs))


def no_tasks(h):
    tf = tfmini.install(h)
    o = h.call(network, h, tf, 0)
    h.check('refused', h.all([not o.ok, o.error == 'ValueError']))


def optimizer(h, kind):
    tf = tfmini.install(h)
    b, (nn, graph) = network(h, tf, 1, kind)
    m = h.mod('neural.model').Model.new(nn, graph)
    m.initialize()
    rates = [h.choice('rate%d' % i, [0.5, 0.25, 1.0]) for i in range(2)]
    for r in rates:
        m.train({'x': vector(h, 'x'), 'in0': [0, 0]}, {'gold0': [1, 1], 'learning_rate': r})
    steps = tf.sessions[-1].steps
    want = {'GD': 'GradientDescentOptimizer', 'Adam': 'AdamOptimizer', 'RMSProp': 'RMSPropOptimizer'}[kind]
    h.check('optimizer', h.all([len(steps) == 2] + [h.all([s['kind'] == want, eq(s['rate'], r)]) for s, r in zip(steps, rates)]))


def optimizer_unknown(h):
    tf = tfmini.install(h)
    o = h.call(network, h, tf, 1, h.choice('kind', ['SGD', 'adam', '', None]))
    h.check('refused', h.all([not o.ok, o.error == 'ValueError']))


def seeded(h):
    tf = tfmini.install(h)
    seed = h.int('seed', 0, 9)
    b, (nn, graph) = network(h, tf, 1, seed=seed)
    h.check('seed', h.all([len(graph.seeds) >= 1] + [s == seed for s in graph.seeds]))
    h.check('seed', len(tf.default.ops) == 0)


def providers(h):
    tf = tfmini.install(h)
    net = h.mod('neural.network')
    n = h.choice('tasks', [1, 2, 3])
    shared, tasks = fakes(h, tf, n)
    b = net.MultitaskNetworkBuilder(shared, tasks, {'optimizer': {'type': 'GD'}}, 1)
    want = ['shared'] + ['task%d' % k for k in range(n)]
    for _ in range(2):
        h.check('providers', [p.name for p in b.feature_providers()] == want)
    h.check('providers', [p.name for p in shared.feature_providers()] == ['shared'])


# ------------------------------------------------------------------ initialisers
def matrix(h, rows):
    tf = tfmini.install(h)
    F = tfmini.Facade(tf)
    utils, net, model_mod = h.mod('neural.utils'), h.mod('neural.network'), h.mod('neural.model')
    g = F.Graph()
    with g.as_default():
        a = F.get_variable('a', [4, 2])
        other = F.get_variable('b', [4, 2])
        out = F.identity(a, name='out')
        out2 = F.identity(other, name='out2')
        first = utils.global_variables_initializer()
        ini = utils.matrix_initializer('emb', a)
        ini2 = utils.matrix_initializer('emb2', other)
        op = F.train.AdamOptimizer(1).minimize(F.reduce_sum(out), name='op')
        nn = net.NeuralNetwork({}, {'a': out, 'b': out2}, {}, op, F.reduce_sum(out, name='l'), [first, ini, ini2])
    if h.choice('attached', [False, True]):
        nn = nn.mapping().attach(g)
    m = model_mod.Model.new(nn, g)
    vals = [(r, vector(h, 'e%d' % i)) for i, r in enumerate(rows)]
    vals2 = [(rows[0], vector(h, 'f'))]
    m.initialize(emb=vals, emb2=vals2, unused=[(0, [9, 9])])
    got = m.predict({})
    base = tfmini.nested(tfmini.Arr([4, 2], tfmini.weights([4, 2])))
    want, want2 = [list(r) for r in base], [list(r) for r in base]
    for r, v in vals:
        want[r] = v
    for r, v in vals2:
        want2[r] = v
    h.check('given rows', h.all([same_numbers(h, got['a'][r], want[r]) for r in rows] + [same_numbers(h, got['b'][rows[0]], want2[rows[0]])]))
    h.check('other rows', h.all([same_numbers(h, got['a'], want), same_numbers(h, got['b'], want2)]))
    o = h.call(m.initialize, emb=vals)
    h.check('given rows', h.all([not o.ok, o.error == 'KeyError']))


def matrix_many(h):
    """a large matrix, in any order of its rows"""
    tf = tfmini.install(h)
    F = tfmini.Facade(tf)
    utils, net, model_mod = h.mod('neural.utils'), h.mod('neural.network'), h.mod('neural.model')
    g = F.Graph()
    with g.as_default():
        a = F.get_variable('a', [2500, 1])
        out = F.identity(a, name='out')
        first = utils.global_variables_initializer()
        ini = utils.matrix_initializer('emb', a)
        op = F.train.AdamOptimizer(1).minimize(F.reduce_sum(out), name='op')
        nn = net.NeuralNetwork({}, {'a': out}, {}, op, F.reduce_sum(out, name='l'), [first, ini])
    m = model_mod.Model.new(nn, g)
    vals = [(r, [r % 11]) for r in range(2500) if r % 50 != 7]
    vals[h.choice('at', [0, 1100, len(vals) - 1])][1][0] = value(h, 'v')
    if h.choice('reversed', [False, True]):
        vals.reverse()
    m.initialize(emb=iter(vals) if h.choice('iterator', [False, True]) else vals)
    got = m.predict({})['a']
    want = [list(r) for r in tfmini.nested(tfmini.Arr([2500, 1], tfmini.weights([2500, 1])))]
    h.check('other rows', same_numbers(h, [got[r] for r in range(7, 2500, 50)], [want[r] for r in range(7, 2500, 50)]))
    h.check('given rows', same_numbers(h, [got[r] for r, _ in vals], [v for _, v in vals]))


def initializers(h):
    tf = tfmini.install(h)
    log = []
    b, (nn, graph) = network(h, tf, 2, log=log)
    m = h.mod('neural.model').Model.new(nn, graph)
    o = h.call(m.predict, {'x': [1, 2], 'in0': [0, 0], 'in1': [0, 0]})
    h.check('initialised', not o.ok)
    m.initialize(words=[], chars=[])
    h.check('initialised', sorted(tf.sessions[0].variables) == sorted(graph.variables))
    h.check('order', [x[0] for x in log] == ['shared', 'task0', 'task1'] and all([x[1] == sorted(graph.variables) for x in log])
            and all([x[2] == ['chars', 'words'] for x in log]))


# ------------------------------------------------------------------ persistence
def trained(h, tf, tasks=2):
    b, (nn, graph) = network(h, tf, tasks)
    m = h.mod('neural.model').Model.new(nn, graph)
    m.initialize()
    s = tf.sessions[-1]
    for n in list(s.variables):
        a = s.variables[n]
        s.variables[n] = tfmini.Arr(a.shape, [value(h, 'w:%s:%d' % (n, i)) for i in range(len(a.data))])
    return m, s


def features(h, tasks=2):
    f = {'x': vector(h, 'x')}
    for k in range(tasks):
        f['in%d' % k] = vector(h, 'in%d' % k)
    return f


def saved(h):
    tf = tfmini.install(h)
    h.use_pickle()
    model_mod = h.mod('neural.model')
    m, s = trained(h, tf)
    f = features(h)
    before = m.predict(f)
    gold = {'gold0': vector(h, 'g0'), 'gold1': vector(h, 'g1'), 'learning_rate': 0.5, 'dropout_probability': 0.5}
    loss = m.train(f, gold)
    d = h.dir('model')
    loader = m.save(d)
    if h.choice('closed', [True, False]):
        m.close()
    with (loader() if h.choice('how', ['loader', 'load']) == 'loader' else model_mod.Model.load(d)) as n:
        h.check('same predictions', same_outputs(h, n.predict(f), before))
        h.check('separate', len(tf.sessions) == 2 and tf.sessions[1] is not s and tf.sessions[1].graph is not s.graph and not tf.sessions[1].closed)
        h.check('same variables', h.all([sorted(s.variables) == sorted(tf.sessions[1].variables)] +
                                        [same_numbers(h, s.variables[k].data, tf.sessions[1].variables[k].data) for k in s.variables]))
        h.check('trains on', h.all([eq(n.train(f, gold), loss), len(tf.sessions[1].steps) == 1, len(s.steps) == 1]))
        n.initialize()
        s0 = start()
        outs, _ = reference(2, f['x'], [f['in0'], f['in1']], None, 1, s0, s0, [s0, s0])
        h.check('trains on', same_outputs(h, n.predict(f), outs))
    h.check('separate', tf.sessions[1].closed)


def saved_twice(h):
    """two models in two places"""
    tf = tfmini.install(h)
    h.use_pickle()
    model_mod = h.mod('neural.model')
    f = features(h)
    s0 = start()
    outs = []
    for k in (0, 1):
        b, (nn, graph) = network(h, tf, 2)
        m = model_mod.Model.new(nn, graph)
        m.initialize()
        a = [value(h, 'v%d%d' % (k, i)) for i in range(2)]
        tf.sessions[-1].variables['v'] = tfmini.Arr([2], a)
        m.save(h.dir('m%d' % k))
        m.close()
        outs.append(reference(2, f['x'], [f['in0'], f['in1']], None, 1, a, s0, [s0, s0])[0])
    for k in (1, 0):
        with model_mod.Model.load(h.dir('m%d' % k)) as m:
            h.check('same predictions', same_outputs(h, m.predict(f), outs[k]))
    h.check('same predictions', all([s.closed for s in tf.sessions]))


def load_fails(h, what):
    tf = tfmini.install(h)
    h.use_pickle()
    model_mod = h.mod('neural.model')
    m, s = trained(h, tf, 1)
    d = h.dir('model')
    m.save(d)
    m.close()
    if what == 'nothing':
        d = h.dir('elsewhere')
    elif what == 'mapping':
        for k in list(tf.saved):
            tf.saved[k.replace('model', 'other')] = tf.saved[k]
        d = h.dir('other')
    elif what == 'graph':
        tf.saved.clear()
    else:
        g = list(tf.saved.values())[0][0]
        g.ops.pop(h.choice('lost', ['x', 'in0', 'gold0', 'lr', 'dropout']))
    o = h.call(model_mod.Model.load, d)
    h.check('fails', not o.ok and isinstance(o.exc, (OSError, KeyError, ValueError)), [o.error])
    h.check('released', all([x.closed for x in tf.sessions]))


class Boom(Exception):
    pass


def context(h):
    tf = tfmini.install(h)
    b, (nn, graph) = network(h, tf, 1)
    model_mod = h.mod('neural.model')
    fail = h.choice('fail', [True, False])

    def use():
        with model_mod.Model.new(nn, graph) as m:
            m.initialize()
            if fail:
                raise Boom()
            return m
    o = h.call(use)
    h.check('raised', isinstance(o.exc, Boom) if fail else o.ok)
    h.check('released', [s.closed for s in tf.sessions] == [True])


# ------------------------------------------------------------------ configurations
class Any(object):
    """a builder that records what it was made of"""

    def __init__(self, name, log):
        self.name = name
        self.log = log

    def __call__(self, config, features_config):
        self.log.append((self.name, config, features_config))
        return self

    def feature_providers(self):
        return [Provider(self.name)]


def _patch(h, log):
    prov = h.mod('neural.tagger.network_provider')
    sb, tb = h.mod('neural.tagger.shared_builders'), h.mod('neural.tagger.task_builders')
    known = {}
    for m, names in ((sb, SHARED.values()), (tb, TASKS.values())):
        for n in names:
            known[getattr(m, n)] = Any(n, log)
    for k, v in list(vars(prov).items()):
        if not k.startswith('__') and type(v) is dict and any([isinstance(x, type) for x in v.values()]):
            h.patch(prov, k, {a: known.get(x, x) for a, x in v.items()})
    for m in (sb, tb):
        for n in list(vars(m)):
            if vars(m)[n] in list(known) if isinstance(vars(m)[n], type) else False:
                h.patch(m, n, known[vars(m)[n]])
    return prov


def made(h, prov, log, shared, tasks):
    o = h.call(prov.get_nn_builder, shared, tasks, {'optimizer': {'type': 'GD'}}, 3)
    if len(log) == 0:
        return h.unsupported('the builders are found in another way')
    h.check('architecture', o.ok)
    return o.value


def architecture(h, shared):
    tfmini.install(h)
    log = []
    prov = _patch(h, log)
    tasks = [h.choice('t%d' % i, list(TASKS)) for i in range(2)]
    with_features = h.choice('features', [True, False])
    sh = {'builder': shared, 'config': {'c': 1}}
    if with_features:
        sh['features_config'] = {'f': 2}
    ts = [{'builder': t, 'config': {'t': i}, 'features_config': {'ft': i}} for i, t in enumerate(tasks)]
    bare = h.choice('bare', [None, 0, 1])
    if bare is not None:
        del ts[bare]['features_config']
    b = made(h, prov, log, sh, ts)
    h.check('architecture', log == [(SHARED[shared], {'c': 1}, {'f': 2} if with_features else {})] +
            [(TASKS[t], {'t': i}, {'ft': i} if i != bare else {}) for i, t in enumerate(tasks)])
    h.check('architecture', [p.name for p in b.feature_providers()] == [SHARED[shared]] + [TASKS[t] for t in tasks])


def task_names(h, task):
    tfmini.install(h)
    log = []
    prov = _patch(h, log)
    with_features = h.choice('features', [True, False])
    t = {'builder': task, 'config': {'t': 1}}
    if with_features:
        t['features_config'] = {'f': 2}
    made(h, prov, log, {'builder': 'BiLSTM', 'config': {}}, [t])
    h.check('architecture', log[1:] == [(TASKS[task], {'t': 1}, {'f': 2} if with_features else {})])


def unknown_architecture(h):
    tfmini.install(h)
    log = []
    prov = _patch(h, log)
    where = h.choice('where', ['shared', 'task'])
    o = h.call(prov.get_nn_builder, {'builder': 'X' if where == 'shared' else 'BiLSTM', 'config': {}},
               [{'builder': 'X' if where == 'task' else 'pos_dense', 'config': {}}], {'optimizer': {'type': 'GD'}}, 3)
    h.check('refused', not o.ok and isinstance(o.exc, (KeyError, ValueError)))
