"""C32 the graph-parser wrapper puts predictions back on their words"""
from props.common import head_indices, shows_heads

BOUNDS = {'documents': 'up to 3 with up to 4 sentences together, 1 to 3 words each (multiword tokens among them); 130 sentences, a sentence of 60 words',
          'batches': 'every order of the sentences, cut into batches in every way', 'predictions': 'arbitrary tags, lemmas, features, heads and relations',
          'histories': 'two calls, the first of which may fail in any batch'}
ASSUMPTIONS = ['stand-ins replace the tdozat parser (absent submodule), TensorFlow and numpy: a data set reads its sentences with itersents and skips empty '
               'ones, delivers batches of sentence numbers in any order, rows of fields preceded by the root and padded, '
               'and the outputs collect rows with the numbers of their sentences',
               'predicted heads are numbers of words of the sentence or 0']

FIELDS = ['id', 'form', 'lemma', 'upos', 'xpos', 'ufeats', 'dephead', 'deprel', 'semrel', 'misc']
TAGGER = ['lemma', 'upos', 'xpos', 'ufeats']
PARSER = ['dephead', 'deprel']


def cases(tier):
    out = []
    docs = [[[1]], [[2]], [[1, 1]], [[1], [2]], [[2, 1], [1]], [[1, 2, 1]], [[1], [1], [1]]]
    if tier == 'thorough':
        docs += [[[1, 1, 1, 1]], [[2, 1], [1, 3]], [[3, 2]], [[1, 2], [2], [1]]]
    for d in docs:
        for kind in ('parser', 'tagger'):
            out.append(('%s_%s' % (kind, '_'.join([''.join(map(str, s)) for s in d])), 'annotated', {'docs': d, 'kind': kind}, ['right word', 'handed over']))
    out += [('none', 'none', {}, ['no documents']), ('multiword', 'multiword', {}, ['right word']), ('joint', 'joint', {}, ['right word']),
            ('through', 'through', {}, ['right word']), ('extras', 'extras', {}, ['right word', 'extras']), ('extras_options', 'extras_options', {}, ['extras']),
            ('extras_missing', 'extras_missing', {}, ['refused']), ('again', 'again', {}, ['right word']),
            ('after_failure', 'after_failure', {}, ['right word', 'failure reported']), ('lazy', 'lazy', {}, ['right word']), ('outside', 'outside', {}, ['refused']), ('many', 'many', {}, ['right word', 'handed over']), ('long', 'long', {}, ['right word', 'extras']),
            ('network', 'network', {}, ['other network refused']), ('model', 'model', {}, ['restored', 'closed'])]
    return out


class Tensor(object):
    def __init__(self, *name):
        self.name = name


class World(object):
    """the parser, its network and TensorFlow"""

    def __init__(self, h, outputs, through=(), network='ParserNetwork', order=None, cuts=None, fail=None):
        self.h = h
        self.td = h.mod('wrappers.tdozat')
        self.outputs = list(outputs)
        self.through = list(through)
        self.order = order
        self.cuts = cuts
        self.fail = fail
        self.handed = []
        self.datasets = []
        self.closed = []
        self.opened = []
        self.ran = []
        self.restored = []
        self.graph_outputs = []
        self.predicted = {}
        self.layers = {}
        self.runs = 0
        self.configs = []
        self.install(network)

    def value(self, call, s, field, j):
        """the prediction of this field for the word of the sentence, in this call"""
        return self.predicted[(call, s, field, j)]

    def install(self, network):
        me, td, h = self, self.td, self.h

        class Vocab(object):
            def __init__(self, field):
                self.field = field
                self.factorized = 'factorized ' + field
                self.fresh = False

            def reset(self):
                self.fresh = True

            def __getitem__(self, pred):
                kind, field, call, indices = pred
                if kind != 'pred' or field != self.field:
                    raise AssertionError('predictions of %r decoded by %r' % (field, self.field))
                return [me.row(call, s, field, max([len(me.sents[x]) for x in indices])) for s in indices]

        class Network(object):
            classname = network

            def __init__(self, config=None):
                self.config = config
                self.save_dir = '/model/save'
                self.output_vocabs = [Vocab(f) for f in me.outputs]
                self.vocabs = [Vocab(f) for f in me.through] + self.output_vocabs

            def build_graph(self, input_network_outputs=None, reuse=True):
                return ({'deptree': {'recur_layer': Tensor('extra', 'dr'), 'hidden_layer': Tensor('extra', 'dh')},
                         'upos': {'recur_layer': Tensor('extra', 'ur'), 'hidden_layer': Tensor('extra', 'uh')},
                         'xpos': {'recur_layer': Tensor('extra', 'xr'), 'hidden_layer': Tensor('extra', 'xh')}}, 'tokens')

        class Other(Network):
            classname = 'Other'

        class parser(object):
            ParserNetwork = Network if network == 'ParserNetwork' else Other
            TaggerNetwork = Network if network == 'TaggerNetwork' else Other

        class Config(object):
            def __init__(self, defaults_file='', config_file='', **kwargs):
                me.configs.append((config_file, kwargs))

            def get(self, section, key):
                return {'network_class': network}[key]

        class GraphOutputs(object):
            def __init__(self, outputs, tokens, load=False, evals=None, factored_deptree=None, factored_semgraph=None, config=None):
                me.graph_outputs.append((factored_deptree, factored_semgraph))
                self.probabilities = {f: Tensor('prob', f) for f in me.outputs}
                self.predictions = {'indices': []}

            def probs_to_preds(self, probabilities, lengths):
                out = {}
                for f, (kind, field, call, indices) in probabilities.items():
                    if kind != 'prob' or field != f or list(lengths) != [len(me.sents[s]) for s in indices]:
                        raise AssertionError('wrong probabilities or lengths')
                    out[f] = ('pred', f, call, indices)
                return out

            def cache_predictions(self, tokens, indices):
                self.predictions['indices'].extend(indices)
                for f in tokens:
                    self.predictions.setdefault(f, []).extend(tokens[f])

        class Impl(object):
            def __init__(self, dataset, files, vocabs, config):
                for v in vocabs:
                    if not v.fresh:
                        raise AssertionError('vocabularies hold other sentences')
                    v.fresh = False
                me.sents = []
                for f in files:
                    for sent in dataset.itersents(f):
                        lines = [list(x) for x in sent]
                        if lines:
                            me.sents.append(lines)
                me.handed.append(me.sents)
                me.datasets.append(self)

            def batch_iterator(self, shuffle=False):
                n = len(me.sents)
                order = me.order if me.order is not None else list(range(n))
                batch = []
                for k, s in enumerate(order):
                    batch.append(s)
                    if k == n - 1 or me.cuts is None or me.cuts[k]:
                        yield batch
                        batch = []

            def get_tokens(self, indices):
                width = max([len(me.sents[s]) for s in indices])
                out = {}
                for f in ['id', 'form'] + me.through:
                    c = FIELDS.index(f)
                    out[f] = [['0' if f == 'id' else '*'] + [w[c] for w in me.sents[s]] + ['?'] * (width - len(me.sents[s])) for s in indices]
                return out, [len(me.sents[s]) for s in indices]

            def set_placeholders(self, indices):
                return {'sentences': list(indices)}

        class Scope(object):
            def __init__(self, *a, **k):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

        class Graph(object):
            def as_default(self):
                return Scope()

        class Session(object):
            def __init__(self, graph=None, config=None, target=''):
                self.open = True
                me.opened.append(self)

            def run(self, fetches, feed_dict=None):
                if not self.open:
                    raise AssertionError('closed session used')
                if feed_dict is None:
                    me.ran.append(fetches)
                    return None
                me.runs += 1
                if me.fail is not None and me.runs == me.fail:
                    raise MemoryError('out of memory')
                return self.value(fetches, feed_dict['sentences'])

            def value(self, t, indices):
                if isinstance(t, tuple):
                    return tuple([self.value(x, indices) for x in t])
                if isinstance(t, list):
                    return [self.value(x, indices) for x in t]
                if isinstance(t, dict):
                    return {k: self.value(x, indices) for k, x in t.items()}
                call = len(me.handed) - 1
                if t.name[0] == 'extra':
                    width = max([len(me.sents[s]) for s in indices])
                    return [[me.layer(call, s, t.name[1], j) for j in range(width + 1)] for s in indices]
                return ('prob', t.name[1], call, indices)

            def close(self):
                self.open = False
                me.closed.append(self)

        class Saver(object):
            def __init__(self, variables=None, **k):
                self.variables = sorted(variables)

            def restore(self, sess, path):
                me.restored.append((sess, path, self.variables))

        class Options(object):
            pass

        class ConfigProto(object):
            def __init__(self, **k):
                self.gpu_options = Options()

        class train(object):
            pass
        train.Saver = Saver
        train.latest_checkpoint = lambda d, *a: 'latest of ' + d

        class tf(object):
            pass
        tf.Graph, tf.Session, tf.ConfigProto, tf.train, tf.variable_scope = Graph, Session, ConfigProto, train, Scope
        tf.global_variables = lambda *a: ['v1', 'v2', 'extra']
        tf.get_collection = lambda name, *a: ['extra'] if name == 'non_save_variables' else []
        tf.variables_initializer = lambda vs, *a: ('initialize', sorted(vs))

        class np(object):
            pass
        np.argsort = lambda xs, *a, **k: sorted(range(len(xs)), key=lambda i: xs[i])
        np.array = np.asarray = lambda xs, *a, **k: list(xs)
        h.patch(td, 'parser', parser)
        h.patch(td, 'Config', Config)
        h.patch(td, 'GraphOutputs', GraphOutputs)
        h.patch(td, 'tf', tf, optional=True)
        h.patch(td, 'np', np, optional=True)
        h.patch(td.CoNLLUDataset, 'backend', Impl)

    def row(self, call, s, field, width):
        n = len(self.sents[s])
        return ['*'] + [self.predicted[(call, s, field, j)] for j in range(n)] + ['?'] * (width - n)

    def layer(self, call, s, name, j):
        return [call, s, name, j]


def _predict(h, w, call, sizes, rich=True):
    """arbitrary predictions for sentences of these sizes"""
    for s, n in enumerate(sizes):
        for j in range(n):
            for f in w.outputs:
                name = 'p%d_%d_%d_%s' % (call, s, j, f)
                if f == 'dephead':
                    v = str(h.int(name, 0, n))
                elif f == 'ufeats':
                    v = 'K=' + h.str(name, 1, 'ab') if rich and (s + j) % 2 == 0 else ['_', 'A=b|C=d'][(s + j) // 2 % 2]
                elif f in ('xpos', 'lemma') and j % 2:
                    v = '_'
                else:
                    v = h.str(name, 1, 'abc')
                w.predicted[(call, s, f, j)] = v


def _docs(h, shapes, annotated=False, extras=False):
    dm = h.mod('datamodel')
    out = []
    k = 0
    for d, sizes in enumerate(shapes):
        text, toks, sents = '', [], []
        for s, n in enumerate(sizes):
            start = len(toks)
            for j in range(n):
                a = {'pos': dm.Pos('X%d' % k, 'x', {'F': 'g'}), 'lemma': 'L%d' % k, 'head_sentence_index': j - 1, 'deprel': 'r%d' % k} if annotated else {}
                toks.append(dm.Token(len(text), len(text) + 2, extras=dm.TokenExtras({'old': k, 'layer': 'before'}) if extras else None, **a))
                text = text + h.raw_str('%d%d' % (d, k)) + ('' if (k % 3) == 1 else ' ')
                k += 1
            sents.append(dm.Sentence(start, len(toks)))
        out.append(dm.Document(text, toks, sents))
    return out


def _none(v):
    return None if type(v) is str and v == '_' else v


def _feats(v):
    out = {}
    if type(v) is str and v == '_':
        return out
    for part in v.split('|'):
        out[part[:1]] = part[2:]
    return out


def _result(h, w, call, docs, got, extras=()):
    """every word: the predictions for it"""
    h.check('as many documents', len(got) == len(docs), [len(got)])
    s = -1
    for d, g in zip(docs, got):
        h.check('same text', g.document_text == d.document_text and [x.tokens_count for x in g.sentences] == [x.tokens_count for x in d.sentences])
        h.check('as many words', g.tokens_count == d.tokens_count)
        for ds, gs in zip(d.sentences, g.sentences):
            s += 1
            for j, (a, b) in enumerate(zip(ds, gs)):
                h.check('same word', a.text == b.text and a.start == b.start and a.end == b.end and a.sub_index == b.sub_index and a.is_multiword == b.is_multiword)

                def v(f):
                    if f in w.outputs:
                        return w.predicted[(call, s, f, j)]
                    return w.handed[call][s][j][FIELDS.index(f)] if f in w.through else '_'
                want = [_none(v(f)) for f in ('lemma', 'upos', 'xpos', 'deprel')]
                have = [b.lemma, b.pos.upos, b.pos.xpos, b.deprel]
                h.check('right word', h.all([h.same(x, y) for x, y in zip(have, want)]), [have, want])
                h.check('right word', h.same(dict(b.pos.feats), _feats(v('ufeats'))), [b.pos])
                head = v('dephead')
                if type(head) is str and head == '_':
                    h.check('right word', not b.has_head, [b])
                else:
                    h.check('right word', not shows_heads(b) or head_indices(b)[1] == int(head) - 1, [b, head])
                ex = a.extras.as_dict()
                for name, layer in extras:
                    ex[name] = [call, s, layer, j + 1]
                bx = b.extras.as_dict()
                h.check('extras', bx == ex, [bx, ex])


def _handed(h, w, call, docs):
    """every sentence as the parser wants it"""
    sents = [s for d in docs for s in d.sentences]
    h.check('as many sentences', len(w.handed[call]) == len(sents))
    for s, lines in zip(sents, w.handed[call]):
        h.check('as many lines', len(lines) == s.tokens_count)
        for j, (t, line) in enumerate(zip(s, lines)):
            pos = t.pos
            want = [str(j + 1), t.text, t.lemma or '_', (pos and pos.upos) or '_', (pos and pos.xpos) or '_',
                    '|'.join(['%s=%s' % kv for kv in pos.feats.items()]) if pos and pos.feats else '_',
                    '_' if not t.has_head else str(head_indices(t)[1] + 1) if shows_heads(t) else line[6], t.deprel or '_']
            h.check('handed over', len(line) == 10 and list(line[:8]) == want, [line, want])


def _order(h, n):
    return h.perm('order', n), [h.bool('cut%d' % i) for i in range(n - 1)] + [True]


def _world(h, kind, shapes, **k):
    order, cuts = _order(h, sum([len(s) for s in shapes]))
    return World(h, PARSER if kind == 'parser' else TAGGER, network='ParserNetwork' if kind == 'parser' else 'TaggerNetwork', order=order, cuts=cuts, **k)


def _sizes(shapes):
    return [n for s in shapes for n in s]


def annotated(h, docs, kind):
    w = _world(h, kind, docs)
    _predict(h, w, 0, _sizes(docs))
    real = _docs(h, docs, h.bool('annotated') if sum([len(s) for s in docs]) < 3 else True)
    if kind == 'parser':
        with w.td.TDozatParser('/model') as p:
            got = list(p.parse(iter(real)))
    else:
        with w.td.TDozatTagger('/model') as p:
            got = list(p.tag(real))
    _handed(h, w, 0, real)
    _result(h, w, 0, real, got)


def none(h):
    dm = h.mod('datamodel')
    w = World(h, PARSER)
    w.sents = []
    with w.td.TDozatParser('/model') as p:
        got = list(p.parse(iter([])))
        h.check('no documents', got == [])
        doc = dm.Document('', [])
        got = list(p.parse(iter([doc])))
    h.check('empty document', len(got) == 1 and got[0].tokens_count == 0 and got[0].document_text == '')


def multiword(h):
    """multiword tokens: every word is a word of its own"""
    dm = h.mod('datamodel')
    order, cuts = _order(h, 2)
    w = World(h, PARSER + ['upos'], order=order, cuts=cuts)
    _predict(h, w, 0, [3, 2])
    toks = [dm.Token(0, 2), dm.Token(3, 6, sub_index=0, text_replacement='p'), dm.Token(3, 6, sub_index=1, text_replacement='q'),
            dm.Token(7, 9, sub_index=0, text_replacement='r'), dm.Token(7, 9, sub_index=1, text_replacement='s')]
    doc = dm.Document('ab cde fg', toks, [dm.Sentence(0, 3), dm.Sentence(3, 5)])
    with w.td.TDozatParser('/model') as p:
        got = list(p.parse(iter([doc])))
    _handed(h, w, 0, [doc])
    _result(h, w, 0, [doc], got)


def _fixed(h, w, call, sizes, at):
    """fixed predictions but for one word"""
    for s, n in enumerate(sizes):
        for j in range(n):
            for f in w.outputs:
                w.predicted[(call, s, f, j)] = str((s + 7 * j) % (n + 1)) if f == 'dephead' else 'K=v%d' % (s % 9) if f == 'ufeats' else '%s%d_%d' % (f, s, j)
    s, j = at
    for f in w.outputs:
        if f != 'ufeats':
            w.predicted[(call, s, f, j)] = str(h.int(f, 0, sizes[s])) if f == 'dephead' else h.str(f, 1, 'ab')


def many(h):
    """many sentences in many batches"""
    n = 130
    order = list(range(n))
    k = h.choice('order', ['same', 'reversed', 'mixed'])
    if k == 'reversed':
        order.reverse()
    elif k == 'mixed':
        order = [(i * 37) % n for i in range(n)]
    kind = h.bool('parser')
    w = World(h, PARSER if kind else TAGGER, order=order, cuts=[i % 16 == 15 or i == n - 1 for i in range(n)], network='ParserNetwork' if kind else 'TaggerNetwork')
    shapes = [[1] * 60, [1, 2] * 20, [1] * 30]
    _fixed(h, w, 0, _sizes(shapes), (h.choice('at', [0, 100, 129]), 0))
    real = _docs(h, shapes, True, True)
    with (w.td.TDozatParser if kind else w.td.TDozatTagger)('/model') as p:
        got = list(p.process(iter(real)))
    _handed(h, w, 0, real)
    _result(h, w, 0, real, got)


def long(h):
    """a sentence of many words"""
    w = World(h, PARSER, order=[1, 0], cuts=[False, True])
    shapes = [[60, 2]]
    _fixed(h, w, 0, [60, 2], (0, h.choice('at', [0, 45, 59])))
    real = _docs(h, shapes, True, h.bool('extras before'))
    with w.td.TDozatParser('/model', extra_fields={'layer': ('upos', 'hidden_layer')}) as p:
        got = list(p.parse(iter(real)))
    _result(h, w, 0, real, got, [('layer', 'uh')])


def joint(h):
    """one network for everything"""
    order, cuts = _order(h, 2)
    w = World(h, TAGGER + PARSER + ['semrel'], order=order, cuts=cuts)
    _predict(h, w, 0, [1, 2])
    real = _docs(h, [[1, 2]], extras=True)
    with w.td.TDozatDocumentProcessor('/model', 'x.cfg') as p:
        got = list(p.process(iter(real)))
    _result(h, w, 0, real, got)
    h.check('graph outputs', w.graph_outputs == [('factorized deprel', 'factorized semrel')], [w.graph_outputs])
    h.check('configuration', [c[0] for c in w.configs] == ['/model/x.cfg'] and w.configs[0][1] == {'DEFAULT': {'save_metadir': '/model'}}, [w.configs])


def through(h):
    """annotations that the network passes through are kept"""
    kind = h.bool('parser')
    order, cuts = _order(h, 2)
    w = World(h, PARSER if kind else TAGGER, TAGGER + ['misc'] if kind else PARSER, order=order, cuts=cuts, network='ParserNetwork' if kind else 'TaggerNetwork')
    _predict(h, w, 0, [2, 1])
    real = _docs(h, [[2], [1]], True, True)
    with (w.td.TDozatParser if kind else w.td.TDozatTagger)('/model') as p:
        got = list(p.process(iter(real)))
    _result(h, w, 0, real, got)


def extras(h):
    """layers of the network as extras of the words"""
    order, cuts = _order(h, 3)
    w = World(h, PARSER, order=order, cuts=cuts)
    _predict(h, w, 0, [1, 2, 1], False)
    real = _docs(h, [[1, 2], [1]], True, h.bool('extras before'))
    with w.td.TDozatParser('/model', extra_fields={'layer': ('upos', 'hidden_layer'), 'another': ('deptree', 'recur_layer')}) as p:
        got = list(p.parse(iter(real)))
    _result(h, w, 0, real, got, [('layer', 'uh'), ('another', 'dr')])


def extras_options(h):
    w = World(h, ['upos'], network=h.choice('network', ['ParserNetwork', 'TaggerNetwork']))
    _predict(h, w, 0, [2])
    real = _docs(h, [[2]])
    more = {'mine': ('xpos', 'recur_layer')} if h.bool('more') else None
    want = [('mine', 'xr')] if more else []
    if hasattr(w.td.parser.ParserNetwork, 'classname') and w.td.parser.ParserNetwork.classname == 'ParserNetwork':
        r = h.bool('recur')
        p = w.td.TDozatParser('/model', parser_recur_layer=r, extra_fields=more)
        want += [('parser_recur_layer', 'dr')] if r else []
        name = 'ParserNetwork.cfg'
    else:
        r, u, x = h.bool('recur'), h.bool('upos'), h.bool('xpos')
        p = w.td.TDozatTagger('/model', tagger_recur_layer=r, upos_hidden=u, xpos_hidden=x, extra_fields=more)
        want += ([('tagger_recur_layer', 'ur')] if r else []) + ([('upos_hidden', 'uh')] if u else []) + ([('xpos_hidden', 'xh')] if x else [])
        name = 'TaggerNetwork.cfg'
    with p:
        got = list(p.process(iter(real)))
    _result(h, w, 0, real, got, want)
    h.check('configuration', [c[0] for c in w.configs] == ['/model/' + name], [w.configs])
    h.check('caller keeps its fields', more is None or more == {'mine': ('xpos', 'recur_layer')})


def extras_missing(h):
    w = World(h, PARSER)
    path = [('nothing',), ('upos', 'nothing'), ('upos', 'hidden_layer', 'nothing')][h.choice('path', [0, 1, 2])]
    r = h.call(lambda: w.td.TDozatParser('/model', extra_fields={'layer': path}))
    h.check('refused', r.error == 'ValueError', [r.error])


def again(h):
    """calls are independent"""
    n = h.choice('second', [1, 2])
    order, cuts = _order(h, 2)
    w = World(h, PARSER, order=order, cuts=cuts)
    first, second = [[1, 1]], [[2] * n]
    _predict(h, w, 0, _sizes(first))
    _predict(h, w, 1, _sizes(second))
    a, b = _docs(h, first), _docs(h, second)
    reopened = h.bool('reopened')
    p = w.td.TDozatParser('/model')
    with p:
        got = list(p.parse(iter(a)))
        if not reopened:
            w.order = None if n == 1 else order
            again = list(p.parse(iter(b)))
    if reopened:
        w.order = None if n == 1 else order
        with p:
            again = list(p.parse(iter(b)))
    _result(h, w, 0, a, got)
    _result(h, w, 1, b, again)


def after_failure(h):
    """a call that failed in some batch does not shift the predictions of the next one"""
    order, cuts = _order(h, 2)
    w = World(h, PARSER, order=order, cuts=[True, True], fail=h.choice('fail', [1, 2]))
    _predict(h, w, 0, [1, 1])
    _predict(h, w, 1, [1, 2])
    p = w.td.TDozatParser('/model')
    b = _docs(h, [[1], [2]])
    with p:
        r = h.call(lambda: list(p.parse(iter(_docs(h, [[1, 1]])))))
        h.check('failure reported', r.error == 'MemoryError', [r.error])
        w.fail = None
        got = list(p.parse(iter(b)))
    _result(h, w, 1, b, got)


def lazy(h):
    """documents of a generator"""
    w = _world(h, 'tagger', [[1], [1], [2]])
    _predict(h, w, 0, [1, 1, 2])
    real = _docs(h, [[1], [1], [2]])

    def some():
        for d in real:
            yield d
    with w.td.TDozatTagger('/model') as p:
        got = list(p.tag(some()))
    _result(h, w, 0, real, got)


def outside(h):
    w = World(h, PARSER)
    _predict(h, w, 0, [1])
    p = w.td.TDozatParser('/model')
    when = h.choice('when', ['before', 'after', 'after failure'])
    if when == 'after':
        with p:
            list(p.parse(iter(_docs(h, [[1]]))))
    elif when == 'after failure':
        def use():
            with p:
                raise KeyError('x')
        h.check('failure reported', h.call(use).error == 'KeyError')
    r = h.call(lambda: list(p.parse(iter(_docs(h, [[1]])))))
    h.check('refused', r.error == 'RuntimeError', [r.error])
    h.check('closed', len(w.closed) == len(w.opened))


def network(h):
    kind = h.choice('kind', ['ParserNetwork', 'TaggerNetwork'])
    w = World(h, PARSER, network=kind)
    r = h.call(lambda: (w.td.TDozatTagger if kind == 'ParserNetwork' else w.td.TDozatParser)('/model'))
    h.check('other network refused', r.error == 'ValueError', [r.error])
    h.check('own network accepted', h.call(lambda: (w.td.TDozatParser if kind == 'ParserNetwork' else w.td.TDozatTagger)('/model')).ok)


def model(h):
    """the saved model is restored on entry and its session closed on exit"""
    w = World(h, PARSER)
    p = w.td.TDozatParser('/model')
    bad = h.bool('bad')

    def use():
        with p as q:
            h.check('itself', q is p)
            h.check('restored', len(w.opened) == 1 and w.restored == [(w.opened[0], 'latest of /model/save', ['v1', 'v2'])], [w.restored])
            h.check('initialized', w.ran == [('initialize', ['extra'])], [w.ran])
            h.check('open', w.opened[0].open)
            if bad:
                raise KeyError('x')
    r = h.call(use)
    h.check('failure reported', r.error == ('KeyError' if bad else None), [r.error])
    h.check('closed', not w.opened[0].open and len(w.closed) == 1)
