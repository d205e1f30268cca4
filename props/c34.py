"""C34 every documented configuration trains and tags with what was learned"""
from props import tfmini
from props.common import structure, syntax, pos_key
from props.tfmini import Arr, eq

BOUNDS = {'training': '2 documents of 1 or 2 sentences of 1 to 3 words, batches of 1 to 3, 1 or 2 epochs', 'tagged': 'a document of 2 sentences with an arbitrary word of 1 to 3 letters',
          'parameters': 'the last layer of every task is arbitrary, so that every prediction occurs; the others are fixed',
          'configurations': 'every task with every splitting, every word feature, every shared part'}
ASSUMPTIONS = ['TensorFlow is replaced by props/tfmini.py; optimizers do not change the parameters', 'BPEmb and Morfessor cut words into single characters here',
               'files of embeddings are well-formed']

DENSE = 5
TW = {'word_trained_embedding': {'size': 2, 'trainable': True, 'min_frequency': 1, 'lowercase': True}}
CHAR = {'segmenter': 'char', 'embed_size': 2, 'min_frequency': 1, 'trainable': True, 'aggregator': 'average'}
FEATURES = {
    'trained': TW,
    'pretrained': {'word_embedding': {'path': 'vectors', 'trainable': False, 'lowercase': True}},
    'pretrained_dense': {'word_embedding': {'path': 'vectors', 'trainable': True, 'lowercase': False, 'we_dense_size': 3}},
    'characters': {'word_characters': dict(CHAR, aggregator='cnn', aggregator_config={'cnn_kernels': [{'size': 3, 'count': 2, 'dilation': 1}]})},
    'characters_vectors': {'word_characters': dict(CHAR, embedding_path='vectors')},
    'bpe': {'bpe_subwords': dict(CHAR, segmenter='bpe', segmenter_config={'language': 'hy', 'vocab_size': 1000})},
    'bpe_vectors': {'bpe_subwords': dict(CHAR, segmenter='bpe', segmenter_config={'language': 'hy', 'vocab_size': 1000}, embedding_path='vectors', trainable=False)},
    'morfessor': {'morfessor_subwords': dict(CHAR, segmenter='morfessor', segmenter_config={'path': 'm'}, aggregator='rnn',
                                             aggregator_config={'lstm_cell_size': 1, 'bilstm_layer_count': 1})},
    'morfessor_vectors': {'morfessor_subwords': dict(CHAR, segmenter='morfessor', segmenter_config={'path': 'm'}, embedding_path='vectors')},
}
FEATURES['all'] = {}
for _k in ('trained', 'pretrained', 'characters', 'bpe_vectors', 'morfessor'):
    FEATURES['all'].update(FEATURES[_k])
SHARED = {
    'WE_charCNN': ('WE_charCNN', {}, 'word_features'),
    'BiLSTM': ('BiLSTM', {'lstm_cell_size': 1, 'bilstm_layer_count': 1}, 'bilstm'),
    'BiLSTM_skip': ('BiLSTM', {'lstm_cell_size': 1, 'skip_connection': 'concat'}, 'bilstm_and_word_features'),
    'BiLSTM_CNN': ('BiLSTM_CNN', {'lstm_cell_size': 1, 'cnn_kernels': [{'size': 2, 'count': 2, 'dilation': 1}]}, 'bilstm_cnn'),
    'Dilated_CNN': ('Dilated_CNN', {'cnn_kernels': [{'size': 2, 'count': 2, 'dilation': 1}]}, 'dilated_cnn'),
    'Dilated_CNN_skip': ('Dilated_CNN', {'cnn_kernels': [{'size': 2, 'count': 2, 'dilation': 2}], 'skip_connection': 'sum'}, 'dilated_cnn_and_word_features'),
}
SPLITTINGS = ('pos_joint', 'pos_XF', 'pos_UXF', 'pos_gran')
COMBO = {'min_frequency': 1, 'embed_size': 2, 'trainable': True, 'segmenter': 'char'}


def cases(tier):
    must = ['all parameters are trained', 'tags of the training data', 'nothing else']
    lem = ['legitimate lemma', 'nothing else']
    out = [('pos_' + s, 'run', {'tasks': ['pos'], 'pos': s}, must) for s in SPLITTINGS]
    out += [('lemma_' + b, 'run', {'tasks': ['lemma'], 'lemma': b}, lem) for b in ('lemma_dense', 'lemma_suffix', 'lemma_binary')]
    out += [('lemma_combo_' + k, 'run', {'tasks': ['lemma'], 'lemma': k}, lem) for k in ('lemma_combo', 'lemma_combo_vectors')]
    out += [('joint_' + b, 'run', {'tasks': ['pos', 'lemma'], 'lemma': b}, must + lem) for b in ('lemma_dense', 'lemma_suffix', 'lemma_combo', 'lemma_binary')]
    out += [('features_' + f, 'run', {'tasks': ['pos'], 'features': f}, must) for f in FEATURES]
    out += [('shared_' + s, 'run', {'tasks': ['pos'], 'shared': s}, must) for s in SHARED]
    if tier == 'thorough':
        out = [(n, f, dict(k, every=True), m) for n, f, k, m in out]
    out += [('trained', 'training', {}, ['labels reach the network', 'every epoch'])]
    return out


class Cutter(object):
    """byte-pair and morpheme models that cut into single characters"""

    def __init__(self, **kwargs):
        pass

    def encode(self, text):
        return [('\u2581' if i == 0 else '') + c for i, c in enumerate(text)]

    def viterbi_segment(self, text, *a, **k):
        return [c for c in text], 1.0

    def read_any_model(self, path):
        return self

    def read_binary_model_file(self, path):
        return self


class mf(object):
    MorfessorIO = Cutter


def _doc(h, words, sizes):
    """words: (text, pos, lemma)"""
    dm = h.mod('datamodel')
    text, toks, sents = '', [], []
    for w, p, l in words:
        toks.append(dm.Token(len(text), len(text) + len(w), p, l))
        text = text + w + ' '
    k = 0
    for n in sizes:
        sents.append(dm.Sentence(k, k + n))
        k += n
    return dm.Document(text, toks, sents)


def _training(h):
    dm = h.mod('datamodel')
    P = dm.Pos
    tags = [P('NOUN', 'N', {'Case': 'Nom'}), P('VERB', None, {}), P('NOUN', 'P', {'Case': 'Acc', 'Num': 'Sg'})]
    words = [('as', tags[0], 'a'), ('Ab', tags[1], 'ab'), ('bs', tags[2], 'b'), ('a', tags[0], 'a'), ('bas', tags[1], 'baa')]
    return [_doc(h, words[:3], [1, 2]), _doc(h, words[3:], [2])], tags, words


def _config(h, tasks, pos='pos_UXF', lemma='lemma_suffix', features='trained', shared='WE_charCNN'):
    h.file('vectors', 'a 1 2\nas 3 1\nb 0 1\n')
    path = h.path('vectors')
    feats = {k: dict(v, **{n: path for n in ('path', 'embedding_path') if n in v and v.get(n) == 'vectors'}) for k, v in FEATURES[features].items()}
    builder, conf, name = SHARED[shared]
    combo = dict(COMBO, embedding_path=path) if lemma.endswith('vectors') else COMBO
    task_lemma = {'builder': lemma.replace('_vectors', ''), 'config': {'shared_name': name, 'dense_size': DENSE}, 'features_config': {}}
    if lemma in ('lemma_suffix', 'lemma_binary'):
        task_lemma['features_config'] = {'lemma_suffix_transformation': {'rules_threshold': 0}}
    elif lemma.startswith('lemma_combo'):
        task_lemma['config'] = {'shared_name': name, 'cnn_bilstm_dense_size': 2, 'cnn_kernels': [{'size': 2, 'count': 2, 'dilation': 1}], 'loss_weights': {'LEMMA': 1.0}}
        task_lemma['features_config'] = {'input_subwords': combo, 'output_subwords': {'min_frequency': 1, 'max_word_length': 4, 'segmenter': 'char'}}
    return {'general': {'optimizer': {'type': 'Adam', 'lr_decrease_factor': 2, 'initial_lr': 0.5, 'lr_decay': 0.0}},
            'shared_part': {'builder': builder, 'config': dict(conf), 'features_config': feats},
            'pos': {'builder': 'pos_dense', 'config': {'shared_name': name, 'dense_size': DENSE, 'splitting': pos}}, 'lemma': task_lemma}


def _train(h, tf, docs, tasks, tester, epochs=1, batch=2, dropout=1.0, **kind):
    nt = h.mod('neural.tagger.neural_tagger')
    ex = h.mod('features.extractors')
    h.patch(ex, 'BPEmb', Cutter)
    h.patch(ex, 'mf', mf)
    h.use_pickle()
    d = h.dir('models')
    return list(nt.NeuralTaggerTrainer().train(list(docs), tester, model_name_format='m{}', seed=1, nn_config=_config(h, tasks, **kind), tasks=tasks,
                                               model_dir=d, epochs=epochs, dropout=dropout, batch_size=batch))


class Acc(object):
    aligned_accuracy = 1


def _arbitrary(h, tf, limit, every):
    """the last layer of a task (every task) may have been trained to anything"""
    for path in sorted(tf.saved):
        g, variables = tf.saved[path]
        k = 0
        names = [n for n in sorted(variables) if _last(n, variables[n])]
        if not every and len(names) > 1:
            names = [h.choice('layer', names)]
        for n in names:
            a = variables[n]
            variables[n] = Arr(a.shape, [h.int('bias%d.%d' % (k, i), -limit, limit) for i in range(len(a.data))])
            k += 1


def _last(name, a):
    return len(a.shape) == 1 and a.shape != [DENSE] and ('logits' in name or 'binary' in name)


def run(h, tasks, every=False, **kind):
    tf = tfmini.install(h)
    docs, tags, words = _training(h)
    taggers = []

    def tester(t):
        taggers.append(t)
        return {'acc': Acc()}
    made = _train(h, tf, docs, tasks, tester, **kind)
    h.check('nothing else', len(made) == 1 and len(taggers) == 1)
    fixed = [f for f in FEATURES[kind.get('features', 'trained')].values() if not f['trainable']]
    names = [g[0] for g in tf.sessions[0].steps[0]['gradients']]
    (_, variables), = tf.saved.values()
    h.check('all parameters are trained', [len(names), len(set(names))] == [len(variables) - len(fixed), len(names)])
    _arbitrary(h, tf, 100, every)
    alphabet = 'abs' if tasks == ['lemma'] else 'aB'
    n = h.choice('length', [1, 2, 3] if tasks == ['lemma'] else [2])
    w = h.str('w', n, alphabet)
    dm = h.mod('datamodel')
    doc = _doc(h, [(w, None, None), ('as', None, 'given'), ('a', None, None)], [2, 1])
    got = list(taggers[0].tag(iter([doc])))
    h.check('nothing else', len(got) == 1)
    got = got[0]
    h.check('nothing else', h.same(structure(got), structure(doc)))
    h.check('nothing else', h.same(syntax(got), syntax(doc)))
    h.check('nothing else', all([s.closed for s in tf.sessions]))
    texts = [w, 'as', 'a']
    pos, lemma = kind.get('pos', 'pos_UXF'), kind.get('lemma', 'lemma_suffix')
    for i in range(got.tokens_count):
        t = got.token(i) if hasattr(got, 'token') else list(got.tokens)[i]
        if 'pos' in tasks:
            h.check('tags of the training data', _legit(h, pos, t.pos, tags))
        else:
            h.check('nothing else', t.pos is None)
        if 'lemma' in tasks:
            h.check('legitimate lemma', _lemma(h, lemma, t.lemma, texts[i], words))
        else:
            h.check('nothing else', t.lemma is None if i != 1 else t.lemma == 'given')


def _legit(h, splitting, p, tags):
    if p is None:
        return False
    if splitting == 'pos_joint':
        return any([pos_key(p) == pos_key(t) for t in tags])
    f = dict(p.feats)
    ok = [p.upos in [t.upos for t in tags], p.xpos in [t.xpos for t in tags]]
    if splitting == 'pos_XF':
        ok.append((p.xpos, f) in [(t.xpos, dict(t.feats)) for t in tags])
    elif splitting == 'pos_UXF':
        ok.append(f in [dict(t.feats) for t in tags])
    else:
        ok.extend([any([t.feats.get(k) == v for t in tags]) for k, v in f.items()])
    return all(ok)


def _lemma(h, task, lemma, text, words):
    low = text.lower()
    if lemma is None:
        return False
    if task == 'lemma_dense':
        return h.any([lemma == l for _, _, l in words])
    if task.startswith('lemma_combo'):
        return h.all([len(lemma) <= 4] + [h.any([c == x for x in 'ab']) for c in lemma])
    # as -> a, Ab -> ab, bs -> b, a -> a, bas -> baa: cut the last letter, keep, replace the last letter by a
    return h.any([lemma == low, h.all([low.endswith('s'), lemma == low[:-1]]), h.all([low.endswith('s'), lemma == low[:-1] + 'a'])])


def training(h):
    """the labels of the words reach the loss"""
    tf = tfmini.install(h)
    dm = h.mod('datamodel')
    P = dm.Pos
    tags = [P('A', None, {}), P('B', None, {})]
    which = [h.choice('tag%d' % i, [0, 1]) for i in range(3)]
    docs = [_doc(h, [('a', tags[0], None)] + [('b', tags[t], None) for t in which], [2, 2])]
    epochs, batch = h.choice('epochs', [1, 2]), h.choice('batch', [1, 2])
    _train(h, tf, docs, ['pos'], None, epochs, batch, pos='pos_joint')
    steps = tf.sessions[0].steps
    h.check('every epoch', len(steps) == epochs * (2 if batch == 1 else 1))
    # the most frequent tag is number 0, the first seen wins ties
    counts = [1 + which.count(0), which.count(1)]
    order = [0, 1] if counts[0] >= counts[1] else [1, 0]
    size = len([c for c in counts if c])
    from props.c30 import Ref, dense_task
    r = Ref(h)
    rows = r.table(4, 2)            # padding, unknown, a, b
    sents = [[(2, 0), (3, which[0])], [(3, which[1]), (3, which[2])]]
    batches = [sents] if batch == 2 else [[s] for s in sents]
    for k, b in enumerate(batches * epochs):
        losses, _ = dense_task(r, [[rows[i] for i, _ in s] for s in b], [2] * len(b), [size], [[[order.index(t)] for _, t in s] for s in b], dsize=DENSE)
        got = steps[k]['gradients'][0][2]
        h.check('labels reach the network', eq(got, losses[0]))
