"""writes /verif/properties.jsonl"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {'files': ['babylondigger/' + f for f in files],
         'mechanism': [{'name': n, 'where': 'babylondigger/' + w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


p('C01', 'A document is only built from a well-formed tokenisation and segmentation',
  'Building a document from any list of tokens (in any order) and any sentence spans succeeds exactly when no two tokens '
  'overlap, the words of a multiword token share one span and are numbered 0,1,2,... without gaps, and the sentences '
  'partition the tokens; otherwise it is refused with a value error. An accepted document holds exactly the given tokens, '
  'sorted by position, and the sentences in order, whatever order they were given in.',
  ['inputs'], 'all token spans, word numbers, multiword marks, sentence spans and orders of the given lists',
  'tests build a handful of valid and broken documents; the rule is about every combination of spans, numbers and orders',
  ['datamodel.py'], [('sorting and overlap checks', 'datamodel.py:_WordList.__init__'),
                     ('segmentation checks', 'datamodel.py:Document.__init__'),
                     ('pairwise token tests', 'datamodel.py:Token.intersects, _skipped_token')])

p('C02', 'Syntax validation accepts exactly single-rooted dependency trees',
  'When validation is requested, a document is accepted exactly when every sentence either has no heads at all or forms a '
  'tree: every word has a head, exactly one word is a root, every head lies in the same sentence and there is no cycle. '
  'Everything else (partial annotation, no root, several roots, self-heads and loops of any length, heads outside of the '
  'sentence) is refused with a value error, wherever in the document it occurs.',
  ['inputs'], 'all assignments of heads to the words of one or more sentences',
  'the number of head assignments grows as (n+1)^n; tests contain a few trees and a few loops',
  ['datamodel.py', 'evaluation/conllu_io.py'],
  [('validation', 'datamodel.py:Document.__validate_syntax')])

p('C03', 'Document-relative and sentence-relative heads always agree',
  'A head may be given relative to the document, relative to the sentence, or both: every way describes the same tree, both '
  'views of every token of the built document are consistent, and contradictory pairs are refused. Following the head of a '
  'word through the document or through its sentence reaches the same word, and exactly the roots have no head.',
  ['inputs'], 'all heads, notations, sentence boundaries and word positions',
  'the conversion depends on the sentence offset; tests use one-sentence documents mostly',
  ['datamodel.py'], [('filling in the other notation', 'datamodel.py:Token.fill_heads'),
                     ('head navigation', 'datamodel.py:NavigableToken.head')])

p('C04', 'Derived tokens and documents change only what was asked for',
  'Deriving a token with new morphology, syntax or extras replaces exactly these annotations and keeps everything else, '
  'including span, multiword word number and replacement text; the original token is unchanged. A document derived from '
  'another one keeps text and sentences and takes the annotations of the new tokens, whatever their order, and is refused '
  'when the new tokens do not cover the same spans; no later change of a dictionary passed in or handed out alters stored '
  'annotations.',
  ['inputs', 'histories'], 'all annotations of a token, all sequences of derivations, all orders of new tokens',
  'tests look at a few fields of a few derived objects',
  ['datamodel.py'], [('token derivation', 'datamodel.py:Token.with_morphology, with_syntax, with_extras, update_extras'),
                     ('document derivation', 'datamodel.py:Document.from_document'),
                     ('defensive copies', 'datamodel.py:Pos, TokenExtras')])

p('C05', 'Equality, hashing and ordering of annotations are coherent',
  'Parts of speech, lemma rules, tokens, sentences and documents are equal exactly when all their visible components are '
  'equal, and comparison with foreign objects is false, not an error. Equal parts of speech and lemma rules have equal '
  'hashes, and their order is a strict total order compatible with equality, also when some components are absent.',
  ['inputs'], 'all pairs and triples of values, including absent components and differently ordered features',
  'the laws quantify over all pairs and triples',
  ['datamodel.py', 'lemmas/transformation_rules.py'],
  [('part of speech', 'datamodel.py:Pos.__eq__, __lt__, __hash__'), ('token', 'datamodel.py:Token.__eq__'),
   ('document', 'datamodel.py:Document.__eq__'), ('rule', 'lemmas/transformation_rules.py:LemmaSuffixTransformation')])

p('C06', 'Navigation visits every word once and surface text is the original text',
  'Walking a document or sentence forwards, backwards or by index meets every word once in text order, first and last marks '
  'and neighbours agree with positions, and the sentences together hold exactly the words of the document. The text of a '
  'plain word is its slice of the document text, the text of a multiword word its own form, the space mark tells whether the '
  'document text continues with whitespace or ends, and the sentence text is the slice from its first to its last word.',
  ['inputs'], 'all documents: spans, spacing, sentence boundaries, multiword tokens',
  'tests navigate two or three fixed documents',
  ['datamodel.py'], [('navigation', 'datamodel.py:_NavigableItem, _WordList.get_token, Document.get_sentence'),
                     ('surface text', 'datamodel.py:DocumentToken.text, doc_text, space_after; NavigableSentence.text')])

p('C07', 'Reading CoNLL-U reproduces exactly the annotation in the file',
  'For every well-formed CoNLL-U text, the documents read contain one word per word line, in order, with the form, lemma, '
  'tags, features, head and relation of that line (underscore meaning absent), grouped into the sentences and multiword '
  'tokens of the file; comments and empty nodes contribute nothing. The document text is the token forms joined according '
  'to the space marks; only the requested columns are filled; malformed trees are refused.',
  ['inputs', 'configurations'], 'all files, all column selections, all line endings, space marks and multiword ranges',
  'tests read a few fixed texts',
  ['evaluation/conllu_io.py'], [('line parsing', 'evaluation/conllu_io.py:_line_parser, _parse_to_dict'),
                                ('state machine', 'evaluation/conllu_io.py:_ReaderState, _MultiWordReaderState')])

p('C08', 'The reader splits files into documents of the requested number of sentences',
  'With a limit of n sentences, every document read except possibly the last holds exactly n sentences, the last holds '
  'between 1 and n, and no document is empty. Concatenating the sentences of the documents gives the sentences of the file '
  'in order, with the same annotation for every limit. A file does not stay open when its stream ends, fails or is abandoned.',
  ['inputs', 'configurations'], 'all numbers of sentences, all limits, sentences of any length',
  'tests use two sentences and limits 1 to 5',
  ['evaluation/conllu_io.py'], [('document boundary', 'evaluation/conllu_io.py:CoNLLUReader._read'),
                                ('sentence boundary', 'evaluation/conllu_io.py:_AbstractReaderState.end_of_sentence')])

p('C09', 'Written CoNLL-U is structurally valid for every document',
  'For every document the writer emits ten tab-separated columns per line, word numbers 1,2,3,... in every sentence, one range '
  'line with the surface form before the words of every multiword token, and an empty line after every sentence. Every '
  'annotation is in its column, absent or unselected ones are an underscore, features are sorted, heads are the number of '
  'the head word or 0, and the no-space mark is present exactly on tokens directly followed by text.',
  ['inputs', 'configurations'], 'all documents and column selections, sequences of documents',
  'tests compare a few fixed documents',
  ['evaluation/conllu_io.py'], [('writer states', 'evaluation/conllu_io.py:_RegularTokenWriterState, _MultiwordTokenWriterState'),
                                ('columns', 'evaluation/conllu_io.py:to_conll, _column_extractors')])

p('C10', 'Writing and reading back a document loses nothing',
  'Reading what was written for any document whose tokens are separated by at most one space and whose syntax is specified '
  'gives an equal document (up to one trailing space of the text), whether written to a string or to a file. Writing what '
  'was read gives the same text again, and writing several documents at once is the concatenation of writing each.',
  ['inputs', 'histories'], 'all documents: spacing, multiword tokens, trees, tags, features, absent annotations',
  'tests never compose reader and writer on more than a few fixed texts',
  ['evaluation/conllu_io.py', 'datamodel.py'],
  [('reader', 'evaluation/conllu_io.py:CoNLLUReader'), ('writer', 'evaluation/conllu_io.py:CoNLLUWriter')])

p('C11', 'The evaluation loader accepts exactly valid dependency treebanks',
  'The loader of the evaluation accepts a treebank exactly when every line has ten columns, word numbers outside of multiword tokens '
  'count up from one, every line has a form, every sentence is closed by an empty line and the heads of every sentence form a single-rooted tree; otherwise it raises '
  'its own error. An accepted treebank has one entry per token, word and sentence with spans that count the non-space '
  'characters of the forms, the words of a multiword token share its span, and every word is linked to its head.',
  ['inputs'], 'all head assignments, word numbers, multiword ranges and forms',
  'tests load well-formed texts only',
  ['evaluation/conll17_ud_eval.py'], [('loader', 'evaluation/conll17_ud_eval.py:load_conllu')])

p('C12', 'Evaluation aligns words correctly and counts exactly the correct ones',
  'Two treebanks over the same characters are compared by aligning words with identical spans outside of multiword tokens '
  'and by a longest common subsequence of case-insensitive forms inside; a difference in characters is an error. Every score '
  'is then the ratio of correct items to system items, to gold items, their harmonic mean and the ratio among aligned words, '
  'where a head counts as correct exactly when it is the aligned head (or the root in both).',
  ['inputs'], 'all pairs of tokenisations, multiword splits, tags, heads and relations over the same characters',
  'tests check word counts on a few dozen hand-made pairs, and no tag or head scores',
  ['evaluation/conll17_ud_eval.py'], [('alignment', 'evaluation/conll17_ud_eval.py:evaluate.align_words'),
                                      ('scores', 'evaluation/conll17_ud_eval.py:alignment_score, spans_score, Score')])

p('C13', 'Evaluation scores obey the laws of precision, recall and F1',
  'All scores lie between 0 and 1; comparing a treebank with itself gives 1 for every metric that has anything to count; '
  'swapping gold and system swaps precision and recall and keeps F1 wherever only one alignment is admissible. Requiring more never raises a score: combined tags are '
  'at most each single tag, labelled attachment at most unlabelled attachment, and every metric counted over all words at most the word score.',
  ['inputs'], 'all pairs of treebanks over the same characters',
  'the laws quantify over all pairs of treebanks',
  ['evaluation/conll17_ud_eval.py'], [('scores', 'evaluation/conll17_ud_eval.py:evaluate')])

p('C14', 'A tagger under test never sees the gold annotation and is scored exactly',
  'When a tagger is tested, the documents it receives have the gold text, tokens and sentences but no lemma, part of speech, '
  'head or relation, and arrive once each, in order. The scores returned are those of its output against the unchanged gold '
  'data: a tagger that reproduces the gold gets full scores, and each wrong tag or lemma lowers exactly its own metrics; the '
  'scores are the same whether results are also saved to a file or not.',
  ['inputs', 'configurations'], 'all gold data and all outputs of the tagger, from documents or from files',
  'tests of the tester need a neural back end that is absent',
  ['evaluation/evaluation.py'], [('hiding gold', 'evaluation/evaluation.py:TaggerTester.__prepare_test_data'),
                                 ('scoring', 'evaluation/evaluation.py:TaggerTester.test')])

p('C15', 'Model selection keeps exactly the first best model and disposes of the others',
  'Over any sequence of epoch scores the selected model, its scores and its files are those of the first epoch with the best '
  'score, and over any sequence of hyperparameter sets those of the first best set. Every other epoch or set is disposed of '
  'exactly once, the best one never, and the returned test function evaluates exactly the selected model.',
  ['histories', 'inputs'], 'all sequences of scores over epochs, seeds and hyperparameter sets, including ties',
  'the outcome depends on the whole history of scores',
  ['evaluation/evaluation.py'], [('epochs', 'evaluation/evaluation.py:SingleSeedEvaluator.evaluate'),
                                 ('hyperparameters', 'evaluation/evaluation.py:ParametersEstimator.params_search'),
                                 ('seeds', 'evaluation/evaluation.py:AverageEvaluator.evaluate')])

p('C16', 'Scores are compared by the sum of the chosen metrics and averaged per metric',
  'One result is better than another exactly when the sum of the chosen value over the chosen metrics is strictly greater. '
  'The average of several results is, for each chosen metric and each of its values, the arithmetic mean over all results, '
  'and a value no result has stays absent.',
  ['inputs'], 'all scores, all selections of metrics and values',
  'an arithmetic law over all score tables',
  ['evaluation/evaluation.py'], [('comparison', 'evaluation/evaluation.py:score_comparator'),
                                 ('average', 'evaluation/evaluation.py:get_metrics_averager')])

p('C17', 'A parameter grid expands to exactly all combinations',
  'A valid grid yields one hyperparameter set for every combination of its alternatives, in the order of the grid with the '
  'last parameter varying fastest: the base parameters with exactly the named (nested) values replaced. No set shares '
  'mutable state with another or with the base, an alternative naming a parameter the base does not have is refused, and so '
  'is a grid that varies one parameter in two places or different parameters in one place.',
  ['inputs', 'configurations'], 'all grids and base parameters up to the bound on nesting',
  'tests of the grid need a neural back end that is absent',
  ['evaluation/grid_eval.py'], [('product', 'evaluation/grid_eval.py:main'), ('merge', 'evaluation/grid_eval.py:__merge_dicts'),
                                ('validity', 'evaluation/grid_eval.py:__check_is_grid_valid')])

p('C18', 'Shuffling delivers every document once, reproducibly and near its place',
  'Every pass over a shuffled data set delivers each document of the underlying data exactly once, for every size, batch '
  'size and random choice. Documents move only within consecutive batches of more than half and at most the maximal size, '
  'and two data sets with the same seed and data deliver the same order pass by pass.',
  ['inputs', 'schedules'], 'all random choices, data sizes, batch sizes and numbers of passes',
  'tests use a few seeds',
  ['evaluation/dataset.py'], [('batching', 'evaluation/dataset.py:ShuffledDataset.__iter__')])

p('C19', 'A lemma rule derived from a pair turns that word into that lemma',
  'For every word and lemma, the rule derived from the pair is applicable to the word and yields the lemma; it strips the '
  'longest common prefix and is marked as whole-word exactly when there is none. Applying any rule replaces exactly the word '
  'suffix by the lemma suffix and is refused for words that do not end with it.',
  ['inputs'], 'all words, lemmas and rules up to the length bound',
  'tests check six Ukrainian pairs',
  ['lemmas/transformation_rules.py'], [('derivation', 'lemmas/transformation_rules.py:LemmaSuffixTransformation.get_rule'),
                                       ('application', 'lemmas/transformation_rules.py:LemmaSuffixTransformation.transform')])

p('C20', 'The rule index returns exactly the rules that fit a word',
  'For every set of rules and every word, the index returns exactly the whole-word rules for that very word and the suffix '
  'rules whose suffix is a proper ending of the word, each once with its own number. The rule that was derived from a known '
  'word and its lemma is always among them, and so is marked as applicable in the feature vector of that word.',
  ['inputs'], 'all rule sets and words up to the bounds',
  'tests check four words against one rule set',
  ['lemmas/transformation_rules.py', 'features/extractors.py'],
  [('trie', 'lemmas/transformation_rules.py:LemmaTransformationTrie'),
   ('feature', 'features/extractors.py:ApplicableSuffixTransformations')])

p('C21', 'Padding makes batches rectangular without touching the data',
  'Padding any batch of nested sequences makes all sequences of one level equally long, only by appending padding after the '
  'existing values, and adds no more than needed; mixed nesting is refused. Random sparsification replaces single values '
  'only by the unknown mark, keeps the shape, changes nothing at rate 0 and everything at rate 1.',
  ['inputs', 'schedules'], 'all shapes of nested sequences up to the bound, all values, rates and random draws',
  'no test covers it',
  ['features/builder.py'], [('padding', 'features/builder.py:_pad_sequence'),
                            ('sparsification', 'features/builder.py:_sparse_rate_sequence')])

p('C22', 'Part-of-speech labels decode to the tags they were made from',
  'For every training set and each of the splitting strategies, encoding a tag seen in training and decoding the result '
  'gives the same tag back, labels lie within the announced sizes, and distinct seen tags get distinct labels. An unseen '
  'component is encoded as the most frequent one, and decoding sets the tag of the word and nothing else.',
  ['inputs', 'configurations'], 'all training sets up to the bound, all splitting strategies, tags with absent parts',
  'no test covers it',
  ['features/extractors.py'], [('splitting', 'features/extractors.py:PosNoSplitter, PosXFSplitter, PosUXFSplitter, PosGranularSplitter'),
                               ('codec', 'features/extractors.py:PosDictFeatureExtractor, PosDictInterpreter')])

p('C23', 'Lemma labels decode to the lemmas they were made from',
  'For every training set, encoding the lemma of a training word and decoding the label for the same word gives that lemma '
  'back: with the lemma dictionary exactly, with suffix rules (those more frequent than the threshold) in lower case, '
  'with the character coding up to the length limit and without characters rarer than required. Labels lie within the announced sizes, a rule that does not fit leaves the lower-cased word, and decoding sets '
  'the lemma and nothing else.',
  ['inputs', 'configurations'], 'all training words and lemmas up to the bound, all codings, thresholds and length limits',
  'no test covers it',
  ['features/extractors.py'], [('dictionary', 'features/extractors.py:LemmaDictFeatureExtractor, LemmaDictInterpreter'),
                               ('rules', 'features/extractors.py:SuffixTransformationFeatureExtractor, SuffixTransformationInterpreter'),
                               ('characters', 'features/extractors.py:LemmaCharExtractor, LemmaCharInterpreter')])

p('C24', 'Word and character features index exactly the vocabulary',
  'Every vocabulary entry gets its own number, numbers are contiguous after the reserved ones and stay below the announced '
  'size, everything outside of the vocabulary gets the unknown number, and lower-casing is applied exactly when requested. '
  'Embedding rows are delivered for exactly the numbers of their words with their own vectors plus a zero row for padding; '
  'inconsistent vector sizes are refused; words below the frequency threshold are not in the vocabulary; character sequences '
  'are framed by start and end marks.',
  ['inputs', 'configurations'], 'all training texts, embedding files, thresholds and queries up to the bounds',
  'no test covers it',
  ['features/extractors.py'], [('embedding file', 'features/extractors.py:_read_embeddings, EmbeddingInitializer'),
                               ('words', 'features/extractors.py:WordEmbeddingFeatureExtractor, TrainableEmbeddingsExtractorBuilder'),
                               ('characters', 'features/extractors.py:TokenCharactersFeatureExtractorBuilder, SubwordFeatureExtractor')])

p('C25', 'Merging feature extractors gives all their features, once, in shape',
  'However feature and label extractors are wrapped and merged, the result delivers, for every batch of sentences, exactly '
  'the features of each of them, per sentence and word in order, equal to what each delivers alone; two extractors for one '
  'name are refused. Interpreting a batch of predictions applies every interpreter to the right word of the right sentence, '
  'and announced shapes and initial values are the union of those of the parts.',
  ['inputs', 'configurations'], 'all selections and orders of extractors, all batches up to the bound',
  'no test covers it',
  ['features/builder.py', 'features/provider.py'],
  [('merging', 'features/builder.py:merge'), ('batches', 'features/builder.py:IterableFeatureExtractor, IterableInterpreter'),
   ('composition', 'features/builder.py:CompositeFeatureExtractor, CompositeInterpreter, CompositeInitializer')])

p('C26', 'Neural tagging annotates every word with its own prediction and nothing else',
  'For every stream of documents and every prediction of the network, tagging yields one document per input, lazily and in '
  'order, with the same text, tokens, sentences and syntax, where each word carries exactly what was predicted for it. '
  'Padding in a prediction never reaches a word, and the network is asked once per sentence with the features of that sentence. '
  'A tagger used through its saved form does the same and releases the network exactly once, also when the stream fails or is abandoned.',
  ['inputs', 'histories'], 'all documents and predictions up to the bound (the network itself is an arbitrary function)',
  'the neural back end is absent, so no test runs',
  ['neural/tagger/neural_tagger.py', 'features/builder.py'],
  [('tagging loop', 'neural/tagger/neural_tagger.py:NeuralTagger.tag')])

p('C27', 'Conversion to and from the external tagger keeps words and annotations aligned',
  'Each sentence is handed to the external pipeline as its words in order with exactly the lemmas, tags and features they have, and each '
  'result is put back on the word it belongs to: lemma, tags, features, head and relation, with empty meaning absent and the '
  'root marked as root. Text, tokens, multiword structure and sentences of the document never change.',
  ['inputs'], 'all documents and all results of the external pipeline (an arbitrary function) up to the bound',
  'the external package is absent, so no test runs',
  ['wrappers/udpipe1_2.py'], [('conversion', 'wrappers/udpipe1_2.py:convert_to_ud, convert_from_ud'),
                              ('document loop', 'wrappers/udpipe1_2.py:_AbstractUDPipeProcessor._process')])

p('C28', 'Pipelines apply their processors in order and baselines annotate every word',
  'A composed pipeline yields, for every stream, what applying its processors one after another yields, one document per '
  'input in order, and enters and leaves every processor exactly once. The baseline tagger gives every word the most frequent '
  'training tag and its own text as lemma, the baseline parser chains every sentence from its first word as root; neither '
  'changes anything else.',
  ['inputs', 'histories'], 'all documents, training data and compositions up to the bound',
  'tests never run the baselines or pipelines',
  ['processor.py', 'tagger.py', 'parser.py'],
  [('pipeline', 'processor.py:DocumentComplexProcessor'), ('baseline tagger', 'tagger.py:StubTagger, StubTaggerTrainer'),
   ('baseline parser', 'parser.py:StubParser')])

p('C29', 'Training shows every sentence once per epoch and reports every epoch',
  'In every epoch the network is trained on each training sentence exactly once, in order, in batches of the requested size '
  'except possibly the last, with features and labels of the same sentences, the requested dropout and the current learning '
  'rate. Every epoch is saved under its own name, evaluated and reported once in order (any loss printed for it is the average of its batches), and the learning rate follows the '
  'decay rule, decreased additionally exactly after epochs that are no better than the previous one and the recent average.',
  ['inputs', 'histories'], 'all training data, batch sizes, numbers of epochs and sequences of scores up to the bound',
  'the neural back end is absent, so no test runs',
  ['neural/tagger/neural_tagger.py'], [('minibatches', 'neural/tagger/neural_tagger.py:_get_minibatches'),
                                       ('epochs', 'neural/tagger/neural_tagger.py:NeuralTaggerTrainer.train, _train_epoch, _get_lr')])

p('C30', 'The network computes what its configuration describes',
  'For every batch, a network built from its configuration computes the described function of its inputs and parameters. Every '
  'configured word feature (pretrained or trained word embeddings, optionally through a dense layer; characters, byte-pair and '
  'morpheme pieces aggregated by average over the own pieces of the word, convolutions with max pooling, recurrent layers or '
  'self-attention, optionally with a highway layer) is part of the word representation, in the fixed order of the features and no '
  'matter how the configuration is ordered; pretrained embeddings are those given at initialisation and trainable only if '
  'configured. The sentence level (bidirectional layers limited to the real length of each sentence, dilated convolutions, '
  'skip connection by sum or concatenation) follows the configuration, and impossible configurations (no layers, unknown skip '
  'connection, sum of different sizes, missing convolutions) are refused with ValueError. Every label part has its own logits and '
  'its own predicted label, the largest logit; rules that are not applicable to a word are not predicted if any is. The loss is '
  'the sum over parts of the mean over real words - padding never counts - weighted by loss_weights, without which all parts '
  'weigh the same; the lemma transducer pads or cuts words to max_word_length. Dropout acts in training only.',
  ['inputs', 'configurations'], 'all inputs, labels, masks, embeddings and loss weights of the bounded networks',
  'no test builds a network, its inputs are unbounded, and a wrong mask or weight still trains',
  ['neural/utils.py', 'neural/tagger/shared_builders.py', 'neural/tagger/task_builders.py'],
  [('layers', 'neural/utils.py'), ('word representation', 'neural/tagger/shared_builders.py:WECharCNNSharedNetworkBuilder'),
   ('sentence level', 'neural/tagger/shared_builders.py:CharCNNBiLSTMSharedNetworkBuilder, DilatedCNNSharedNetworkBuilder, CharCNNBiLSTMCNNSharedNetworkBuilder'),
   ('tasks', 'neural/tagger/task_builders.py')])

p('C31', 'Subword segmentation by trained segmenters loses no characters',
  'Whatever pieces a trained byte-pair or morpheme model cuts a word into, the segmenter returns exactly these pieces in order, '
  'without the mark of the word boundary in front of the first one (a piece that consists of the mark alone disappears), so that '
  'they concatenate to the word; a word for which the model yields no pieces has no segments. Word features number the pieces and '
  'lemma labels made of pieces decode to the lemma.',
  ['inputs'], 'all words and all ways a model may cut them',
  'models are downloaded or trained, no test loads one; where a model cuts is arbitrary',
  ['features/extractors.py'], [('segmenters', 'features/extractors.py:TokenBPESegmenter, TokenMorfessorSegmenter, TokenCharSegmenter'),
                               ('features of pieces', 'features/extractors.py:SubwordFeatureExtractor, LemmaCharExtractor')])

p('C32', 'The graph-parser wrapper puts predictions back on their words',
  'The wrapper of the external neural parser hands over every sentence of all documents with its annotations, and whatever '
  'batches and order the parser chooses puts every prediction (tags, lemma, features, head, relation and requested network layers) '
  'back on the word and sentence it was made for, keeping text, sentences, spans and other extras; an annotation the network '
  'neither predicts nor passes through is absent. Calls are independent of each other, also after a failed one, and the session '
  'lives exactly as long as the context: outside of it processing is refused.',
  ['inputs', 'histories'], 'all documents, predictions, batchings and orders of sentences, sequences of calls with failures',
  'the external parser is a submodule that is absent, so no test runs the wrapper',
  ['wrappers/tdozat.py'], [('wrapper', 'wrappers/tdozat.py:TDozatDocumentProcessor'), ('hand-over', 'wrappers/tdozat.py:_DocumentDataset.itersents')])

p('C33', 'A model is fed, trained, stored and restored faithfully',
  'Features and labels reach the inputs of the network by name and a name the network does not have is refused. A training call '
  'makes exactly one step of the configured optimizer (GD, Adam, RMSProp; any other is refused with ValueError) with the given '
  'learning rate and gradients of the total loss, clipped together to norm 5, for all trainable variables, and returns that loss, the sum of '
  'the losses of all tasks; every task gets the shared inputs, its own inputs and its own labels. Predicting changes nothing, '
  'needs no labels and applies no dropout. Initialisation first resets all variables and then writes the given rows of each '
  'embedding matrix, in the order shared part, tasks; other rows stay. The configured seed is set in the graph of the network. A '
  'saved model restored from its directory has the same variables, predictions, training behaviour and initialisers, in a session '
  'of its own; a failed load leaves no session open, and a model closes its session at the end of its context. Builders are found '
  'by the names of the README and get their config and features_config.',
  ['inputs', 'histories', 'configurations'], 'all values, names, task counts and histories of train, predict, save and load up to the bound',
  'the neural back end is absent, so no test builds, trains or restores a model',
  ['neural/network.py', 'neural/model.py', 'neural/initializers.py', 'neural/tagger/network_provider.py'],
  [('network', 'neural/network.py:MultitaskNetworkBuilder, NeuralNetwork, NeuralNetworkMapping'), ('model', 'neural/model.py:Model'),
   ('initialisers', 'neural/initializers.py:GlobalInitializer, MatrixInitializer'), ('names', 'neural/tagger/network_provider.py:get_nn_builder')])

p('C34', 'Every documented configuration trains, is restored and tags as learned',
  'With every builder, word feature, shared part and splitting the README documents, alone or combined, a tagger can be trained on '
  'annotated documents, saved, restored and used. Whatever the parameters of the trained network are, each word of a document - known '
  'or never seen - gets, for each configured task, an annotation made of what training showed: a joint tag is a tag of the training '
  'data, parts of a split tag are parts seen there, a lemma of the dense lemmatiser is a lemma seen, a lemma by rule is the result of a '
  'learned rule that applies to the word (or the word itself), a lemma of the transducer consists of seen letters within the maximum '
  'length. The tasks that are not configured, the text, the sentences and the syntax stay as they are, and no session stays open. In '
  'training, each batch of each epoch feeds the words of its sentences with the labels of these very words, and every parameter is '
  'trained except for pretrained vectors configured not to be.',
  ['inputs', 'configurations'], 'all parameters of the last layer, words outside of the training data, configurations',
  'the neural back end is absent, so no test trains a configured tagger',
  ['neural/tagger/task_builders.py', 'neural/tagger/shared_builders.py', 'neural/tagger/neural_tagger.py', 'features/provider.py'],
  [('trainer', 'neural/tagger/neural_tagger.py:NeuralTaggerTrainer'), ('task builders', 'neural/tagger/task_builders.py'),
   ('shared builders', 'neural/tagger/shared_builders.py')])

p('C35', 'An experiment follows its settings, method and hyperparameters',
  'For every settings file, method and hyperparameters file, the evaluation command trains with the named method (stub, neural or '
  'neural_pretrained; any other is refused before anything is trained) once for each hyperparameter set and seed, on exactly the '
  'documents of train_set, in order or shuffled by the configured seed and batch size. Each model is tested on dev_set, the selected ones '
  'on test_set if there is one. The selection depends on the sum of the compared value over the compared fields (averaged over the seeds) '
  'alone, whichever fields are printed; printed tables have exactly the printed fields, in order, with their values in percent. '
  'Results are saved exactly where results_path says and show what was predicted. Models stay unless their removal was asked for; '
  'other files are never removed. The stub method tags every word with the most frequent tag and takes the word as its lemma; '
  'neural_pretrained evaluates the models an earlier experiment left.',
  ['inputs', 'configurations'], 'all qualities of models, choices of fields, values, seeds, sets, files and options up to the bound',
  'no test runs an experiment; the number of combinations of fields, seeds, sets and qualities is large',
  ['evaluation/evaluation.py', 'evaluation/trainers.py', 'evaluation/dataset.py', 'tagger.py'],
  [('command', 'evaluation/evaluation.py:main, _build_parser, _parse_arguments'), ('estimator', 'evaluation/evaluation.py:__build_estimator, __build_tester, __build_dataset'),
   ('methods', 'evaluation/trainers.py:get_trainer'), ('printing', 'evaluation/evaluation.py:get_metrics_printer'), ('stub', 'tagger.py:StubTaggerTrainer')])

p('C36', 'The comparison script reports exactly the scores of the two files',
  'Run on a gold file and a system file, the comparison script reports the scores of the system file against the gold file as '
  'computed from their contents: LAS F1 alone by default, all metrics in percent when verbose, and with a file of weights WeightedLAS '
  'as well, computed with exactly the weights of the file (1 for a relation not listed). In a weights file comments and empty lines do '
  'not count, every other line holds a relation and its weight, the last one wins, and any other line is refused with ValueError. '
  'Options may stand anywhere. Nothing is reported when a file is not valid or the texts differ: the error of the loader is raised.',
  ['inputs'], 'all heads, relations, tags, lemmas, weights and lines up to the bound',
  'the script and its weights are not covered by any test',
  ['evaluation/conll17_ud_eval.py'],
  [('weights', 'evaluation/conll17_ud_eval.py:load_deprel_weights'), ('files', 'evaluation/conll17_ud_eval.py:load_conllu_file, evaluate_wrapper'),
   ('report', 'evaluation/conll17_ud_eval.py:main')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
