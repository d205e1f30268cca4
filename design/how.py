HOW = {
'C01': 'Symbolic: spans, word numbers and multiword marks of up to four tokens, the order of the list, sentence boundaries. Oracle: the rule itself as one formula over all pairs of tokens (overlap, same span, numbers 0..k) and over sentence spans (partition); acceptance must coincide with it, refusal must be ValueError, and the accepted document holds the tokens sorted. Tests build seven documents.',
'C02': 'Symbolic: the head (or its absence) of every word, notation and sentence lengths. Oracle: reachability of the root from every word within n steps, written as a formula; single root; heads inside of the sentence. Covers all (n+2)^n head assignments at once.',
'C03': 'Symbolic: heads, the notation used for each word, sentence boundaries. Oracle: arithmetic (document index = sentence start + sentence index); navigation `head` must reach the word of that index both ways; contradictory pairs refused.',
'C04': 'Symbolic: presence and value of every annotation, the sequence of derivations, the order and spans of the new tokens, dictionaries mutated afterwards. Oracle: a record of every visible component before; after the derivation only the named ones may differ, and the original object is compared component by component.',
'C05': 'Symbolic: every component (present, absent, value) of pairs and triples of Pos, rules, tokens, sentences and documents. Oracle: equality of the tuples of visible components; hash and order laws (trichotomy, transitivity, compatibility) as assertions.',
'C06': 'Symbolic: spans, text characters, sentence boundaries, multiword groups, indices. Oracle: positions in the list of tokens and slices of the text.',
'C07': 'Symbolic: kind of every line (word, multiword token of 1 to 3, empty node, comment), all field contents, heads, space marks, selection of columns, line ends, source. Oracle: the list of rows the text was written from; text offsets are recomputed from forms and space marks.',
'C08': 'Symbolic: numbers of sentences, their kind and the limit. Oracle: chunking of the list of sentences; the same file read with another limit gives the same sentences. Includes the documented default of the limit.',
'C09': 'Symbolic: documents with every grouping, spacing, tree and annotation, selection of columns, sequences of documents. Oracle: an independent formatter of expected lines (`props/conllu.py`) that works from spans, not from the writer\'s state machine.',
'C10': 'Composition of the real writer with the real reader and the other way round on symbolic documents. Oracle: the identity (component by component, as `Document.__eq__` has a known defect).',
'C11': 'Symbolic: heads, word numbers, multiword ranges, number of columns, forms, end of file. Oracle: the acceptance rule as a formula; spans counted from forms; links to heads.',
'C12': 'Symbolic: both tokenisations of the same characters, multiword splits, case of inner forms, tags, heads. Oracle: `props/evalspec.py`, an alignment computed from the definition (equal spans outside, any longest common subsequence inside maximal multiword regions) and counts over it. The known finding below is excluded by its label and shape only.',
'C13': 'Two symbolic treebanks, evaluated both ways and with themselves; the laws are assertions over exact fractions.',
'C14': 'A recording tagger receives what the tester hands over and returns arbitrary annotations. Oracle: the gold data read separately, scores from the definition, and equality of scores with and without a result file. The evaluation script itself is executed, not stubbed.',
'C15': 'Symbolic scores of all epochs, seeds and sets; trainers and testers are recorders. Oracle: index of the first maximum; disposal calls counted.',
'C16': 'Symbolic fractions; oracle: exact arithmetic on them.',
'C17': 'Symbolic values in grids of every shape up to the bound; the real `main` is run with recorded search. Oracle: the product of alternatives applied to a deep copy, one by one; aliasing between sets is detected by mutating one afterwards.',
'C18': 'Symbolic: every answer of the random generator, sizes. Oracle: permutation, bound on displacement by the batch size, equal seed implies equal order on every pass.',
'C19': 'Symbolic word and lemma characters. Oracle: concatenation and the longest common prefix as formulas.',
'C20': 'Symbolic rules and words, training words and thresholds. Oracle: filter of all rules by applicability; counts of words per rule.',
'C21': 'Symbolic lengths, values, rates and random draws. Oracle: position by position; padding is 0 and every list is as long as the longest of its level.',
'C22': 'Symbolic tags of the training data and of the queried word, each strategy. Oracle: decode(encode(tag)) = tag for seen tags, unseen ones to the unknown label; labels within the announced range.',
'C23': 'As C22 for lemmas: dense, rules, binary rules and letter codes, with thresholds and length limits. Oracle: the rule derived by definition, applicability, and cutting to the length limit.',
'C24': 'Symbolic contents of an embedding file (read from the virtual file system), training text, query words. Oracle: the file parsed by definition; counts; index in the sorted vocabulary only through observable equality of numbers, never their order.',
'C25': 'Symbolic values of arbitrary extractors and labels; every merge order and nesting up to the bound. Oracle: each extractor alone.',
'C26': 'The network is an arbitrary function (symbolic predictions with padding). Oracle: document in, prediction out, word by word; counting of sessions and of requests; laziness by interleaving; failures injected in the stream.',
'C27': 'The external pipeline is an arbitrary function on recorded sentences. Oracle: word-by-word comparison of what was handed over and of what came back.',
'C28': 'Recording processors and symbolic documents/tags. Oracle: composition of functions; most frequent tag; chain.',
'C29': 'Symbolic scores (drive the decay), sizes of batches and data; the network is a recorder. Oracle: batches recomputed from the sentences; learning rate by the documented formula in exact fractions; the order of save, evaluate and report.',
'C30': 'Networks are built by the real builders on tfmini and evaluated on symbolic inputs, labels, masks and embedding values. Oracle: a second, direct definition of each feature, aggregator, layer and loss (`Ref` and friends in `props/c30.py`) evaluated on the same inputs; equality of all outputs and losses, up to renaming of dimensions. Independence of padding and of the order of the configuration are separate assertions.',
'C31': 'Symbolic words and pieces (every way to cut), oracle: concatenation and the list of pieces.',
'C32': 'Symbolic predictions, and every batching and order of sentences of a stand-in parser; histories of two calls with a failure. Oracle: the prediction made for (sentence, word) by construction.',
'C33': 'Symbolic values and rates through real `NeuralNetwork`, `Model` and builder code on tfmini; optimizer steps are recorded. Oracle: records of feeding, step, clipping, loss; equality before and after save/load; sessions counted.',
'C34': 'Whole pipeline per documented configuration: training on symbolic labels, saving, restoring, tagging of an unseen symbolic word with arbitrary weights of the last layer. Oracle: membership of every prediction in what training showed, recomputed from the training documents.',
'C35': 'The command itself - argument parser, settings, estimator, testers, real evaluation - on files of a virtual file system; only the training of networks is replaced, by models of arbitrary quality (numbers of right tags and lemmas are symbolic and drive the real scores). Oracle: first best by the sums of the qualities; records of what was trained and tagged on what; printed numbers parsed and compared with the qualities; the listing of files.',
'C36': 'The script itself on files with symbolic tags, lemmas, heads, relations and weights, with every order of options; what it prints is captured. Oracle: the scores of `evaluate` on the same contents (the subject of C12, C13), weights by construction of the lines.',
}
