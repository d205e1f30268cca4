From 94baf9deab9f9fade0db3fe8094d45a3cac75249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 01/28] fix: head of a token given in the document notation
 could be taken for a root

---
 babylondigger/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 75a6554..d36a15e 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -240,6 +240,9 @@ class Token(object):
         elif head_document_index != head_sentence_index + sentence_start:
             raise ValueError('Broken token {}. Mismatch syntactic head (document view: {}, sentence view: {}, sentence start: {})'
                              .format(token, head_document_index, head_sentence_index, sentence_start))
+        if head_document_index == -1 or head_sentence_index == -1:  # -1 is reserved for roots
+            raise ValueError('Broken token {}. Syntactic head refers outside of the sentence (sentence start: {})'
+                             .format(token, sentence_start))
         return token.with_syntax(token, token.__deprel, head_document_index=head_document_index, head_sentence_index=head_sentence_index)
 
 
-- 
2.43.0


From 9ab6b179ec8143a2ae8ad01fbc6d2ae62c5ada6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 02/28] fix: document with tokens and empty list of sentences
 failed with IndexError

---
 babylondigger/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index d36a15e..2bfca5a 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -442,6 +442,9 @@ class Document(_WordList):
             self.__sentences = []
             return
 
+        if not sentences:
+            raise ValueError('there are some tokens outside of the sentence (tokens: {})'.format(self._tokens))
+
         if sentences[-1].end > len(tokens):
             raise ValueError('sentence refers to nonexistent token (sentence: {}, tokens count: {})'
                              .format(sentences[-1], len(tokens)))
-- 
2.43.0


From 8b49d4bfbba98d47a3cb2441ba2073f185a2a315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 03/28] fix: first multiword token of a document could be
 skipped

---
 babylondigger/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 2bfca5a..6ec97d4 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -467,6 +467,9 @@ class Document(_WordList):
                              .format(sentences[index], sentences[index + 1]))
         self.__sentences = tuple(sentences)
 
+        if self._tokens[0].sub_index != 0:
+            raise ValueError('multiword token is skipped (before {})'.format(self._tokens[0]))
+
         if validate_syntax:
             self.__validate_syntax()
 
-- 
2.43.0


From 0f6a838f50c6202d5ce9222da820d51f7084db75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 04/28] fix: comparison of token extras with foreign object
 failed with TypeError

---
 babylondigger/datamodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 6ec97d4..fe910b2 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -69,7 +69,7 @@ class TokenExtras(object):
     def __eq__(self, other):
         if isinstance(other, TokenExtras):
             return self.__extras == other.__extras
-        raise NotImplemented
+        return NotImplemented
 
     def as_dict(self):
         return deepcopy(self.__extras)
-- 
2.43.0


From a859128f69ddfe0af2eddd5231f53952ec3bd75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 05/28] fix: parts of speech with and without xpos (upos) were
 not comparable

---
 babylondigger/datamodel.py           | 6 +++++-
 babylondigger/features/extractors.py | 9 ++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index fe910b2..96b73b5 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -41,11 +41,15 @@ class Pos(object):
     def __lt__(self, other):
         if not isinstance(other, Pos):
             return NotImplemented
-        return self.__tuple_view() < other.__tuple_view()
+        return self.__order_key() < other.__order_key()
 
     def __hash__(self):
         return hash(self.__tuple_view())
 
+    def __order_key(self):
+        upos, xpos, feats = self.__tuple_view()
+        return (upos is not None, upos), (xpos is not None, xpos), feats
+
     def __tuple_view(self):
         return self.__upos, self.__xpos, tuple(sorted(self.__feats.items()))
 
diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index 873af00..b3c0806 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -615,11 +615,18 @@ def _id2obj(labels_counts: Dict[__T, int], threshold=0) -> List[__T]:
         objects = filter(lambda item: item[1] > threshold, objects)
     objects = map(lambda item: item[0], objects)
     objects = filter(lambda obj: obj != most_common, objects)
-    id2obj = sorted(objects, key=lambda x: (x is not None, x))
+    id2obj = sorted(objects, key=_sort_key)
     id2obj.insert(0, most_common)
     return id2obj
 
 
+def _sort_key(obj):
+    # None goes first (on each level)
+    if isinstance(obj, tuple):
+        return True, tuple(map(_sort_key, obj))
+    return obj is not None, obj
+
+
 def _obj2id(id2obj: List[__T]) -> Dict[__T, int]:
     return {obj: i for i, obj in enumerate(id2obj)}
 
-- 
2.43.0


From 4fe40013722702cca1cc8f07873b7aacf09b692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 06/28] fix: multiword token at the end of a sentence was
 written again in the next one

---
 babylondigger/evaluation/conllu_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index fd99f75..646846e 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -222,6 +222,7 @@ class _RegularTokenWriterState(_AbstractWriterState):
         super().write_end_of_sentence()
         self.__file.write("\n")
         self.__index = 0
+        return self
 
     def write_to_file(self, line):
         self.__file.write(line)
@@ -304,7 +305,7 @@ class CoNLLUWriter(object):
         for sentence in doc.sentences:
             for token in sentence:
                 state = state.write_token(token)
-            state.write_end_of_sentence()
+            state = state.write_end_of_sentence()
 
 
 def to_conll(column_extractors, index: int, token: NavigableToken, write_space_after: bool = True, fake_heads: bool = True) -> List[str]:
-- 
2.43.0


From b49baa36f616d15634c392c893529e0a91340770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 07/28] fix: empty node inside of a multiword token was taken
 for its word

---
 babylondigger/evaluation/conllu_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index 646846e..fbd7e64 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -86,6 +86,8 @@ class _MultiWordReaderState(_AbstractReaderState):
         self._token_end = token_end
 
     def _process_token(self, parsed_token: 'InternalToken') -> _AbstractReaderState:
+        if '.' in parsed_token.id:  # empty token
+            return self
         self._tokens.append(Token(start=self._token_start, end=self._token_end,
                                   pos=parsed_token.pos, lemma=parsed_token.lemma,
                                   head_sentence_index=self._compute_head(parsed_token.head), deprel=parsed_token.deprel,
-- 
2.43.0


From b9bb3d565ebbe3792064cac94bec928f3e7bcb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 08/28] fix: MISC entry without value failed with IndexError

---
 babylondigger/evaluation/conllu_io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index fbd7e64..811f573 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -173,7 +173,7 @@ def _line_parser(columns: Set[int]):
             lemma=lemma_extractor(token_repr),
             head=head_extractor(token_repr),
             deprel=deprel_extractor(token_repr),
-            space_after=_parse_to_dict(token_repr[MISC]).get("SpaceAfter") is None)
+            space_after=_parse_space_after(token_repr[MISC]))
     return _parse_line
 
 
@@ -184,6 +184,11 @@ def _parse_pos(upos: Optional[str], xpos: Optional[str], feats: Optional[str]) -
     return Pos(upos, xpos, _parse_to_dict(feats))
 
 
+def _parse_space_after(misc: Optional[str]) -> bool:
+    # MISC is free-form: entries are not obliged to have a value
+    return misc is None or all(entry.split("=")[0] != "SpaceAfter" for entry in misc.split("|"))
+
+
 def _parse_to_dict(feats: Optional[str]) -> Dict[str, str]:
     if feats is None:
         return {}
-- 
2.43.0


From d8cb5bc5aaeffc241af26a0b40b54f7042a85ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 09/28] fix: writer without FEATS column failed on tokens with
 part of speech

---
 babylondigger/evaluation/conllu_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index 811f573..c35fe7d 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -320,7 +320,7 @@ def to_conll(column_extractors, index: int, token: NavigableToken, write_space_a
         return s if s is not None else "_"
 
     def __feats_to_string(feats: Dict) -> str:
-        if len(feats) == 0:
+        if not feats:
             return "_"
         return "|".join(sorted("{}={}".format(*item) for item in feats.items()))
 
-- 
2.43.0


From baa7764e9b86914080c99a8c39f814439a2b5629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 10/28] fix: negative HEAD inside of a multiword token was not
 reported

---
 babylondigger/evaluation/conll17_ud_eval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index 3f16d69..a26f073 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -164,6 +164,8 @@ def load_conllu(file):
                     raise UDError("There is a cycle in a sentence")
                 if word.parent is None:
                     head = int(word.columns[HEAD])
+                    if head < 0:
+                        raise UDError("HEAD cannot be negative")
                     if head > len(ud.words) - sentence_start:
                         raise UDError("HEAD '{}' points outside of the sentence".format(word.columns[HEAD]))
                     if head:
-- 
2.43.0


From a0c0cdddf7b5571daf969bec8b24ca9b6d31a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 11/28] fix: average of metrics without aligned accuracy failed
 with TypeError

---
 babylondigger/evaluation/evaluation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index 72346a5..81cc75d 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -230,6 +230,7 @@ def get_metrics_printer(metrics: List[str]):
 
 def get_metrics_averager(metrics: List[str]):
     _Scores = namedtuple('Scores', ['precision', 'recall', 'f1', 'aligned_accuracy'])
+    _Scores.__new__.__defaults__ = (None,)  # some metrics (e.g. Tokens) have no aligned accuracy
 
     def calculate_average_scores(scores):
         sums = {metric: defaultdict(int) for metric in metrics}
-- 
2.43.0


From c04cf5ba5f4b5d21ed43a946f1833538a015c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 12/28] fix: whole word lemma rules were applicable to longer
 words

---
 babylondigger/lemmas/transformation_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/babylondigger/lemmas/transformation_rules.py b/babylondigger/lemmas/transformation_rules.py
index 0b2a905..738fa84 100644
--- a/babylondigger/lemmas/transformation_rules.py
+++ b/babylondigger/lemmas/transformation_rules.py
@@ -128,8 +128,8 @@ class LemmaTransformationTrie(object):
             if child is None:
                 break
             current = child
-
-        _extend(result, current.__exceptions)
+        else:
+            _extend(result, current.__exceptions)
         return result
 
     @classmethod
-- 
2.43.0


From 3d99099207c9be1ac35ffe643c162d80529e744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 13/28] fix: trainable embeddings vocabulary consisted of
 characters and ignored lowercase

---
 babylondigger/features/extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index b3c0806..b52236e 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -122,7 +122,7 @@ class TrainableEmbeddingsExtractorBuilder(builder.FeatureExtractorBuilder[Naviga
         self.__lowercase = lowercase
 
     def build(self, dataset: Iterable[Document]):
-        tokens = chain.from_iterable(_tokens(dataset, lambda token: token.text))
+        tokens = _tokens(dataset, lambda token: token.text.lower() if self.__lowercase else token.text)
         counter = Counter(tokens)
         filtered = map(lambda item: item[0], filter(lambda item: item[1] >= self.__threshold, counter.most_common()))
         word2id = {wr: index for index, wr in enumerate(sorted(filtered), 2)}
-- 
2.43.0


From 337f81f31a288ee776d658bcdda0bde245c3cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 14/28] fix: features could be sparsified with zero rate

---
 babylondigger/features/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/builder.py b/babylondigger/features/builder.py
index 08367c5..0964bc2 100644
--- a/babylondigger/features/builder.py
+++ b/babylondigger/features/builder.py
@@ -185,7 +185,7 @@ class SparseFeatureExtractor(FeatureExtractorInterface[_T, _V]):
 
 def _sparse_rate_sequence(input_, sparse_rate):
     if isinstance(input_, int):
-        return input_ if random.random() > sparse_rate else OOV
+        return input_ if random.random() >= sparse_rate else OOV
     elif isinstance(input_, list):
         return [_sparse_rate_sequence(el, sparse_rate) for el in input_]
     else:
-- 
2.43.0


From b13643336ffa15e64f80b318b8ddb07dc01d4d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:30 +0000
Subject: [PATCH 15/28] fix: unparsable HEAD inside of a multiword token was
 not reported as UDError

---
 babylondigger/evaluation/conll17_ud_eval.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index a26f073..8b5623a 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -163,7 +163,10 @@ def load_conllu(file):
                 if word.parent == "remapping":
                     raise UDError("There is a cycle in a sentence")
                 if word.parent is None:
-                    head = int(word.columns[HEAD])
+                    try:
+                        head = int(word.columns[HEAD])
+                    except ValueError:
+                        raise UDError("Cannot parse HEAD '{}'".format(word.columns[HEAD]))
                     if head < 0:
                         raise UDError("HEAD cannot be negative")
                     if head > len(ud.words) - sentence_start:
-- 
2.43.0


From 148de0c03303e43701d2a4415af5e85448454d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:29 +0000
Subject: [PATCH 16/28] fix: hyperparameter sets of a grid shared values and
 overwrote each other's parameters

---
 babylondigger/evaluation/grid_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/grid_eval.py b/babylondigger/evaluation/grid_eval.py
index d435658..1ad2717 100644
--- a/babylondigger/evaluation/grid_eval.py
+++ b/babylondigger/evaluation/grid_eval.py
@@ -10,7 +10,7 @@ def __merge_dicts(hyper_dict, grid_dict):
             if isinstance(hyper_dict[key], dict) and isinstance(grid_dict[key], dict):
                 __merge_dicts(hyper_dict[key], grid_dict[key])
             else:
-                hyper_dict[key] = grid_dict[key]
+                hyper_dict[key] = copy.deepcopy(grid_dict[key])
         else:
             raise ValueError("Undefined parameter: {}".format(key))
     return hyper_dict
-- 
2.43.0


From cbc46aeb01bfa5f91848e8e07edf6832d3f08ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:49 +0000
Subject: [PATCH 17/28] fix: BPE segmenter fails on tokens for which the model
 yields no pieces

sentencepiece drops zero-width and control characters, so encode() of e.g. a
lone U+200B or U+FEFF returns an empty list and subwords[0] raised IndexError.
---
 babylondigger/features/extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index b52236e..5869d9f 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -224,7 +224,7 @@ class TokenBPESegmenter(TokenSubwordSegmenter):
 
     def segment(self, token: str):
         subwords = [ch for ch in self.__bpe.encode(token)]
-        if subwords[0].startswith('\u2581'):
+        if subwords and subwords[0].startswith('\u2581'):
             if len(subwords[0]) > 1:
                 subwords[0] = subwords[0][1:]
             else:
-- 
2.43.0


From 04da801234ab90289bcac7b2edac2ee276aa9ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:35 +0000
Subject: [PATCH 18/28] fix: using the tdozat wrapper outside of its context
 raised AttributeError

The instance has no __name__, so the explanation of the RuntimeError could not
be built.
---
 babylondigger/wrappers/tdozat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/wrappers/tdozat.py b/babylondigger/wrappers/tdozat.py
index 9de721e..b50fdfb 100644
--- a/babylondigger/wrappers/tdozat.py
+++ b/babylondigger/wrappers/tdozat.py
@@ -58,7 +58,7 @@ class TDozatDocumentProcessor(DocumentProcessorInteface):
 
     def process(self, documents: Iterator[Document]) -> Iterator[Document]:
         if self._sess is None:
-            raise RuntimeError(f'Use {self.__name__} as context manager')
+            raise RuntimeError(f'Use {type(self).__name__} as context manager')
         documents_list = list(documents)
         return iter(self.__parse_documents(documents_list))
 
-- 
2.43.0


From 1d7308e9e1f625003df101e2c7529236ef29f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:35 +0000
Subject: [PATCH 19/28] fix: predictions of a failed call of the tdozat wrapper
 shifted the next one

The cached predictions were only dropped after a successful call: after an error
in the middle of the batches (out of memory, for instance) the next documents
received predictions of the sentences of the failed call.
---
 babylondigger/wrappers/tdozat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/wrappers/tdozat.py b/babylondigger/wrappers/tdozat.py
index b50fdfb..82226e8 100644
--- a/babylondigger/wrappers/tdozat.py
+++ b/babylondigger/wrappers/tdozat.py
@@ -89,6 +89,8 @@ class TDozatDocumentProcessor(DocumentProcessorInteface):
     def __parse_documents(self, documents: Iterable[Document]):
         for vocab in self.__network.vocabs:
             vocab.reset()
+        # a call that failed before may have left its predictions behind
+        self.parse_outputs.predictions = {'indices': []}
 
         dataset = _DocumentDataset(documents, self.__network.vocabs, config=self.__config)
         # following code is copy-pasted from tdozat_parser.parser.base_network.BaseNetwork#parse_file
-- 
2.43.0


From 896ac26adbf4ed9ca3ae6de038b278e98d8ffd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:17 +0000
Subject: [PATCH 20/28] fix: sum the losses of the label parts when no loss
 weights are configured

losses is a dictionary; tf.stack needs its values.
---
 babylondigger/neural/tagger/task_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 45a2533..1a3c9c7 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -52,7 +52,7 @@ class DenseTaskNetworkBuilder(AbstractTaskNetworkBuilder):
 
     def _sum_losses(self, losses):
         if self.__loss_weights is None:
-            return tf.reduce_sum(tf.stack(losses), name='loss')
+            return tf.reduce_sum(tf.stack(list(losses.values())), name='loss')
 
         weighted_losses = []
         for loss in losses:
-- 
2.43.0


From 0dc79440cfadb240f43ea81fccaba45efe7068f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:17 +0000
Subject: [PATCH 21/28] fix: task network builders have no initializers by
 default

LemmaSuffixBinaryTaskNetworkBuilder defines none, and the inherited None
made MultitaskNetworkBuilder.build fail for every lemma_binary network.
---
 babylondigger/neural/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/network.py b/babylondigger/neural/network.py
index 96fe062..eb4462e 100644
--- a/babylondigger/neural/network.py
+++ b/babylondigger/neural/network.py
@@ -96,7 +96,7 @@ class AbstractTaskNetworkBuilder(object):
         pass
 
     def initializers(self) -> List['NeuralNetworkInitializer']:
-        pass
+        return []
 
 
 class AbstractSharedNetworkBuilder(object):
-- 
2.43.0


From ddcb39e89d7a572a3be30319e1e22cc4988aec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:17 +0000
Subject: [PATCH 22/28] fix: feature_providers() of a multitask network leaves
 the shared builder's list alone

Every call appended the tasks' providers to the shared builder's own list,
so that a second call returned them twice.
---
 babylondigger/neural/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/network.py b/babylondigger/neural/network.py
index eb4462e..3163534 100644
--- a/babylondigger/neural/network.py
+++ b/babylondigger/neural/network.py
@@ -120,7 +120,7 @@ class MultitaskNetworkBuilder(NeuralNetworkBuilder):
         self._optimizer_dict = config['optimizer']
 
     def feature_providers(self):
-        result = self.__shared_builder.feature_providers()
+        result = list(self.__shared_builder.feature_providers())
         for task_builder in self.__task_builders:
             result.extend(task_builder.feature_providers())
         return result
-- 
2.43.0


From 903d3714c28c71ba15bbe62b13bd65f62ceb7982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 23/28] fix: average the embeddings of a word's own subwords
 only

The sum of the embeddings was divided by the length of the longest word of
the batch, so that the features of a word depended on the other words.
---
 babylondigger/neural/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/neural/utils.py b/babylondigger/neural/utils.py
index 8629a0d..313c13c 100644
--- a/babylondigger/neural/utils.py
+++ b/babylondigger/neural/utils.py
@@ -64,7 +64,8 @@ def subword_average(ids, input_: tf.Tensor, config, feature_name):
     broadcast_mask = tf.broadcast_to(mask, [mask_shape[0], mask_shape[1], mask_shape[2], input_shape[-1]])
     nonzero_input_ = tf.ragged.boolean_mask(input_, broadcast_mask).to_tensor()
     nonzero_input_reshaped = tf.reshape(nonzero_input_, [input_shape[0], input_shape[1], input_shape[2], input_.get_shape().as_list()[-1]])
-    return tf.reduce_mean(nonzero_input_reshaped, axis=-2)
+    subwords_count = tf.reduce_sum(tf.cast(mask, tf.float32), axis=-2)
+    return tf.reduce_sum(nonzero_input_reshaped, axis=-2) / tf.maximum(subwords_count, 1.0)
 
 
 def subword_self_attention(ids, input_: tf.Tensor, config, feature_name):
-- 
2.43.0


From 2fb42ff2035a114a459daacde575a82bf3d2d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:10 +0000
Subject: [PATCH 24/28] fix: averaged scores lacked the compared fields that
 are not printed

---
 babylondigger/evaluation/evaluation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index 81cc75d..99c11fa 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -260,7 +260,9 @@ def main(args):
 
     trainer = get_trainer(args.method)
 
-    metrics_averager = get_metrics_averager(args.settings["metric_printer"]["fields"])
+    # averaged scores are both printed and compared
+    printed, compared = args.settings["metric_printer"]["fields"], args.settings["cmp_metric"]["fields"]
+    metrics_averager = get_metrics_averager(printed + [field for field in compared if field not in printed])
     estimator = __build_estimator(args, metrics_printer, metrics_averager)
     hyperparams = args.hyperparams
     if not isinstance(hyperparams, list):
-- 
2.43.0


From 406516aac6b87a61594669d3dc3441d032920f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:10 +0000
Subject: [PATCH 25/28] fix: evaluation of the stub method failed with
 TypeError

---
 babylondigger/tagger.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/babylondigger/tagger.py b/babylondigger/tagger.py
index 07f3465..d5105fa 100644
--- a/babylondigger/tagger.py
+++ b/babylondigger/tagger.py
@@ -37,9 +37,12 @@ class StubTagger(TaggerInterface):
 
 class StubTaggerTrainer(TaggerTrainerInterface):
 
-    def train(self, documents: Iterable[Document], **kwargs):
+    def train(self, documents: Iterable[Document], dev_tester=None, **kwargs):
         pos = self.get_most_frequent_pos(documents)
-        return [StubTagger(pos)]
+        tagger = StubTagger(pos)
+        if dev_tester is not None:
+            return [(dev_tester(tagger), tagger)]
+        return [tagger]
 
     def get_most_frequent_pos(self, documents: Iterable[Document]) -> Pos:
         tokens = map(lambda document: document.tokens, documents)
-- 
2.43.0


From cce581f10fca563b480fbca32ecc5ac726234545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 26/28] fix: sentences of a document without tokens were
 accepted and forgotten

---
 babylondigger/datamodel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 96b73b5..4599ee5 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -435,14 +435,16 @@ class NavigableSentence(_WordList, _NavigableItem['NavigableSentence']):
 class Document(_WordList):
     def __init__(self, text: str, tokens: List[Token], sentences: Iterable[Sentence] = None, validate_syntax: bool = False):
 
-        if tokens:
-            if sentences is None:
-                sentences = [Sentence(0, len(tokens))]
-            sentences = sorted(sentences, key=attrgetter('start', 'end'))
+        if sentences is None:
+            sentences = [Sentence(0, len(tokens))] if tokens else []
+        sentences = sorted(sentences, key=attrgetter('start', 'end'))
 
         _WordList.__init__(self, text, tokens, lambda token: token._head_document_index, sorted_sentences=sentences)
 
         if len(tokens) == 0:
+            if sentences:
+                raise ValueError('sentence refers to nonexistent token (sentence: {}, tokens count: 0)'
+                                 .format(sentences[-1]))
             self.__sentences = []
             return
 
-- 
2.43.0


From 8ee8757406071564a9a3c949ad1b139c1d86544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:15 +0000
Subject: [PATCH 27/28] fix: a root in one view of the head and a word in the
 other were accepted

---
 babylondigger/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 4599ee5..649a096 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -234,6 +234,9 @@ class Token(object):
         if token.__head_sentence_index is None and token.__head_document_index is None:
             return token
         if token.__head_sentence_index == -1 or token.__head_document_index == -1:
+            if not {token.__head_sentence_index, token.__head_document_index} <= {-1, None}:
+                raise ValueError('Broken token {}. Root in only one view (document view: {}, sentence view: {})'
+                                 .format(token, token.__head_document_index, token.__head_sentence_index))
             return token.with_syntax(token, token.__deprel, head_document_index=-1, head_sentence_index=-1)
         head_document_index = token.__head_document_index
         head_sentence_index = token.__head_sentence_index
-- 
2.43.0


From 66e57adc419461964d701eaf7c24a478aaf274cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 28/28] fix: training of lemma rules with a list of documents
 failed with TypeError

---
 babylondigger/features/extractors.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index 5869d9f..70f7184 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -436,15 +436,17 @@ class CachedSuffixRulesBuilder(object):
 
     def __init__(self, threshold):
         self.__threshold = threshold
-        self.__cache = {}
+        self.__dataset = None
+        self.__rules = None
 
     def build_rules(self, dataset: Iterable[Document]):
-        if dataset not in self.__cache:
+        # data sets are not obliged to be hashable (e.g. list of documents)
+        if self.__rules is None or self.__dataset is not dataset:
             suffix_count = _count_labels(dataset, _suffix_transformation)
             id2suffix = _id2obj(suffix_count, self.__threshold)
             suffix2id = _obj2id(id2suffix)
-            self.__cache[dataset] = (suffix2id, id2suffix)
-        return self.__cache[dataset]
+            self.__dataset, self.__rules = dataset, (suffix2id, id2suffix)
+        return self.__rules
 
 
 class LemmaSuffixTransformationFeatureExtractorBuilder(builder.FeatureExtractorBuilder[NavigableToken, int]):
-- 
2.43.0

