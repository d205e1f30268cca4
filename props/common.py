"""Shared parts of the harnesses: documents from a description, fingerprints, dependency trees."""


def tree_ok(h, n, has, heads):
    """no heads at all, or a tree with a single root: heads[i] in any range, -1 means root; has[i] symbolic"""
    none = h.all([h.not_(x) for x in has])
    return h.any([none, h.all(list(has) + [is_tree(h, n, heads)])])


def is_tree(h, n, heads):
    conds = [h.total([p == -1 for p in heads]) == 1]
    for i in range(n):
        conds.append(h.all([heads[i] >= -1, heads[i] < n]))
    reach = [[heads[i] == j for j in range(n)] for i in range(n)]
    k = 1
    while k < n:
        reach = [[h.any([reach[i][j]] + [h.all([reach[i][m], reach[m][j]]) for m in range(n)])
                  for j in range(n)] for i in range(n)]
        k *= 2
    conds.extend(h.not_(reach[i][i]) for i in range(n))
    return h.all(conds)


def chosen_tree(n, heads):
    """the same for heads that are plain numbers"""
    if [p for p in heads if p < -1 or p >= n] or len([p for p in heads if p == -1]) != 1:
        return False
    good = [p == -1 for p in heads]
    for i in range(n):
        seen = []
        while not good[i] and i not in seen:
            seen.append(i)
            i = heads[i]
        if not good[i]:
            return False
        for j in seen:
            good[j] = True
    return True


def opt_str(h, name, n, alphabet):
    """an absent or present string"""
    if h.bool(name + '?'):
        return h.str(name, n, alphabet)
    return None


def any_str(h, name, lengths, alphabet):
    """absent (length None), empty or present"""
    n = h.choice(name + '#', lengths)
    if n is None:
        return None
    return h.str(name, n, alphabet)


def pos_key(p):
    if p is None:
        return None
    return [p.upos, p.xpos, feats_list(p.feats)]


def feats_list(feats):
    return [[k, v] for k, v in sorted(feats.items())]


def head_indices(t):
    """a plain token shows its head to its own package only"""
    return [getattr(t, '_head_document_index', None), getattr(t, '_head_sentence_index', None)]


def shows_heads(t):
    return hasattr(t, '_head_document_index') and hasattr(t, '_head_sentence_index')


def token_fields(t):
    """everything visible of a plain token"""
    return [t.start, t.end, t.sub_index, t.is_multiword, t.text_replacement, pos_key(t.pos), t.lemma, t.deprel,
            t.has_head, t.is_root]


def doc_fields(doc):
    """everything visible of a document"""
    out = [doc.text, doc.tokens_count, doc.sentences_count]
    for t in doc.tokens:
        out.append(token_fields(t) + [t.head_index, t.text])
    for s in doc.sentences:
        out.append([s.tokens_count, s.text] + [t.head_index for t in s.tokens])
    for b in doc.sentences_boundaries:
        out.append([b.start, b.end])
    return out


def structure(doc):
    """text, tokens and sentences without annotation"""
    out = [doc.text, doc.tokens_count, doc.sentences_count]
    for t in doc.tokens:
        out.append([t.start, t.end, t.sub_index, t.is_multiword, t.text_replacement, t.text])
    for b in doc.sentences_boundaries:
        out.append([b.start, b.end])
    return out


def syntax(doc):
    return [[t.has_head, t.is_root, t.head_index, t.deprel] for t in doc.tokens] + \
        [[t.head_index for t in s.tokens] for s in doc.sentences]


def morphology(doc):
    return [[pos_key(t.pos), t.lemma] for t in doc.tokens]
