"""CoNLL-U text from a description and what must be read from it"""
from props.common import pos_key

ID, FORM, LEMMA, UPOS, XPOS, FEATS, HEAD, DEPREL, DEPS, MISC = range(10)


def line(**k):
    cols = ['_'] * 10
    for n, v in k.items():
        cols[{'id': 0, 'form': 1, 'lemma': 2, 'upos': 3, 'xpos': 4, 'feats': 5, 'head': 6, 'deprel': 7, 'deps': 8,
              'misc': 9}[n]] = v
    return '\t'.join(cols)


def word(i, form, head, **k):
    return line(id=str(i), form=form, head=str(head), **k)


class Spec(object):
    """what a document must hold"""

    def __init__(self):
        self.text = ''
        self.tokens = []        # dict(start, end, sub, multi, text, lemma, pos, head, deprel)
        self.sentences = []
        self.first = 0

    def token(self, form, space, **k):
        s = len(self.text)
        self.text = self.text + form
        self.tokens.append(dict(start=s, end=s + len(form), sub=0, multi=False, form=form, **k))
        if space:
            self.text = self.text + ' '

    def multi(self, form, space, words):
        s = len(self.text)
        self.text = self.text + form
        for i, w in enumerate(words):
            self.tokens.append(dict(w, start=s, end=s + len(form), sub=i, multi=True))
        if space:
            self.text = self.text + ' '

    def end(self):
        self.sentences.append([self.first, len(self.tokens)])
        self.first = len(self.tokens)


def matches(h, doc, spec, label=''):
    """doc holds exactly what spec says (heads: per sentence, 0 root, None absent)"""
    n = len(spec.tokens)
    h.check(label + 'text', h.same(doc.text, spec.text), [doc.text])
    h.check(label + 'number of words', doc.tokens_count == n)
    h.check(label + 'sentences', h.same([[b.start, b.end] for b in doc.sentences_boundaries], spec.sentences))
    toks = list(doc.tokens)
    for t, w in zip(toks, spec.tokens):
        h.check(label + 'span', h.all([t.start == w['start'], t.end == w['end']]))
        h.check(label + 'multiword', h.all([h.iff(t.is_multiword, w['multi']), t.sub_index == w['sub']]))
        h.check(label + 'form', h.same(t.text, w['form']))
        h.check(label + 'lemma', h.same(t.lemma, w.get('lemma')), [t.lemma])
        h.check(label + 'relation', h.same(t.deprel, w.get('deprel')))
        want = w.get('pos')
        if want is None:
            h.check(label + 'part of speech', t.pos is None)
        else:
            h.check(label + 'part of speech', t.pos is not None and h.same(pos_key(t.pos), want), [t.pos])
    for k, (s, e) in enumerate(spec.sentences):
        sent = doc.get_sentence(k)
        for i, t in enumerate(sent.tokens):
            p = spec.tokens[s + i].get('head')
            if p is None:
                h.check(label + 'no head', h.not_(t.has_head))
            else:
                h.check(label + 'head', h.all([t.has_head, h.iff(t.is_root, p == 0), t.head_index == p - 1]))
