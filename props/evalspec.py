"""What the evaluation must compute: an independent alignment and independent counts"""
import io

from props.conllu import line

METRICS = ['UPOS', 'XPOS', 'Feats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS']
FUNCTIONAL = ('aux', 'case', 'cc', 'clf', 'cop', 'det', 'mark', 'punct')


def W(form, head=None, **k):
    d = dict(form=form, head=head, lemma='_', upos='_', xpos='_', feats='_', deprel='_')
    d.update(k)
    return d


class Bank(object):
    """sentences: [[(token form, [words] or None)]]; a plain token is (None, [word])"""

    def __init__(self, sentences):
        self.sentences = sentences
        self.words = []         # (start, end, multi, word, index of the sentence's first word)
        self.tokens = []
        self.sents = []
        pos = 0
        for toks in sentences:
            first = len(self.words)
            s0 = pos
            for form, ws in toks:
                multi = form is not None
                f = form if multi else ws[0]['form']
                n = len(f)
                self.tokens.append((pos, pos + n))
                for w in ws:
                    self.words.append((pos, pos + n, multi, w, first))
                pos += n
            self.sents.append((s0, pos))

    def text(self):
        out = []
        for toks in self.sentences:
            i = 0
            for form, ws in toks:
                if form is not None:
                    out.append(line(id='%d-%d' % (i + 1, i + len(ws)), form=form))
                for w in ws:
                    i += 1
                    head = w['head'] if w['head'] is not None else i - 1
                    out.append(line(id=str(i), form=w['form'], lemma=w['lemma'], upos=w['upos'], xpos=w['xpos'],
                                    feats=w['feats'], head=str(head), deprel=w['deprel']))
            out.append('')
        return '\n'.join(out) + '\n' if out else ''

    def load(self, ev):
        return ev.load_conllu(io.StringIO(self.text()))

    def parent(self, i):
        """index of the head word, -1 for the root; forks on a symbolic head"""
        w = self.words[i]
        head = w[3]['head']
        if head is None:
            head = i - w[4]
        head = int(head)
        return w[4] + head - 1 if head else -1


def regions(g, s):
    iv = sorted(set([(w[0], w[1]) for w in g.words if w[2]] + [(w[0], w[1]) for w in s.words if w[2]]))
    out = []
    for a, b in iv:
        if out and a < out[-1][1]:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


def _inside(bank, a, b):
    return [i for i, w in enumerate(bank.words) if (w[0] >= a and w[1] <= b)]


def _lcs_all(eq, n, m):
    """all maximal-length common subsequences as lists of pairs"""
    best = {}
    for i in range(n, -1, -1):
        for j in range(m, -1, -1):
            if i == n or j == m:
                best[i, j] = 0
                continue
            b = max(best[i + 1, j], best[i, j + 1])
            if eq[i][j]:
                b = max(b, 1 + best[i + 1, j + 1])
            best[i, j] = b
    res = set()

    def go(i, j, acc):
        if best[i, j] == 0:
            res.add(tuple(acc))
            return
        for x in range(i, n):
            for y in range(j, m):
                if eq[x][y] and best[x + 1, y + 1] + 1 == best[i, j]:
                    go(x + 1, y + 1, acc + [(x, y)])
    go(0, 0, [])
    return [list(r) for r in res]


def alignments(g, s):
    """every admissible alignment: list of lists of (gold index, system index)"""
    reg = regions(g, s)
    ing, ins = set(), set()
    alts = [[]]
    for a, b in reg:
        gi, si = _inside(g, a, b), _inside(s, a, b)
        ing.update(gi)
        ins.update(si)
        eq = [[bool(g.words[x][3]['form'].lower() == s.words[y][3]['form'].lower()) for y in si] for x in gi]
        found = _lcs_all(eq, len(gi), len(si))
        alts = [old + [(gi[x], si[y]) for x, y in f] for old in alts for f in found]
    spans = {(w[0], w[1]): i for i, w in enumerate(s.words) if i not in ins}
    base = [(i, spans[w[0], w[1]]) for i, w in enumerate(g.words) if i not in ing and (w[0], w[1]) in spans]
    return [sorted(base + a) for a in alts]


def risky(g, s):
    """a plain word directly before a multiword token faces several words of the other side (see known_findings.json)"""
    for one, other, strict in ((g, s, False), (s, g, True)):
        for i, w in enumerate(one.words):
            if w[2] and i and not one.words[i - 1][2] and one.words[i - 1][1] == w[0]:
                before = one.words[i - 1][0]
                lag = [o for o in other.words if not o[2] and o[0] < w[0] and (o[0] > before if strict else o[0] >= before)]
                if len(lag) > 1:
                    return True
    return False


def lagging(g, s):
    """the alignments when only one lagging word is skipped before a multiword token (the recorded finding, see known_findings.json)"""
    gw, sw = g.words, s.words
    gi = si = 0
    alts = [[]]

    def over(words, i, end):
        return i >= len(words) or (words[i][0] >= end if words[i][2] else words[i][1] > end)

    while gi < len(gw) and si < len(sw):
        a, b = gw[gi], sw[si]
        if not a[2] and not b[2]:
            if a[:2] == b[:2]:
                alts = [x + [(gi, si)] for x in alts]
                gi, si = gi + 1, si + 1
            elif a[0] <= b[0]:
                gi += 1
            else:
                si += 1
            continue
        if a[2]:
            end = a[1]
            si += not b[2] and b[0] < a[0]
        else:
            end = b[1]
            gi += a[0] < b[0]
        gs, ss = gi, si
        while not over(gw, gi, end) or not over(sw, si, end):
            if gi < len(gw) and (si >= len(sw) or gw[gi][0] <= sw[si][0]):
                end = max(end, gw[gi][1]) if gw[gi][2] else end
                gi += 1
            else:
                end = max(end, sw[si][1]) if sw[si][2] else end
                si += 1
        eq = [[bool(gw[x][3]['form'].lower() == sw[y][3]['form'].lower()) for y in range(ss, si)] for x in range(gs, gi)]
        found = _lcs_all(eq, gi - gs, si - ss)
        alts = [x + [(gs + p, ss + q) for p, q in f] for x in alts for f in found]
    return alts


def span_matches(a, b):
    return len(set(a) & set(b))


def rel(w):
    return w[3]['deprel'].split(':')[0]


def correct(h, g, s, al, metric):
    """list of truth values: is the pair correct under the metric"""
    m = {b: a for a, b in al}
    out = []
    for a, b in al:
        x, y = g.words[a], s.words[b]
        if metric == 'Words':
            out.append(True)
            continue
        cs = []
        if metric in ('UPOS', 'AllTags'):
            cs.append(x[3]['upos'] == y[3]['upos'])
        if metric in ('XPOS', 'AllTags'):
            cs.append(x[3]['xpos'] == y[3]['xpos'])
        if metric in ('Feats', 'AllTags'):
            cs.append(x[3]['feats'] == y[3]['feats'])
        if metric == 'Lemmas':
            cs.append(x[3]['lemma'] == y[3]['lemma'])
        if metric in ('UAS', 'LAS', 'CLAS', 'WeightedLAS'):
            p, q = g.parent(a), s.parent(b)
            cs.append((p == -1 and q == -1) or (p != -1 and q != -1 and m.get(q) == p))
        if metric in ('LAS', 'CLAS', 'WeightedLAS'):
            cs.append(rel(x) == rel(y))
        out.append(h.all(cs))
    return out


def close(a, b):
    return a is not None and b is not None and abs(a - b) < 1e-9


def ratio(num, den):
    return num / den if den else 0.0


def score_is(h, score, c, most, gold, system, aligned):
    """score describes c (possibly symbolic, 0..most) correct items"""
    alts = []
    for k in range(most + 1):
        ok = close(score.precision, ratio(k, system)) and close(score.recall, ratio(k, gold)) and \
            close(score.f1, ratio(2 * k, gold + system))
        if aligned is None:
            ok = ok and score.aligned_accuracy is None
        else:
            ok = ok and close(score.aligned_accuracy, ratio(k, aligned))
        if ok:
            alts.append(c == k)
    return h.any(alts)


def weigh(weights, w):
    return weights.get(rel(w), 1.0)


def weighted_is(h, score, g, s, al, flags, weights):
    gold = sum([weigh(weights, w) for w in g.words])
    system = sum([weigh(weights, w) for w in s.words])
    aligned = sum([weigh(weights, g.words[a]) for a, b in al])
    c = 0.0
    for (a, b), f in zip(al, flags):
        if f:
            c += weigh(weights, g.words[a])
    return close(score.precision, ratio(c, system)) and close(score.recall, ratio(c, gold)) and \
        close(score.f1, ratio(2 * c, gold + system)) and close(score.aligned_accuracy, ratio(c, aligned))


def agrees(h, result, g, s, al, metrics=METRICS, weights=None):
    """the result is that of this alignment"""
    n, m, k = len(g.words), len(s.words), len(al)
    cs = [score_is(h, result['Words'], k, k, n, m, None)]
    for metric in metrics:
        flags = correct(h, g, s, al, metric)
        if metric == 'CLAS':
            cs.append(weighted_is(h, result[metric], g, s, al, flags, {r: 0.0 for r in FUNCTIONAL}))
        elif metric == 'WeightedLAS':
            cs.append(weighted_is(h, result[metric], g, s, al, flags, weights))
        else:
            cs.append(score_is(h, result[metric], h.total(flags), k, n, m, k))
    return h.all(cs)


def spans_ok(h, result, g, s):
    return score_is(h, result['Tokens'], span_matches(g.tokens, s.tokens), len(g.tokens), len(g.tokens), len(s.tokens), None) and \
        score_is(h, result['Sentences'], span_matches(g.sents, s.sents), len(g.sents), len(g.sents), len(s.sents), None)
