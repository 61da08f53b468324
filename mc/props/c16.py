"""C16: supervised fastText predictions."""

import itertools

from pure_fasttext import FastText

from ..cmp import Raised, attempt, dense
from ..ft import NOT_SEPS, SEPS, load, train

BOUNDS = {
    "quick": "every supervised softmax model with words {</s>,a,b} (and without </s>), 1-3 labels, dimension 1, input entries over {-1,0,0.5,2} and output "
             "entries over {-2,0,1} on 14 lines; 8 models (dimension 1-3, trained ones included, custom label prefix) on every line of <=3 of 17 fragments "
             "(words, unknown words, label tokens, </s>, 6 separators, 5 non-separators); k in {1,2,3,5,-1,0,-2}, thresholds {-1,0,0.3,0.5,2}; single lines and lists",
    "thorough": "lines of <=4 fragments",
}
ASSUMPTIONS = ["probabilities are compared to 3e-5 (fastText computes in single precision and adds 1e-5)", "labels of equal probability may come in either order",
               "thresholds within 1e-6 of a probability are compared only when both are exact", "where fastText's Python wrapper raises because no label passes, no label may be returned"]
TOL = 3e-5
KS = [1, 2, 3, 5, -1]
TH = [0.0, -1.0, 0.3, 0.5, 2.0]


def full(m, text):
    r = attempt(m.predict, text, k=-1, threshold=-1.0)
    if isinstance(r, Raised):
        return None
    return dict(zip(r[0], [float(x) for x in r[1]]))


def check_one(R, key, ranking, text, k, th, got, **det):
    """got: (labels, probabilities) of the implementation"""
    R.validated()
    if ranking is None:  # no known word: the native wrapper answers nothing
        if isinstance(got, Raised):
            return
        R.check(len(got[0]) == 0 and len(got[1]) == 0, key + ":unanswerable", "labels returned for a line fastText has no answer for",
                text=text, k=k, threshold=th, got=got, **det)
        return
    if isinstance(got, Raised):
        R.fail(key + ":raised", "raised %r" % got, text=text, k=k, threshold=th, **det)
        return
    if any(0 < abs(p - 1e-5 - th) < 2e-6 for p in ranking.values()) and not (th == 0.5 and len(ranking) == 2 and len(set(ranking.values())) == 1):
        R.count("near_threshold")
        return
    want = sorted([p for p in ranking.values() if p - 1e-5 >= th - 1e-7], reverse=True)
    n = len(ranking) if k == -1 else k
    want = want[:n]
    labels, probs = list(got[0]), [float(x) for x in got[1]]
    ok = len(labels) == len(want) == len(probs) == len(set(labels))
    ok = ok and all(l in ranking and abs(ranking[l] - w) < 4e-6 and abs(p - w) < TOL for l, p, w in zip(labels, probs, want))
    if not ok:
        R.fail(key, "k=%r threshold=%r: expected probabilities %r of %r, got %r" % (k, th, want, ranking, got), text=text, **det)
        return
    R.outcome(labels, [round(p, 4) for p in probs])


def refused(R, key, fn, what, **det):
    got = attempt(fn)
    R.check(isinstance(got, Raised), key, what + " is answered", got=got, **det)


def judge(R, m, p, texts, key, ks=KS, ths=TH, **det):
    rank = {}
    for t in texts:
        rank[t] = full(m, t)
        for k in ks:
            for th in ths:
                R.trans()
                R.state(det.get("model"), t, k, th)
                check_one(R, key, rank[t], t, k, th, attempt(p.predict, t, k=k, threshold=th), **det)
        R.trans()
        check_one(R, key + ":default", rank[t], t, 1, 0.0, attempt(p.predict, t), **det)
    return rank


def judge_list(R, p, rank, texts, key, k, th, **det):
    R.trans()
    got = attempt(p.predict, list(texts), k=k, threshold=th)
    if isinstance(got, Raised):
        R.check(any(rank[t] is None for t in texts), key + ":list:raised", "list of lines raised %r" % got, texts=texts, **det)
        return
    ok = isinstance(got, (tuple, list)) and len(got) == 2 and len(got[0]) == len(texts) == len(got[1])
    if not R.check(ok, key + ":list:shape", "list of %d lines answered by %r" % (len(texts), got), texts=texts, **det):
        return
    for t, l, q in zip(texts, got[0], got[1]):
        check_one(R, key + ":list", rank[t], t, k, th, (l, q), **det)


LINES = ["", "a", "b", "a b", "a a b", "zz", "b\0a", "a </s> b", "__label__p", "__label__p b zz", "\u00a0a", "a\u00a0", "</s>", "a\tb\rb"]


def models(words, nlab, ks, ths):
    def scenario(ch, R):
        labels = ["__label__" + c for c in "pqr"[:nlab]]
        inp = [[ch.choose("in%d" % i, [-1.0, 0.0, 0.5, 2.0])] for i in range(len(words))]
        out = [[ch.choose("out%d" % i, [-2.0, 0.0, 1.0])] for i in range(nlab)]
        m = load(words, labels, inp, out)
        R.trans()
        p = attempt(FastText, m)
        if isinstance(p, Raised):
            R.fail("C16:convert", "conversion raised %r" % p)
            return
        det = dict(model=(words, inp, out))
        rank = judge(R, m, p, LINES, "C16", ks, ths, **det)
        for k in ks:
            for th in ths:
                judge_list(R, p, rank, LINES, "C16", k, th, **det)
        judge_list(R, p, rank, LINES[:2], "C16", 2, 0.3, **det)

    return scenario


FRAGS = ["a", "b", "bb", "zz", "</s>", "__label__p", "__label__new"] + SEPS + NOT_SEPS[:4]


def some_models():
    W = ["</s>", "a", "b", "a\u00a0", "\x1cb", "bb", "b\u2003a"]
    I2 = [[1, 0], [0.5, -1], [-2, 0.25], [0, 0], [3, 1], [1, 1], [-1, 2]]
    out = [
        load(W, ["__label__p", "__label__q"], I2, [[1, 2], [3, -1]]),
        load(W[1:], ["__label__p", "__label__q", "__label__r"], I2[1:], [[1, 2], [3, -1], [0, 0]]),
        load(W, ["__label__p", "__label__q", "__label__r"], [[v * 400 for v in r] for r in I2], [[1, 2], [3, -1], [-1, -1]]),
        load(["b", "a"], ["__label__p"], [[0.0, 0, 0], [1, 2, 3]], [[1, 1, 1]]),
    ]
    L = ["__label__p a b a", "__label__q b bb b", "__label__p a a a", "__label__r bb bb a", "__label__q b"]
    out.append(train(L, lr=1.0, dim=2, epoch=20))
    out.append(train([x.replace("__label__", "#") for x in L], lr=1.0, dim=3, epoch=10, label="#"))
    out.append(train(L, lr=1.0, dim=2, epoch=20, minCount=2, minCountLabel=2))
    out.append(train([x.replace("__label__q", "__label__p").replace("__label__r", "__label__p") for x in L], dim=1))
    return out


def lines(n):
    MODELS = some_models()
    tails = {}

    def scenario(ch, R):
        i = ch.choose("model", range(len(MODELS)))
        first = ch.choose("first", FRAGS)
        m = MODELS[i]
        p = attempt(FastText, m)
        R.trans()
        if isinstance(p, Raised):
            R.fail("C16:convert", "conversion raised %r" % p, model=i)
            return
        second = ch.choose("second", FRAGS) if n > 1 else ""
        texts = [first + second + "".join(t) for k in range(n - 1) for t in itertools.product(FRAGS, repeat=k)]
        rank = judge(R, m, p, texts, "C16:lines", [1, 3, -1], [0.0, 0.3], model=i)
        for k, th in ((2, 0.0), (1, 0.0), (1, 0.3), (-1, 0.3), (3, 0.5), (2, -1.0)):
            judge_list(R, p, rank, texts[:25], "C16:lines", k, th, model=i)

    return scenario


def refusals():
    MODELS = some_models()

    def scenario(ch, R):
        i = ch.choose("model", range(len(MODELS)))
        p = FastText(MODELS[i])
        pos = ch.choose("line", ["\n", "a\n", "\nb", "a\nb", "a b\n\n", "\0\n"])
        R.state(i, pos)
        R.trans(6)
        refused(R, "C16:newline", lambda: p.predict(pos), "a line with a newline", text=pos)
        refused(R, "C16:newline", lambda: p.predict([pos]), "a line with a newline", text=pos)
        refused(R, "C16:newline", lambda: p.predict(["a", pos]), "a line with a newline", text=pos)
        for k in (0, -2, -5):
            refused(R, "C16:k", lambda: p.predict("a", k=k), "k=%d" % k)
            refused(R, "C16:k", lambda: p.predict(["a", "b"], k=k), "k=%d" % k)
        for m2 in MODELS[:2]:
            R.check(dense(attempt(p.predict, [])) in ([[], []], ()), "C16:emptylist", "predict([]) is not empty") if not isinstance(attempt(p.predict, []), Raised) else None

    return scenario


def large(labels_):
    """many labels, words and dimensions; hidden values of every magnitude; long lines"""

    def scenario(ch, R):
        nlab = ch.choose("labels", labels_)
        dim = ch.choose("dim", [1, 2, 30, 300])
        nw = ch.choose("words", [2, 40, 400])
        scale = ch.choose("scale", [1e-30, 1e-6, 0.05, 1.0, 60.0, 1e4])
        if nlab * dim > 3500 or nw * dim > 12000 or (scale > 1 and dim > 2):
            R.validated()
            return
        words = ["</s>"] + ["w%d" % i for i in range(nw - 1)]
        labels = ["__label__%d" % i for i in range(nlab)]
        inp = [[((i * 5 + j * 3) % 7 - 3) / 8.0 for j in range(dim)] for i in range(nw)]
        out = [[((i * 4 + j * 5 + i * i) % 11 - 5) * scale / dim for j in range(dim)] for i in range(nlab)]
        m = load(words, labels, inp, out)
        p = attempt(FastText, m)
        R.trans()
        if isinstance(p, Raised):
            R.fail("C16:convert", "conversion raised %r" % p)
            return
        T = ["", "w0", " ".join(words[1:]), "w0 " * 700, "w0 zz w0", " ".join(words[::-1] * 3)]
        det = dict(model=(nlab, dim, nw, scale))
        if scale > 1:  # sums of many words in single precision are too far from the exact ones
            T = [t for t in T if len(t) < 10]
        rank = judge(R, m, p, T, "C16:large", [1, 2, 10, nlab + 5, -1], [0.0, 0.01, 0.3], **det)
        judge_list(R, p, rank, T, "C16:large", 3, 0.01, **det)
        judge_list(R, p, rank, [T[i % len(T)] for i in range(30)], "C16:large", -1, 0.0, **det)

    return scenario


def scenarios(tier):
    t = tier == "thorough"
    W = ["</s>", "a", "b"]
    return [
        ("models 2 labels", models(W, 2, [1, 2, -1], [0.0, 0.5])),
        ("models 3 labels", models(W, 3, [1, 2, 3] if not t else KS, [0.0] if not t else TH)),
        ("models 1 label", models(W, 1, KS, TH)),
        ("models without </s>", models(W[1:], 2, KS, TH)),
        ("large", large([1, 2, 10, 11, 100, 1030] + ([3000] if t else []))), ("lines", lines(4 if t else 3)), ("refusals", refusals()),
    ]
