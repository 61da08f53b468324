"""C17: fastText word ids, word vectors and sentence vectors."""

import itertools

from pure_fasttext import FastText

from ..cmp import Raised, attempt, compare, dense
from ..ft import NOT_SEPS, SEPS, load, train

BOUNDS = {
    "quick": "every supervised and unsupervised model with 3 words, dimension 2, entries over {-1,0,3}; 9 further models (trained ones, vocabularies with "
             "unusual white space, without </s>) on every line of <=3 of 18 fragments and every word of <=2 fragments",
    "thorough": "lines of <=4 fragments",
}
ASSUMPTIONS = ["vectors of label names are outside the domain (native fastText reads outside its matrix); their ids are compared",
               "no label-prefixed tokens in unsupervised training data", "entries whose squares are representable in single precision"]
FRAGS = ["a", "b", "bb", "zz", "</s>", "__label__p"] + SEPS + NOT_SEPS
RT, AT = 2e-6, 1e-6


def words_check(R, m, p, words, key, labels, **det):
    for w in words:
        R.trans(2)
        R.state(key, det.get("model"), w)
        a, b = m.get_word_id(w), attempt(p.get_word_id, w)
        R.check(type(b) is int and a == b, key + ":id", "word id of %r: reference %r, got %r" % (w, a, b), **det)
        if w in labels:
            continue
        compare(R, key + ":vector", m.get_word_vector(w), attempt(p.get_word_vector, w), w, RT, AT, what="word vector", **det)


def lines_check(R, m, p, lines, key, **det):
    for t in lines:
        R.trans()
        R.state(key, det.get("model"), t)
        compare(R, key + ":sentence", attempt(m.get_sentence_vector, t), attempt(p.get_sentence_vector, t), t, RT, AT, what="sentence vector of %r" % t, **det)


def ids_check(R, m, p, key, **det):
    for i in range(len(m.get_words())):
        R.trans()
        compare(R, key + ":input", m.get_input_vector(i), attempt(p.get_input_vector, i), i, RT, AT, what="input vector", **det)


LINES = ["", " ", "a", "b", "a b", "a a b", "zz", "b\0a", "a </s> b", "\u00a0a", "</s>", "a\tb\rb", "zz zz", "\0"]


def matrices(kind):
    def scenario(ch, R):
        words = ch.choose("words", [["</s>", "a", "b"], ["a", "b", "c"]])
        inp = [[ch.choose("v%d,%d" % (i, j), [-1.0, 0.0, 3.0]) for j in range(2)] for i in range(3)]
        if kind == "sup":
            m = load(words, ["__label__p", "__label__q"], inp, [[1, 1], [0, 2]])
        else:
            m = load(words, [], inp, [[1, 1]] * 3, model={"cbow": 1, "skipgram": 2}[kind], loss=1)
        p = attempt(FastText, m)
        R.trans()
        if isinstance(p, Raised):
            R.fail("C17:convert", "conversion raised %r" % p, kind=kind)
            return
        det = dict(model=(kind, words, inp))
        words_check(R, m, p, ["a", "b", "c", "zz", "</s>", "", "a b", "__label__p"], "C17:" + kind, ["__label__p", "__label__q"], **det)
        lines_check(R, m, p, LINES, "C17:" + kind, **det)
        ids_check(R, m, p, "C17:" + kind, **det)

    return scenario


def some_models():
    W = ["</s>", "a", "b", "a\u00a0", "\x1cb", "bb", "b\u2003a", "\x85"]
    I2 = [[1, 0], [0.5, -1], [-2, 0.25], [0, 0], [3, 1], [1, 1], [-1, 2], [0.125, -8]]
    L = ["__label__p a b a", "__label__q b bb b", "__label__p a a a", "__label__r bb bb a", "__label__q b"]
    U = ["a b a bb", "b bb b", "a a a c c", "bb bb a", "b c a"] * 3
    UU = U + ["a\u00a0 \x1cb \x85 b\u2003a"] * 3
    return [
        ("sup", load(W, ["__label__p", "__label__q"], I2, [[1, 2], [3, -1]])),
        ("sup", load(W[1:], ["__label__p"], I2[1:], [[1, 2]])),
        ("unsup", load(W, [], I2, I2, model=1, loss=2)),
        ("unsup", load(W[1:] + ["x\0y"[:1]], [], I2, I2, model=2, loss=1)),
        ("sup", train(L, lr=1.0, dim=2, epoch=20)),
        ("sup", train([x.replace("__label__", "#") for x in L], lr=1.0, dim=3, epoch=10, label="#")),
        ("unsup", train(U, False, model="cbow", maxn=0, dim=3)),
        ("unsup", train(UU, False, model="skipgram", maxn=0, dim=4, minn=0, wordNgrams=1)),
        ("unsup", train(UU, False, model="skipgram", maxn=0, dim=1, loss="hs", minCount=2)),
    ]


def lines(n):
    MODELS = some_models()

    def scenario(ch, R):
        i = ch.choose("model", range(len(MODELS)))
        kind, m = MODELS[i]
        p = attempt(FastText, m)
        R.trans()
        if isinstance(p, Raised):
            R.fail("C17:convert", "conversion raised %r" % p, model=i)
            return
        first = ch.choose("first", [""] + FRAGS)
        if not first:
            ids_check(R, m, p, "C17:ids", model=i)
            lines_check(R, m, p, [""], "C17:lines", model=i)
            words_check(R, m, p, m.get_words() + ["", "#p", "__label__zz"], "C17:words", m.get_labels() if kind == "sup" else [], model=i)
            for bad in ("\n", "a\n", "\na"):
                R.check(isinstance(attempt(p.get_sentence_vector, bad), Raised), "C17:newline", "a line with a newline is answered", text=bad)
            return
        second = ch.choose("second", [""] + FRAGS)
        texts = [first + second + "".join(t) for k in range(n - 1 if second else 1) for t in itertools.product(FRAGS, repeat=k)]
        lines_check(R, m, p, texts, "C17:lines", model=i)
        words_check(R, m, p, [first + second], "C17:words", m.get_labels() if kind == "sup" else [], model=i)

    return scenario


def large():
    """many words and dimensions; values of every magnitude; long lines"""

    def scenario(ch, R):
        kind = ch.choose("kind", ["sup", "cbow", "skipgram"])
        dim, nw = ch.choose("dim", [1, 2, 30, 300]), ch.choose("words", [1, 2, 40, 1000])
        scale = ch.choose("scale", [1e-18, 1e-9, 1e-6, 1e-3, 1.0, 1e6, 1e15])
        if nw == 1000 and dim == 300:
            R.validated()
            return
        eos = ch.choose("</s>", [True, False])
        words = (["</s>"] if eos else []) + ["w%d" % i for i in range(nw)]
        inp = [[((i * 5 + j * 3) % 7 - 3) * scale for j in range(dim)] for i in range(len(words))]
        if kind == "sup":
            m = load(words, ["__label__p", "__label__q"], inp, [[1] * dim, [0] * dim])
        else:
            m = load(words, [], inp, [[1] * dim] * len(words), model={"cbow": 1, "skipgram": 2}[kind], loss=1)
        p = attempt(FastText, m)
        R.trans()
        if isinstance(p, Raised):
            R.fail("C17:convert", "conversion raised %r" % p, kind=kind)
            return
        det = dict(model=(kind, dim, nw, scale, eos))
        key = "C17:large:" + kind
        few = words[:3] + words[-3:] + words[len(words) // 2:][:2]
        for w in few + ["zz", ""]:
            R.trans(2)
            R.state(det["model"], w)
            a, b = m.get_word_id(w), attempt(p.get_word_id, w)
            R.check(type(b) is int and a == b, key + ":id", "word id of %r: reference %r, got %r" % (w, a, b), **det)
            compare(R, key + ":vector", m.get_word_vector(w), attempt(p.get_word_vector, w), w, RT, 1e-6 * scale, what="word vector", **det)
        for t in ["", words[0], " ".join(words), "zz " + words[-1], (words[-1] + " ") * 500, " ".join(words[::-1]), "w0 " * 3 + "zz " * 300, " ".join(words[:9])]:
            R.trans()
            R.state(det["model"], t)
            compare(R, key + ":sentence", attempt(m.get_sentence_vector, t), attempt(p.get_sentence_vector, t), t[:80], 2e-5, 3e-6 * (scale if kind == "sup" else 1.0), what="sentence vector of %r" % t[:80], **det)
        for i in (0, len(words) - 1):
            compare(R, key + ":input", m.get_input_vector(i), attempt(p.get_input_vector, i), i, RT, 1e-6 * scale, what="input vector", **det)

    return scenario


def scenarios(tier):
    return [("supervised matrices", matrices("sup")), ("cbow matrices", matrices("cbow")), ("skipgram matrices", matrices("skipgram")),
            ("large", large()), ("lines", lines(4 if tier == "thorough" else 3))]
