"""C10: CountVectorizer, TfidfVectorizer, TfidfTransformer."""

import io
import itertools
import os
import shutil
import tempfile

import numpy as np
import scipy.sparse as sp
from sklearn.feature_extraction.text import CountVectorizer, TfidfTransformer, TfidfVectorizer

from ..cmp import Raised, attempt, compare, dense
from ..dom import SPARSE_ENCODINGS, call, convert, enc_dense, native
from ..text import FRAGS, TRAPS, collected, compare_rows, docs

BOUNDS = {
    "quick": "documents: every string of <=2 fragments from 15 (letters, case, composed/decomposed accents, non-ASCII, 6 kinds of white space, punctuation); "
             "every combination of analyzer, n-gram range, lowercase, strip_accents, stop words, token pattern and binary; tf-idf: every combination of "
             "norm, idf, smoothing, sublinear, binary, dtype; TfidfTransformer: every 2x3 count matrix over {0,1,2,5} in 4 encodings; byte input in 4 encodings x 3 error policies; 22 token patterns x 16 stop lists x case x accents over 56 unusual documents; documents in every kind of collection (list, tuple, generator, iterator, ...) and object (str subclass, numpy string, bytes)",
    "thorough": "documents of <=3 fragments",
}
ASSUMPTIONS = ["count matrices are non-negative", "with sublinear_tf, explicitly stored zeros are outside the domain (scikit-learn takes log 0)"]

NG = {"word": [(1, 1), (1, 2), (2, 2), (2, 3), (1, 3)], "char": [(1, 1), (1, 3), (2, 2), (3, 5)], "char_wb": [(1, 1), (1, 2), (3, 3), (2, 6)]}
PAT = [r"(?u)\b\w\w+\b", r"\S+", r"(\w)\w*", r"(?u)\b\w+\b"]
STOP = [None, ["ab"], ["a", "b\u00e9", "ex"]]


def fit(est, D):
    try:
        return est.fit(D)
    except ValueError:
        return None


def counts(n):
    D = docs(FRAGS, n)
    fits = [D[::3], D[1:40:2]]

    def scenario(ch, R):
        an = ch.choose("analyzer", ["word", "char", "char_wb"])
        ng = ch.choose("ngram_range", NG[an])
        lower = ch.flag("lowercase")
        acc = ch.choose("strip_accents", [None, "ascii", "unicode"])
        stop = ch.choose("stop_words", STOP) if an == "word" else None
        pat = ch.choose("token_pattern", PAT) if an == "word" else PAT[0]
        binary = ch.flag("binary")
        for fi, F in enumerate(fits):
            est = fit(CountVectorizer(analyzer=an, ngram_range=ng, lowercase=lower, strip_accents=acc, stop_words=stop,
                                      token_pattern=pat, binary=binary), F)
            if est is None:
                R.validated()
                continue
            p = convert(R, est, "C10:count")
            if p is None:
                continue
            for d in D:
                R.state(an, ng, lower, acc, stop, pat, binary, fi, d)
            compare_rows(R, "C10:count:" + an, native(est, "transform", D), call(R, p, "transform", list(D)), D,
                         what="CountVectorizer", params=est.get_params())

    return scenario


def vocabularies():
    D = docs(["a", "b", "a b", " ", "B"], 3)

    def scenario(ch, R):
        words = ["a", "b", "a b", "zz"]
        k = ch.choose("size", [1, 2, 3, 4])
        order = ch.choose("vocabulary", list(itertools.permutations(words, k)))
        form = ch.choose("form", ["list", "dict", "set", "tuple"])
        binary = ch.flag("binary")
        v = {"list": list(order), "dict": {w: i for i, w in enumerate(order)}, "set": set(order), "tuple": tuple(order)}[form]
        est = CountVectorizer(vocabulary=v, ngram_range=(1, 2), token_pattern=r"\w+", binary=binary, dtype=np.float32).fit(D)
        p = convert(R, est, "C10:vocabulary")
        if p is None:
            return
        R.state(order, form, binary)
        compare_rows(R, "C10:vocabulary", native(est, "transform", D), call(R, p, "transform", list(D)), D, what="fixed vocabulary", vocabulary=v)

    return scenario


def limits():
    D = docs(["ab", "ba", "cc dd", " "], 4)

    def scenario(ch, R):
        kw = {"min_df": ch.choose("min_df", [1, 2, 0.1]), "max_df": ch.choose("max_df", [1.0, 0.6, 100]),
              "max_features": ch.choose("max_features", [None, 1, 3])}
        est = fit(ch.choose("estimator", [CountVectorizer, TfidfVectorizer])(ngram_range=(1, 2), **kw), D)
        if est is None:
            R.validated()
            return
        p = convert(R, est, "C10:limits")
        if p is not None:
            R.state(kw)
            compare_rows(R, "C10:limits", native(est, "transform", D), call(R, p, "transform", list(D)), D, what="pruned vocabulary", params=kw)

    return scenario


def tfidf(n):
    D = docs(["a", "bb", "cc bb", "bb ", " Dd ", "\u00e9e", "zz"], n)
    F = [d for d in D[:: 2] if "zz" not in d]

    def scenario(ch, R):
        an = ch.choose("analyzer", ["word", "char", "char_wb"])
        ng = ch.choose("ngrams", [(1, 1), (1, 2)])
        norm = ch.choose("norm", ["l1", "l2", None])
        idf, smooth, sub, binary = [ch.flag(x) for x in ("use_idf", "smooth_idf", "sublinear_tf", "binary")]
        dt = ch.choose("dtype", [np.float64, np.float32])
        est = fit(TfidfVectorizer(analyzer=an, ngram_range=ng, norm=norm, use_idf=idf, smooth_idf=smooth, sublinear_tf=sub, binary=binary, dtype=dt), F)
        p = convert(R, est, "C10:tfidf", params=est.get_params())
        if p is None:
            return
        for d in D:
            R.state(an, ng, norm, idf, smooth, sub, binary, dt, d)
        compare_rows(R, "C10:tfidf:idf=%s:sub=%s" % (idf, sub), native(est, "transform", D), call(R, p, "transform", list(D)), D,
                     rtol=1e-7 if dt is np.float64 else 2e-6, what="TfidfVectorizer", params=est.get_params())

    return scenario


def transformer():
    def scenario(ch, R):
        F = np.array(ch.choose("fit", [[[1, 0, 2], [0, 0, 1]], [[3, 1, 0], [0, 1, 1]], [[0, 0, 0], [0, 5, 0]]]), dtype=float)
        X = [[ch.choose("x%d,%d" % (i, j), [0, 1, 2, 5]) for j in range(3)] for i in range(2)]
        Xn = sp.csr_matrix(np.array(X, dtype=float))
        for norm, idf, smooth, sub in itertools.product(["l1", "l2", None], [True, False], [True, False], [True, False]):
            if not smooth and idf and (F.sum(axis=0) == 0).any():
                continue  # the native idf is infinite
            est = TfidfTransformer(norm=norm, use_idf=idf, smooth_idf=smooth, sublinear_tf=sub).fit(F)
            p = convert(R, est, "C10:transformer")
            if p is None:
                return
            R.state(F.tolist(), X, norm, idf, smooth, sub)
            ref = native(est, "transform", Xn)
            for name, enc in [("dense", enc_dense)] + SPARSE_ENCODINGS:
                if name == "explicit zeros" and sub:
                    continue
                compare_rows(R, "C10:transformer:%s" % name, ref, call(R, p, "transform", enc(X)), X, what="TfidfTransformer " + name, params=est.get_params())

    return scenario


BYTES = [b"", b"ab \xc3\xa9e", b"ab \xff\xfe cd", b"caf\xe9 ab", "ab \u00e9e\u4e2d".encode("utf-16"), b"\x00ab"]


def encodings():
    def scenario(ch, R):
        enc = ch.choose("encoding", ["utf-8", "latin-1", "utf-16", "ascii"])
        err = ch.choose("decode_error", ["strict", "ignore", "replace"])
        inp = ch.choose("input", ["content", "file", "filename", "text file"])
        an = ch.choose("analyzer", ["word", "char"])
        d = ch.choose("document", BYTES)
        tf = ch.flag("tfidf")
        vocab = ["ab", "cd", "\u00e9e", "caf", "caf\u00e9", "\ufffd"] if an == "word" else list("abcdef \u00e9\xff\xfe\ufffd\u4e2d\x00")
        est = (TfidfVectorizer if tf else CountVectorizer)(encoding=enc, decode_error=err, analyzer=an, vocabulary=vocab)
        est.fit(["ab cd", "abc"])
        tmp = None
        try:
            if inp == "content":
                mk = lambda: [d]
            elif inp == "file":
                mk = lambda: [io.BytesIO(d)]
            elif inp == "text file":
                mk = lambda: [io.StringIO(d.decode("latin-1"))]
            else:
                tmp = tempfile.mkdtemp(prefix="verif-c10-")
                path = os.path.join(tmp, "doc")
                with open(path, "wb") as f:
                    f.write(d)
                mk = lambda: [path]
            est.set_params(input="file" if inp == "text file" else inp)
            p = convert(R, est, "C10:input")
            if p is not None:
                R.state(enc, err, inp, an, d)
                compare_rows(R, "C10:input:%s" % inp, native(est, "transform", mk()), call(R, p, "transform", mk()), [d], what="bytes", params=est.get_params())
        finally:
            if tmp:
                shutil.rmtree(tmp)

    return scenario


def large(sizes):
    """large vocabularies, long documents, many repetitions, long tokens, many stop words"""

    def scenario(ch, R):
        cls = ch.choose("estimator", [CountVectorizer, TfidfVectorizer])
        an, ng = ch.choose("analyzer", [("word", (1, 1)), ("word", (1, 3)), ("word", (4, 6)), ("word", (1, 12)), ("word", (9, 9)), ("word", (2, 33)), ("char", (1, 2)), ("char", (5, 5)), ("char", (1, 40)), ("char_wb", (2, 4)), ("char_wb", (1, 12))])
        n = ch.choose("words", sizes if ng[1] < 13 else [12])
        stop = ch.choose("stop_words", [None, "third"]) if an == "word" else None
        kw = ch.choose("options", [{}, {"binary": True}, {"norm": "l1", "use_idf": False, "sublinear_tf": True}, {"norm": None, "smooth_idf": False}]) if cls is TfidfVectorizer else ch.choose("options", [{}, {"binary": True, "dtype": np.float32}])
        W = [("w%s" % chr(97 + i % 26) + ("\u00e9" if i % 7 == 0 else "") + str(i * 7919 % 10007)) for i in range(n)]
        F = [" ".join(W[i::5]) for i in range(min(5, n))] + [" ".join(W[:3] * 2), W[0]]
        est = fit(cls(analyzer=an, ngram_range=ng, stop_words=W[::3] + ["zz%d" % i for i in range(n)] if stop else None, **kw), F)
        if est is None:
            R.validated()
            return
        p = convert(R, est, "C10:large")
        if p is None:
            return
        D = F[:3] + [" ".join([W[-1]] * k) for k in (2, 255, 256, 257, 1000)] + [" ".join(W), " ".join(W[::-1] * 2), W[-1] * 40 + " " + W[0], " " * 500 + W[0] + "\t" * 300, "x" * 3000, " ".join("u%d" % i for i in range(500)) + " " + W[0]]
        R.state(cls.__name__, an, ng, n, stop, kw)
        compare_rows(R, "C10:large:" + an, native(est, "transform", D), call(R, p, "transform", list(D)), D, rtol=1e-7, what=cls.__name__, params=(an, ng, n, stop, kw))
        compare_rows(R, "C10:large:" + an, native(est, "transform", D[4:5]), call(R, p, "transform", list(D[4:5])), D[4:5], rtol=1e-7, what=cls.__name__, params=(an, ng, n, stop, kw))

    return scenario


PATTERNS = PAT + [r"^\w+", r"\w+$", r"^.*$", r"(?i)[a-z]+", r"(?m)^\w+", r"(?s).+", r".+", r"a|ab", r"[^\s,.]+", r"(?:\w)+", r"\d+", r"\w*", r"(?a)\w+", r"[A-Z]\w*", r"(?u)\b\w{2,4}\b", r"(\w+)\.", r"\B\w", "\u00e9\\w*"]
STOPS = [None, ["The"], ["the"], ["THE", "the"], ["ab ", "ab"], ["AB"], ["\u00e9t\u00e9"], ["\u00c9T\u00c9", "ete"], ["E\u0301te\u0301"], ["nan", "None", "1"], ["a b"], [""], ("the",), ["don", "t", "don't"]]


def patterns():
    """token patterns and stop words of every kind over documents of every kind"""

    def scenario(ch, R):
        pat = ch.choose("token_pattern", PATTERNS)
        lower = ch.flag("lowercase")
        acc = ch.choose("strip_accents", [None, "ascii", "unicode"])
        for stop in STOPS:
            for ng in ((1, 1), (1, 3)):
                est = fit(CountVectorizer(token_pattern=pat, lowercase=lower, strip_accents=acc, stop_words=stop, ngram_range=ng), TRAPS)
                if est is None:
                    R.validated()
                    continue
                p = convert(R, est, "C10:patterns")
                if p is None:
                    continue
                R.state(pat, lower, acc, stop, ng)
                compare_rows(R, "C10:patterns", native(est, "transform", TRAPS), call(R, p, "transform", list(TRAPS)), TRAPS, what="CountVectorizer", params=(pat, lower, acc, stop, ng))

    return scenario


def characters():
    """character analysis of documents of every kind"""

    def scenario(ch, R):
        an = ch.choose("analyzer", ["char", "char_wb"])
        ng = ch.choose("ngram_range", [(1, 1), (1, 2), (2, 2), (3, 5), (1, 9)])
        lower = ch.flag("lowercase")
        acc = ch.choose("strip_accents", [None, "ascii", "unicode"])
        stop = ch.choose("stop_words", [None, ["the", "a"]])
        cls = ch.choose("estimator", [CountVectorizer, TfidfVectorizer])
        est = fit(cls(analyzer=an, ngram_range=ng, lowercase=lower, strip_accents=acc, stop_words=stop), TRAPS)
        p = convert(R, est, "C10:characters")
        if p is not None:
            R.state(an, ng, lower, acc, stop, cls.__name__)
            compare_rows(R, "C10:characters", native(est, "transform", TRAPS), call(R, p, "transform", list(TRAPS)), TRAPS, what=cls.__name__, params=(an, ng, lower, acc, stop))

    return scenario


def wide_transformer(widths):
    """many columns, counts of every magnitude"""

    def scenario(ch, R):
        k, scale = ch.choose("columns", widths), ch.choose("scale", [1e-6, 0.5, 1.0, 1e4, 1e9, 1e15])
        nfit = ch.choose("fit rows", [1, 2, 10, 1000])
        F = np.array([[1.0 if (i * 3 + j) % (j % 13 + 1) == 0 else 0.0 for j in range(k)] for i in range(nfit)])
        for norm, idf, smooth, sub in itertools.product(["l1", "l2", None], [True, False], [True, False], [True, False]):
            if not smooth and idf and (F.sum(axis=0) == 0).any():
                continue
            est = TfidfTransformer(norm=norm, use_idf=idf, smooth_idf=smooth, sublinear_tf=sub).fit(F)
            p = convert(R, est, "C10:transformer")
            if p is None:
                return
            X = [[0.0] * k] + [[((i * 5 + j * 3) % 9) * scale * (1 if j % 2 else 3) if (i + j) % s == 0 else 0.0 for j in range(k)] for i, s in enumerate((1, 2, 7, k))]
            if sub and scale < 0.2:
                continue  # natively the logarithm of 0 or less is met
            R.state(k, scale, nfit, norm, idf, smooth, sub)
            ref = native(est, "transform", sp.csr_matrix(np.array(X)))
            for name, enc in [("dense", enc_dense)] + SPARSE_ENCODINGS:
                if name == "explicit zeros" and sub:
                    continue
                compare_rows(R, "C10:wide transformer:%s" % name, ref, call(R, p, "transform", enc(X)), X, what="TfidfTransformer " + name, params=est.get_params())

    return scenario


COLLECTED = [
    lambda: fit(CountVectorizer(), TRAPS), lambda: fit(CountVectorizer(binary=True, lowercase=False, token_pattern=r"\S+"), TRAPS), lambda: fit(CountVectorizer(analyzer="char", ngram_range=(1, 2)), TRAPS),
    lambda: fit(TfidfVectorizer(ngram_range=(1, 2)), TRAPS), lambda: fit(TfidfVectorizer(analyzer="char_wb", ngram_range=(2, 3), sublinear_tf=True), TRAPS),
]


def scenarios(tier):
    t = tier == "thorough"
    return [("counts", counts(3 if t else 2)), ("vocabularies", vocabularies()), ("limits", limits()), ("patterns", patterns()), ("characters", characters()), ("tfidf", tfidf(4 if t else 3)),
            ("large", large([1, 12, 300] + ([5000] if t else []))), ("wide transformer", wide_transformer([1, 3, 40, 300])),
            ("transformer", transformer()), ("encodings", encodings()), ("collections", collected("C10:collections", COLLECTED))]
