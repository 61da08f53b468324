"""C14: sparse and dense encodings of the same data are interchangeable."""

import itertools

import numpy as np
from pure_sklearn import base, utils
from pure_sklearn.map import convert_estimator
from pure_sklearn.preprocessing import normalize_pure
from pure_sklearn.utils import sparse_list
from sklearn.ensemble import BaggingClassifier, RandomForestClassifier
from sklearn.feature_extraction.text import TfidfTransformer
from sklearn.linear_model import LogisticRegression, RidgeClassifier, SGDClassifier
from sklearn.pipeline import FeatureUnion, Pipeline
from sklearn.preprocessing import MaxAbsScaler, Normalizer, StandardScaler
from sklearn.tree import DecisionTreeClassifier

from ..cmp import Raised, attempt, dense, densify, same
from ..dom import SPARSE_ENCODINGS, quiet_fit
from ..zoo import LAB, XN, Y3, Model, zoo

BOUNDS = {
    "quick": "container: all matrices up to 3x2, 2x3 and 3x3 over {0, 1.5, -2} plus booleans, ints, NaN and zero-width ones, 5 encodings each; helpers: all those matrices "
             "(pairs up to 2x2); models: every sparse-capable model x every batch of 1-2 rows over a 3-value alphabet x 4 encodings x every method; up to 5000 columns",
    "thorough": "4-value alphabets, batches of 2 over all row pairs",
}
ASSUMPTIONS = ["a label may differ between encodings only where the model's own scores tie to 1e-9 (summation order)",
               "sparse rows are stored-entry dictionaries with a known number of columns"]

ENC = SPARSE_ENCODINGS + [
    ("from lists", lambda X: sparse_list([list(r) for r in X])),
    ("int keyed, first zero explicit", lambda X: sparse_list([{i: v for i, v in enumerate(r) if v != 0 or i == 0} for r in X], size=len(X[0]), dtype=float)),
]


def eqv(a, b):
    return a == b or (a != a and b != b)


def eqm(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(eqv(u, v) for u, v in zip(x, y)) for x, y in zip(a, b))


def container(alpha):
    shapes = [(n, k) for n in (1, 2, 3) for k in (1, 2, 3)]

    def scenario(ch, R):
        n, k = ch.choose("shape", shapes)
        name, al = ch.choose("alphabet", [("float", alpha), ("int", [0, 3]), ("bool", [False, True]), ("nan", [0.0, float("nan")]), ("zeros", [-0.0, 0.0, 1.0])])
        if n * k > 6 and len(al) > 3:
            al = al[:3]
        first = [ch.choose("a%d" % j, al) for j in range(k)]
        for rest in itertools.product(al, repeat=(n - 1) * k):
            A = [first] + [list(rest[i * k:(i + 1) * k]) for i in range(n - 1)]
            R.state(A)
            for en, enc in ENC:
                S = attempt(enc, A)
                key = "C14:container:%s" % en
                R.trans(4)
                if not R.check(not isinstance(S, Raised), key + ":build", "sparse form of %r raised %r" % (A, S)):
                    continue
                R.check(utils.issparse(S) and not utils.issparse(A), key + ":issparse", "issparse")
                R.check(utils.shape(S) == (n, k) == utils.shape(A) and utils.ndim(S) == 2, key + ":shape", "shape of %r is %r" % (A, utils.shape(S)), matrix=A)
                D = attempt(utils.todense, S)
                D2 = attempt(S.todense)
                R.check(not isinstance(D, Raised) and eqm(D, A), key + ":todense", "todense gives %r for %r" % (D, A), matrix=A)
                R.check(not isinstance(D2, Raised) and eqm(D2, A), key + ":todense", "todense gives %r for %r" % (D2, A), matrix=A)
                D3 = attempt(densify, S)
                R.check(not isinstance(D3, Raised) and eqm(D3, A), key + ":content", "the sparse form holds %r for %r" % (D3, A), matrix=A)
                if en == "from lists":
                    R.check(all(v != 0 or v != v for r in S for v in r.values()), key + ":zeros", "zeros stored for %r: %r" % (A, list(S)), matrix=A)
                    S2 = attempt(utils.tosparse, D) if not isinstance(D, Raised) else D
                    R.check(not isinstance(S2, Raised) and list(S2) == list(S) or name == "nan", key + ":again", "second round trip %r" % (S2,), matrix=A)
        R.outcome(n, k)

    return scenario


def degenerate():
    def scenario(ch, R):
        n = ch.choose("rows", [1, 2, 3])
        A = [[] for _ in range(n)]
        R.state(A)
        R.trans(2)
        S = attempt(utils.tosparse, A)
        if R.check(not isinstance(S, Raised), "C14:container:nocolumns", "a matrix without columns cannot be made sparse: %r" % S):
            R.check(utils.shape(S) == (n, 0), "C14:container:nocolumns", "shape %r" % (utils.shape(S),))
            R.check(attempt(S.todense) == A, "C14:container:nocolumns", "round trip gives %r" % (attempt(S.todense),))
        E = attempt(lambda: sparse_list([{}] * n, size=0, dtype=float))
        R.check(not isinstance(E, Raised) and attempt(E.todense) == A, "C14:container:nocolumns", "dictionary form without columns: %r" % (E,))

    return scenario


def helpers(alpha):
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3)]
    FN = [("double", lambda v: v * 2), ("square", lambda v: v * v), ("abs", abs), ("neg", lambda v: -v)]

    def scenario(ch, R):
        n, k = ch.choose("shape", shapes)
        cells = n * k
        first = [ch.choose("a%d" % j, alpha) for j in range(k)]
        for rest in itertools.product(alpha, repeat=(n - 1) * k):
            A = [first] + [list(rest[i * k:(i + 1) * k]) for i in range(n - 1)]
            for en, enc in ENC:
                S = enc(A)
                key = "C14:helper:"
                R.state(A, en)
                R.trans()
                for fname, f in FN:
                    a, s = attempt(base.apply_2d, A, f), attempt(base.apply_2d_sparse, S, f)
                    R.check(not isinstance(s, Raised) and same(dense(s), a) and utils.shape(s) == (n, k), key + "apply", "%s: %r, dense %r" % (fname, s, a), matrix=A, encoding=en)
                a, s = attempt(base.apply_axis_2d, A, sum), attempt(base.apply_axis_2d, S, sum)
                R.check(same(a, s), key + "axis", "row sums %r, dense %r" % (s, a), matrix=A, encoding=en)
                for idx in list(range(-k, k)) + [list(c) for m in (1, 2) for c in itertools.product(range(-k, k), repeat=m)] + [tuple(range(k))[::-1]]:
                    R.trans()
                    a, s = attempt(base.slice_column, A, idx), attempt(base.slice_column, S, idx)
                    ok = not isinstance(s, Raised) and not isinstance(a, Raised) and same(dense(s), a)
                    if ok and isinstance(idx, (list, tuple)):
                        ok = utils.issparse(s) and utils.shape(s) == (n, len(idx))
                    R.check(ok, key + "slice", "columns %r: %r, dense %r" % (idx, s, a), matrix=A, encoding=en)
                for norm in ("l1", "l2", "max"):
                    R.trans()
                    a, s = attempt(normalize_pure, A, norm), attempt(normalize_pure, S, norm)
                    R.check(not isinstance(s, Raised) and same(dense(s), a) and utils.shape(s) == (n, k), key + "normalize", "%s: %r, dense %r" % (norm, s, a), matrix=A, encoding=en)
                W = [[1.5, -2.0, 0.5][:k], [0.0, 1.0, 3.0][:k]]
                a, s = attempt(base.dot_2d, A, W), attempt(base.dot_2d, S, W)
                R.check(same(a, s), key + "dot", "%r, dense %r" % (s, a), matrix=A, encoding=en)
                if cells <= 4:
                    for bc in itertools.product(alpha, repeat=cells):
                        B = [list(bc[i * k:(i + 1) * k]) for i in range(n)]
                        R.trans()
                        a, s = attempt(base.matmult_same_dim, A, B), attempt(base.matmult_same_dim, S, enc(B))
                        R.check(not isinstance(s, Raised) and same(dense(s), a) and utils.shape(s) == (n, k), key + "product", "%r, dense %r" % (s, a), A=A, B=B, encoding=en)
        R.outcome(n, k)

    return scenario


_X = None


def extra():
    X, y = np.array(XN), np.array(LAB["str"])[Y3]
    P = ["predict", "predict_proba", "predict_log_proba"]
    return [
        Model("Pipeline scaled lr", quiet_fit(Pipeline([("m", MaxAbsScaler()), ("n", Normalizer()), ("l", LogisticRegression())]), X, y), XN[:3], P, "matrix", True),
        Model("FeatureUnion sparse", quiet_fit(FeatureUnion([("m", MaxAbsScaler()), ("s", StandardScaler(with_mean=False)), ("n", Normalizer(norm="l1"))],
                                                            transformer_weights={"s": 2.0}), X), XN[:3], ["transform"], "matrix", True),
        Model("Pipeline union tree", quiet_fit(Pipeline([("u", FeatureUnion([("m", MaxAbsScaler()), ("n", Normalizer())])), ("t", DecisionTreeClassifier(random_state=0))]), X, y),
              XN[:3], P, "matrix", True),
        Model("Bagging features repeated", quiet_fit(BaggingClassifier(DecisionTreeClassifier(random_state=0), n_estimators=3, max_features=3, bootstrap_features=True, random_state=1), X, y),
              XN[:3], P, "matrix", True),
    ]


def models(alpha, pairs):
    Z = [m for m in zoo() if m.sparse] + extra()
    cache = {}

    def scenario(ch, R):
        m = ch.choose("model", Z)
        if m.name not in cache:
            cache[m.name] = m.make()
        p = cache[m.name]
        first = [ch.choose("x%d" % i, alpha) for i in range(2)]
        rows = [first + [v] for v in alpha]
        batches = [[r] for r in rows]
        others = [[0.0, 0.0, 0.0], [alpha[1], 0.0, alpha[-1]]] if not pairs else [list(r) for r in itertools.product(alpha, repeat=3)]
        batches += [[r, o] for r in rows for o in others] + [[o, r] for r in rows for o in others]
        for X in batches:
            ref = {meth: attempt(getattr(p, meth), [list(r) for r in X]) for meth in m.methods}
            for en, enc in ENC:
                for meth in m.methods:
                    R.state(m.name, meth, X, en)
                    R.trans()
                    got = attempt(lambda: getattr(p, meth)(enc(X)))
                    key = "C14:model:%s:%s" % (type(p).__name__, meth)
                    a = ref[meth]
                    if isinstance(a, Raised):
                        R.check(False, key + ":raised", "dense data is refused: %r" % a, X=X)
                        continue
                    if isinstance(got, Raised):
                        R.check(False, key + ":raised", "%s: sparse data (%s) is refused: %r" % (m.name, en, got), X=X)
                        continue
                    if meth == "predict" and not (hasattr(p, "predict_proba") or hasattr(p, "decision_function")):
                        R.check(same(got, a), key, "%s: %r sparse (%s), %r dense" % (m.name, got, en, a), X=X)
                    elif meth == "predict":
                        if got != a:
                            s = dense(ref.get("decision_function", ref.get("predict_proba")))
                            for i in range(len(X)):
                                if got[i] == a[i] and type(got[i]) is type(a[i]):
                                    continue
                                tie = isinstance(s[i], list) and sorted(s[i])[-1] - sorted(s[i])[-2] < 1e-9 or not isinstance(s[i], list) and abs(s[i]) < 1e-9
                                R.check(tie, key, "%s: label %r sparse (%s), %r dense" % (m.name, got[i], en, a[i]), X=X)
                        R.validated()
                    else:
                        R.check(same(dense(got), dense(a), 1e-9, 1e-12), key, "%s: %r sparse (%s), %r dense" % (m.name, dense(got), en, dense(a)), X=X)
            R.outcome(m.name, repr(ref))

    return scenario


def big(widths):
    """wide rows with few entries, magnitudes"""

    def scenario(ch, R):
        k = ch.choose("columns", widths)
        n = ch.choose("rows", [1, 2, 30] if k <= 400 else [1, 2])
        fill = ch.choose("fill", ["none", "first", "last", "both ends", "third", "dense"])
        scale = ch.choose("scale", [1e-300, 1e-12, 1.0, 1e12, 1e140])
        keep = {"none": lambda i, j: False, "first": lambda i, j: j == 0, "last": lambda i, j: j == k - 1, "both ends": lambda i, j: j in (0, k - 1), "third": lambda i, j: (i + j) % 3 == 0, "dense": lambda i, j: True}[fill]
        A = [[((i * 5 + j * 3) % 9 - 4) * scale if keep(i, j) and i % 5 != 3 else 0.0 for j in range(k)] for i in range(n)]
        R.state(k, n, fill, scale)
        for en, enc in ENC:
            S = attempt(enc, A)
            key = "C14:big:"
            R.trans(4)
            if not R.check(not isinstance(S, Raised), key + "build", "the sparse form raised %r" % (S,)):
                continue
            R.check(utils.shape(S) == (n, k) and eqm(attempt(utils.todense, S), A) and eqm(densify(S), A), key + "container", "round trip differs (%s)" % en, matrix=A)
            S2 = attempt(utils.tosparse, A)
            R.check(not isinstance(S2, Raised) and eqm(densify(S2), A), key + "tosparse", "tosparse differs", matrix=A)
            for fname, f in (("double", lambda v: v * 2), ("abs", abs)):
                R.check(same(dense(attempt(base.apply_2d_sparse, enc(A), f)), attempt(base.apply_2d, A, f), 1e-9, 0), key + "apply", fname, matrix=A, encoding=en)
            idx = sorted({0, k // 2, k - 1})
            for ix in (idx, idx[::-1], [k - 1] * 3, list(range(k))[::-1]):
                s = attempt(base.slice_column, enc(A), ix)
                R.check(not isinstance(s, Raised) and same(dense(s), attempt(base.slice_column, A, ix)), key + "slice", "columns %r" % (ix[:5],), matrix=A, encoding=en)
            W = [[float((j * s) % 5 - 2) for j in range(k)] for s in (1, 2, 3)]
            R.check(same(attempt(base.dot_2d, enc(A), W), attempt(base.dot_2d, A, W), 1e-9, 1e-9 * scale), key + "dot", "products differ", matrix=A, encoding=en)
            for norm in ("l1", "l2", "max"):
                s = attempt(normalize_pure, enc(A), norm)
                R.check(not isinstance(s, Raised) and same(dense(s), attempt(normalize_pure, A, norm), 1e-9, 0), key + "normalize", norm, matrix=A, encoding=en)

    return scenario


def big_models(widths):
    """fitted models over many columns asked about rows with few entries"""

    def scenario(ch, R):
        k = ch.choose("columns", widths)
        i = ch.choose("model", range(len(BIG)))
        fill = ch.choose("fill", ["none", "first", "last", "both ends", "third", "dense"])
        scale = ch.choose("scale", [1e-12, 1.0, 1e6])
        if (k, i) not in _BIG:
            F = np.array([[((r * 7 + j * 3) % 5 - 1) * (1.0 if (r + j) % 3 else 0.0) for j in range(k)] for r in range(12)])
            e = quiet_fit(BIG[i](), abs(F) if "Tfidf" in type(BIG[i]()).__name__ else F, np.array([r % 3 for r in range(12)]))
            _BIG[k, i] = e, convert_estimator(e)
        e, p = _BIG[k, i]
        keep = {"none": lambda i, j: False, "first": lambda i, j: j == 0, "last": lambda i, j: j == k - 1, "both ends": lambda i, j: j in (0, k - 1), "third": lambda i, j: (i + j) % 3 == 0, "dense": lambda i, j: True}[fill]
        X = [[((q * 5 + j * 3) % 9 + 1) * scale if keep(q, j) else 0.0 for j in range(k)] for q in range(3)]
        ms = [m for m in ("transform", "decision_function", "predict_proba") if hasattr(e, m) and hasattr(p, m)]
        for m in ms:
            ref = attempt(getattr(p, m), [list(r) for r in X])
            R.check(not isinstance(ref, Raised), "C14:big model", "dense data is refused: %r" % (ref,), X=X)
            for en, enc in ENC:
                R.trans()
                R.state(k, i, fill, scale, m, en)
                got = attempt(getattr(p, m), enc(X))
                R.check(not isinstance(got, Raised) and same(dense(got), dense(ref), 1e-9, 1e-12), "C14:big model:%s:%s" % (type(p).__name__, m),
                        "%r sparse (%s), %r dense" % (dense(got), en, dense(ref)), X=X, model=repr(e))

    return scenario


_BIG = {}
BIG = [lambda: LogisticRegression(), lambda: RidgeClassifier(), lambda: SGDClassifier(random_state=0), lambda: DecisionTreeClassifier(random_state=0),
       lambda: RandomForestClassifier(3, random_state=0), lambda: BaggingClassifier(n_estimators=4, max_features=0.5, random_state=0), lambda: MaxAbsScaler(),
       lambda: StandardScaler(with_mean=False), lambda: Normalizer(), lambda: Normalizer("l1"), lambda: Normalizer("max"), lambda: TfidfTransformer(), lambda: TfidfTransformer(norm="l1", use_idf=False),
       lambda: Pipeline([("m", MaxAbsScaler()), ("l", LogisticRegression())])]


def scenarios(tier):
    th = tier == "thorough"
    al = [0.0, 1.5, -2.0] + ([0.5] if th else [])
    return [("big", big([1, 2, 10, 101, 400, 1030, 5000] + ([70000] if th else []))), ("big models", big_models([2, 11, 120])),
            ("container", container([0.0, 1.5, -2.0])), ("no columns", degenerate()), ("helpers", helpers(al)),
            ("models", models([0.0, 1.0, 2.5] + ([-1.0] if th else []), th))]
