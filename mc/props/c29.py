"""C29: predictions are the original class labels."""

import itertools
import warnings

import numpy as np
from pure_fasttext import FastText
from sklearn.dummy import DummyClassifier
from sklearn.ensemble import BaggingClassifier, ExtraTreesClassifier, GradientBoostingClassifier, RandomForestClassifier
from sklearn.linear_model import LogisticRegression, PassiveAggressiveClassifier, Perceptron, RidgeClassifier, SGDClassifier
from sklearn.naive_bayes import ComplementNB, GaussianNB, MultinomialNB
from sklearn.pipeline import FeatureUnion, Pipeline
from sklearn.preprocessing import StandardScaler
from sklearn.svm import LinearSVC
from sklearn.tree import DecisionTreeClassifier, ExtraTreeClassifier

from .. import ft
from ..cmp import Raised, attempt, dense, tie_tolerant_labels
from ..dom import convert, enc_sparse_dict, quiet_fit

BOUNDS = {
    "quick": "24 classifier kinds (pipelines, ensembles of ensembles, custom initial estimators included) x 20 label alphabets (integers, negative, non-contiguous, large, numpy integer and float types, booleans, "
             "floats, strings of mixed case, accents, digits, long strings, python objects) x every subset of 1-3 labels in every order of appearance; xgboost with 2-4 classes; fastText with every order of "
             "3 out of 6 label texts; values and python types compared with the native labels",
    "thorough": "every subset of 4 labels",
}
ASSUMPTIONS = ["labels are compared with the python value of the native label (numpy scalars convert by item())"]

I8 = np.int8
ALPHABETS = {
    "consecutive": [0, 1, 2, 3], "from one": [1, 2, 3, 4], "negative": [-5, -1, 0, 7], "gaps": [10, 200, 3, -4], "large": [2**40, -(2**40), 2**53 + 1, 5],
    "int8": np.array([-128, 0, 127, 5], dtype=np.int8), "uint8": np.array([255, 0, 3, 128], dtype=np.uint8), "uint64": np.array([2**63 + 1, 0, 7, 2**64 - 1], dtype=np.uint64),
    "floats": [-1.5, 0.0, 2.5, 0.1], "integral floats": [1.0, 2.0, 0.0, -3.0], "float32": np.array([0.1, -2.5, 1e10, 0.0], dtype=np.float32),
    "strings": ["b", "a", "B", "A"], "digit strings": ["10", "9", "1", "2"], "accents": ["\u00e9t\u00e9", "z", "\u4e2d\u6587", " "], "long strings": ["a" * 40, "a" * 39 + "b", "c", ""],
    "objects": np.array(["no", "yes", "maybe", "No"], dtype=object), "booleans": [True, False], "words": ["nan", "None", "True", "1"], "blanks": [" a", "a ", "a", "\ta"], "normal forms": ["\u00e9", "e\u0301", "\u00c9", "e"], "tiny": [1e-300, -1e-300, 1e300, 5e-324],
}
X = np.array([[0.0, 1.0], [1.0, 0.25], [2.0, 2.0], [0.25, 1.25], [1.25, 0.0], [2.25, 1.75], [0.0, 0.75], [0.75, 0.0], [1.75, 2.25], [3.0, 3.0], [3.25, 0.5]])
G = [0, 1, 2, 0, 1, 2, 0, 1, 2, 3, 3]
ROWS = [[a, b] for a in (-1.0, 0.0, 0.8, 1.5, 2.0, 3.0, 9.0) for b in (0.0, 0.3, 1.0, 2.0, 9.0)]

KINDS = {
    "LogisticRegression": (lambda: LogisticRegression(max_iter=40), True), "LogisticRegression ovr": (lambda: LogisticRegression(multi_class="ovr", max_iter=40), True), "RidgeClassifier": (lambda: RidgeClassifier(), True),
    "SGDClassifier": (lambda: SGDClassifier(random_state=0), True), "SGDClassifier log": (lambda: SGDClassifier(loss="log", random_state=0), True), "Perceptron": (lambda: Perceptron(random_state=0), True),
    "PassiveAggressiveClassifier": (lambda: PassiveAggressiveClassifier(random_state=0), True), "LinearSVC": (lambda: LinearSVC(random_state=0), True), "LinearSVC crammer": (lambda: LinearSVC(multi_class="crammer_singer", random_state=0), True),
    "DecisionTreeClassifier": (lambda: DecisionTreeClassifier(random_state=0), True), "ExtraTreeClassifier": (lambda: ExtraTreeClassifier(random_state=0), True),
    "RandomForestClassifier": (lambda: RandomForestClassifier(3, random_state=0), True), "ExtraTreesClassifier": (lambda: ExtraTreesClassifier(2, random_state=0), True),
    "BaggingClassifier": (lambda: BaggingClassifier(n_estimators=3, max_samples=0.4, random_state=0), True), "BaggingClassifier svc": (lambda: BaggingClassifier(LinearSVC(random_state=0), n_estimators=2, random_state=0), True),
    "BaggingClassifier forest": (lambda: BaggingClassifier(RandomForestClassifier(2, random_state=0), n_estimators=2, random_state=1), True),
    "BaggingClassifier pipeline": (lambda: BaggingClassifier(Pipeline([("s", StandardScaler()), ("t", DecisionTreeClassifier(random_state=0))]), n_estimators=2, random_state=1), False),
    "GradientBoostingClassifier": (lambda: GradientBoostingClassifier(n_estimators=2, random_state=0), False), "GradientBoostingClassifier init": (lambda: GradientBoostingClassifier(n_estimators=2, init=DecisionTreeClassifier(max_depth=1), random_state=0), False),
    "GaussianNB": (lambda: GaussianNB(), False), "MultinomialNB": (lambda: MultinomialNB(), False), "ComplementNB": (lambda: ComplementNB(), False), "DummyClassifier": (lambda: DummyClassifier(strategy="prior"), True),
    "Pipeline": (lambda: Pipeline([("u", FeatureUnion([("a", StandardScaler()), ("b", StandardScaler(with_mean=False))])), ("p", Pipeline([("c", LogisticRegression(max_iter=40))]))]), False),
}
EXACT = ("Tree", "Forest", "Dummy")


def judge(R, e, p, rows, key, sparse, tol=1e-9, **det):
    Xn = np.array(rows)
    ref = attempt(e.predict, Xn)
    if isinstance(ref, Raised):
        R.count("reference_refused")
        R.validated()
        return
    want = ref.tolist()
    classes = e.classes_.tolist()
    for enc in [lambda r: [list(x) for x in r]] + ([enc_sparse_dict] if sparse else []):
        got = attempt(p.predict, enc(rows))
        R.trans()
        R.state(key, det)
        if not R.check(not isinstance(got, Raised) and len(got) == len(want), key, "predict answers %r" % (got,), **det):
            return
        for i, (a, b) in enumerate(zip(want, got)):
            if type(b) not in {type(c) for c in classes} or b not in classes:
                R.fail(key + ":kind", "label %r (%s) is none of the original labels %r" % (b, type(b).__name__, classes), row=rows[i], **det)
                return
        if want != got:
            s = attempt(lambda: getattr(e, "decision_function" if hasattr(e, "decision_function") else "predict_proba")(Xn))
            bad = list(range(len(want))) if isinstance(s, Raised) else tie_tolerant_labels(dense(s), want, got, classes, tol)
            if bad:
                R.fail(key, "labels %r instead of %r" % (got, want), rows=bad, **det)
                return
        pc = getattr(p, "classes_", classes)
        R.check(list(pc) == classes and [type(c) for c in pc] == [type(c) for c in classes], key + ":classes", "classes_ is %r instead of %r" % (pc, classes), **det)
    R.outcome(repr(sorted(set(want), key=repr)))


def fitted(kmax):
    def scenario(ch, R):
        warnings.simplefilter("ignore")
        kind = ch.choose("classifier", list(KINDS))
        an = ch.choose("labels", list(ALPHABETS))
        alpha = list(ALPHABETS[an])
        mk, sparse = KINDS[kind]
        for k in range(1, min(kmax, len(alpha)) + 1):
            for labels in itertools.permutations(alpha, k):
                if k == 4 and kind not in ("DecisionTreeClassifier", "LogisticRegression", "GaussianNB", "DummyClassifier", "RidgeClassifier") and labels[0] != alpha[0]:
                    continue
                idx = [i for i in range(len(G)) if G[i] < k]
                y = np.empty(len(idx), dtype=object)
                y[:] = [labels[G[i]] for i in idx]
                src = ALPHABETS[an]
                y = y if an == "objects" else y.astype(src.dtype) if isinstance(src, np.ndarray) else np.array(y.tolist())
                e = attempt(lambda: quiet_fit(mk(), X[idx], y))
                if isinstance(e, Raised):
                    R.count("native_fit_refused")
                    R.validated()
                    continue
                p = convert(R, e, "C29:" + kind, labels=labels)
                if p is not None:
                    judge(R, e, p, ROWS, "C29:" + kind, sparse, labels=labels, alphabet=an)

    return scenario


def xgb():
    from xgboost import XGBClassifier

    def scenario(ch, R):
        k = ch.choose("classes", [2, 3, 4])
        order = ch.choose("order", list(itertools.permutations(range(k))))
        depth = ch.choose("depth", [1, 3])
        idx = [i for i in range(len(G)) if G[i] < k]
        y = np.array([order[G[i]] for i in idx])
        e = quiet_fit(XGBClassifier(n_estimators=3, max_depth=depth, n_jobs=1, min_child_weight=0), X[idx], y)
        p = convert(R, e, "C29:xgb")
        if p is not None:
            judge(R, e, p, ROWS, "C29:xgb", False, tol=2e-6, order=order, depth=depth)

    return scenario


LABELS = ["spam", "B", "a", "10", "9", "\u00e9"]


def fasttext():
    def scenario(ch, R):
        names = ch.choose("labels", list(itertools.permutations(LABELS, 3)))
        prefix = ch.choose("prefix", ["__label__", "#", "__label__x"])
        out = ch.choose("order", list(itertools.permutations([[1.0], [0.25], [-1.0]])))
        labels = ["__label__" + n if prefix == "__label__" else prefix + n for n in names]
        if prefix == "__label__":
            m = ft.load(["</s>", "a", "b"], labels, [[0.5], [1.0], [-2.0]], out)
        else:
            d = ["%s%s %s" % (prefix, n, w) for n, w in zip(names, "abc")] * 5
            m = attempt(ft.train, d, True, label=prefix, dim=2, lr=1.0)
            if isinstance(m, Raised):
                R.validated()
                return
        p = FastText(m)
        for t in ("a", "b", "a b b", "c", ""):
            R.trans()
            R.state(names, prefix, out, t)
            ref, got = attempt(m.predict, t, k=3), attempt(p.predict, t, k=3)
            if isinstance(ref, Raised):
                continue
            if not R.check(not isinstance(got, Raised) and all(type(g) is str for g in got[0]) and sorted(got[0]) == sorted(ref[0]), "C29:fasttext", "labels %r instead of %r" % (got, ref), text=t):
                continue
            pr = dict(zip(ref[0], map(float, ref[1])))
            R.check(all(abs(pr[a] - pr[b]) < 1e-6 for a, b in zip(ref[0], got[0])), "C29:fasttext", "labels %r instead of %r" % (got, ref), text=t)

    return scenario


def scenarios(tier):
    return [("fitted", fitted(4 if tier == "thorough" else 3)), ("xgboost", xgb()), ("fasttext", fasttext())]
