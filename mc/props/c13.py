"""C13: Pipeline and FeatureUnion."""

import functools
import itertools

import numpy as np
from sklearn.dummy import DummyClassifier
from sklearn.ensemble import RandomForestClassifier
from sklearn.feature_extraction import DictVectorizer
from sklearn.feature_extraction.text import CountVectorizer, HashingVectorizer, TfidfTransformer, TfidfVectorizer
from sklearn.impute import MissingIndicator, SimpleImputer
from sklearn.linear_model import LogisticRegression, Perceptron, RidgeClassifier, SGDClassifier
from sklearn.naive_bayes import GaussianNB
from sklearn.pipeline import FeatureUnion, Pipeline
from sklearn.preprocessing import MaxAbsScaler, MinMaxScaler, Normalizer, OneHotEncoder, OrdinalEncoder, StandardScaler
from sklearn.svm import LinearSVC
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from ..cmp import Raised, attempt, compare, dense
from ..dom import call, convert, native, quiet_fit

BOUNDS = {
    "quick": "every pipeline of two transformers (15 kinds incl. nested unions, nested pipelines, skipped steps) and one of 12 final steps; every union of 1-3 "
             "of 9 branches (dense, sparse, dropped, nested) with 6 weightings; every union of 1-3 text branches followed by each of 4 finals; dictionary pipelines; nesting depth 4",
    "thorough": "pipelines of three transformers",
}
ASSUMPTIONS = ["compositions in which a dense-only converted step would receive sparse data are outside the domain (documented: such input is refused)"]
METHODS = ["transform", "predict", "predict_proba", "predict_log_proba"]
NAN = float("nan")

Y = np.array(["no", "yes", "maybe", "yes", "no", "maybe", "yes", "no"])
X0 = [[0.0, 1, 2], [1, 0, 2], [2, 2, 1], [0, 1, 1], [1, 2, 2], [2, 0, 1], [0, 2, 2], [1, 1, 1]]
XT = [[0.0, 1, 2], [2, 2, 1], [1, 0, 1], [0, 0, 1], [2, 1, 2], [1, 1, 1], [0, 2, 2]]


def u(*steps, weights=None):
    return FeatureUnion([("s%d" % i, s() if callable(s) else s) for i, s in enumerate(steps)], transformer_weights=weights)


def pipe(*steps):
    return Pipeline([("s%d" % i, s() if callable(s) else s) for i, s in enumerate(steps)])


ATOMS = {
    "std": StandardScaler, "std-nomean": lambda: StandardScaler(with_mean=False), "minmax": MinMaxScaler, "maxabs": MaxAbsScaler,
    "norm": lambda: Normalizer(norm="l1"), "imputer": lambda: SimpleImputer(missing_values=0, add_indicator=True),
    "onehot": lambda: OneHotEncoder(handle_unknown="ignore"), "onehot-dense": lambda: OneHotEncoder(handle_unknown="ignore", sparse=False),
    "none": lambda: None, "pass": lambda: "passthrough",
}
NESTED = dict(ATOMS, **{
    "union": lambda: u(StandardScaler, MaxAbsScaler), "union-w": lambda: u(MaxAbsScaler, "drop", Normalizer, weights={"s0": 2.0, "s2": -0.5}),
    "union-mixed": lambda: u(MaxAbsScaler, lambda: OneHotEncoder(handle_unknown="ignore")),
    "pipe": lambda: pipe(MaxAbsScaler, "passthrough", lambda: StandardScaler(with_mean=False)),
    "deep": lambda: pipe(lambda: u(lambda: pipe(MaxAbsScaler, lambda: u(Normalizer, MaxAbsScaler, weights={"s1": 3.0})), "drop"), MaxAbsScaler),
})
FINALS = {
    "lr": lambda: LogisticRegression(), "tree": lambda: DecisionTreeClassifier(random_state=0), "gnb": GaussianNB, "ridge": RidgeClassifier,
    "svc": lambda: LinearSVC(random_state=0), "forest": lambda: RandomForestClassifier(2, random_state=0),
    "dummy": lambda: DummyClassifier(strategy="prior"), "perceptron": lambda: Perceptron(random_state=0), "none": lambda: None,
    "pass": lambda: "passthrough", "scaler": lambda: StandardScaler(with_mean=False), "pipe": lambda: pipe(MaxAbsScaler, lambda: LogisticRegression()),
    "sgd-log": lambda: SGDClassifier(loss="log", random_state=0),
}


def judge(R, est, X, Xn, key, name):
    p = convert(R, est, key, model=name)
    if p is None:
        return
    R.state(key, name)
    for m in METHODS:
        a, b = hasattr(est, m), hasattr(p, m)
        R.check(a == b, key + ":offers", "native offers %s: %s, converted: %s" % (m, a, b), model=name)
        if not (a and b):
            continue
        ref = native(est, m, Xn)
        got = call(R, p, m, X)
        if isinstance(got, Raised) and "parse input" in str(got.e):
            R.count("dense_only_step_given_sparse")
            continue
        compare(R, key + ":" + m, ref, got, X, what=m, model=name)
    if hasattr(est, "classes_") and hasattr(est, "predict"):
        R.check(dense(est.classes_) == dense(p.classes_), key + ":classes", "classes_ differ", model=name, reference=est.classes_, got=p.classes_)


def pipelines(k):
    def scenario(ch, R):
        names = [ch.choose("step%d" % i, list(NESTED)) for i in range(k)]
        fin = ch.choose("final", list(FINALS))
        est = pipe(*([NESTED[n] for n in names] + [FINALS[fin]]))
        X = np.array(X0)
        if isinstance(attempt(quiet_fit, est, X, Y), Raised):
            R.count("native_fit_refused")
            R.validated()
            return
        judge(R, est, [list(r) for r in XT], np.array(XT), "C13:pipeline", "+".join(names + [fin]))

    return scenario


BRANCH = {k: ATOMS[k] for k in ("std", "maxabs", "norm", "onehot", "onehot-dense", "imputer")}
BRANCH.update({"drop": lambda: "drop", "pipe": NESTED["pipe"], "union-mixed": NESTED["union-mixed"], "indicator": lambda: MissingIndicator(missing_values=0, features="all")})
WEIGHTS = [None, {}, {"s0": 2.0}, {"s0": 0.5, "s1": -1.0}, {"s0": 0.0, "s1": 4, "s2": 1e-3}, {"s2": 3.0}]


def unions(k):
    def scenario(ch, R):
        names = [ch.choose("branch%d" % i, list(BRANCH)) for i in range(k)]
        w = ch.choose("weights", WEIGHTS if k > 1 else WEIGHTS[:3])
        if w:
            w = {a: b for a, b in w.items() if int(a[1:]) < k}
        est = u(*[BRANCH[n] for n in names], weights=w)
        if isinstance(attempt(quiet_fit, est, np.array(X0), Y), Raised):
            R.count("native_fit_refused")
            R.validated()
            return
        judge(R, est, [list(r) for r in XT], np.array(XT), "C13:union", "+".join(names) + str(w))

    return scenario


TEXT = {
    "count": lambda: CountVectorizer(), "tfidf": lambda: TfidfVectorizer(analyzer="char", ngram_range=(1, 2)), "hash": lambda: HashingVectorizer(n_features=7),
    "binary": lambda: CountVectorizer(binary=True), "pipe": lambda: pipe(CountVectorizer, lambda: TfidfTransformer(norm=None)), "drop": lambda: "drop",
    "nested": lambda: u(CountVectorizer, lambda: HashingVectorizer(n_features=3, binary=True, norm=None), weights={"s1": -2.0}),
}
DOCS = ["red fish", "blue fish fish", "old red dog", "dog dog blue", "", "red dog", "fish", "blue"]
DT = ["red fish dog", "", "fish fish fish", "unknown words", "Blue OLD"]


def texts(k):
    def scenario(ch, R):
        names = [ch.choose("branch%d" % i, list(TEXT)) for i in range(k)]
        w = ch.choose("weights", [None, {"s0": 2.0}, {"s0": 0.5, "s1": -1.0}])
        if w:
            w = {a: b for a, b in w.items() if int(a[1:]) < k}
        fin = ch.choose("final", ["lr", "tree", "tfidf", "pass", "maxabs"])
        if all(n == "drop" for n in names):
            R.validated()
            return
        f = {"tfidf": TfidfTransformer, "maxabs": MaxAbsScaler}.get(fin) or FINALS[fin]
        est = pipe(lambda: u(*[TEXT[n] for n in names], weights=w), f)
        quiet_fit(est, DOCS, Y)
        judge(R, est, list(DT), list(DT), "C13:text", "+".join(names) + str(w) + fin)

    return scenario


DICTS = [{"a": 1, "b": "x"}, {"a": 2, "b": "y"}, {"c": 1.5}, {"a": -1, "c": 2}, {"b": "x"}, {"a": 3, "b": "y", "c": 1}, {"b": "y"}, {}]


def dicts():
    def scenario(ch, R):
        sparse = ch.flag("sparse")
        mid = ch.choose("middle", ["maxabs", "norm", "std-nomean", "none", "union-mixed"] + ([] if sparse else ["std", "minmax"]))
        fin = ch.choose("final", list(FINALS))
        est = pipe(lambda: DictVectorizer(sparse=sparse), NESTED[mid], FINALS[fin])
        if isinstance(attempt(quiet_fit, est, DICTS, Y), Raised):
            R.count("native_fit_refused")
            R.validated()
            return
        X = DICTS[::-1] + [{"zz": 1, "a": 1}]
        judge(R, est, [dict(d) for d in X], [dict(d) for d in X], "C13:dicts", "%s+%s+%s" % (sparse, mid, fin))

    return scenario


def large(depths, branches):
    """deep nesting, many steps, many branches"""

    def scenario(ch, R):
        shape = ch.choose("shape", ["nested pipelines", "long pipeline", "many branches", "nested unions", "many texts"])
        n = ch.choose("n", depths if shape in ("nested pipelines", "long pipeline") else branches if shape != "nested unions" else [1, 2, 4, 7])
        fin = ch.choose("final", ["lr", "tree", "pass"])
        a = ch.choose("atom", ["std", "maxabs", "norm", "onehot", "imputer"] if shape in ("many branches", "nested unions") else ["std", "norm", "maxabs"])
        w = ch.choose("weights", [None, "some"]) if shape in ("many branches", "many texts") else None
        X, Xt = X0, XT
        if shape == "nested pipelines":
            e = FINALS[fin]()
            for i in range(n):
                e = Pipeline([("t%d" % i, ATOMS[a]() if i % 3 != 1 else "passthrough"), ("e%d" % i, e)])
            est = e
        elif shape == "long pipeline":
            est = Pipeline([("t%d" % i, ATOMS[[a, "maxabs", "std"][i % 3]]() if i % 4 != 2 else [None, "passthrough"][i % 8 // 4]) for i in range(n)] + [("f", FINALS[fin]())])
        elif shape == "nested unions":
            e = ATOMS[a]()
            for i in range(n):
                e = FeatureUnion([("a", e), ("b", ATOMS["maxabs"]()), ("c", "drop")], transformer_weights={"a": 0.5, "b": 1 + i})
            est = Pipeline([("u", e), ("f", FINALS[fin]())])
        elif shape == "many branches":
            names = sorted(k for k in BRANCH if k not in ("drop",))
            br = [("s%d" % i, BRANCH[[a, names[i % len(names)], "drop"][0 if i % 2 == 0 else 1 if i % 3 else 2]]()) for i in range(n)]
            est = Pipeline([("u", FeatureUnion(br, transformer_weights={"s%d" % i: i - 2.5 for i in range(0, n, 3)} if w else None)), ("f", FINALS[fin]())])
        else:
            names = sorted(k for k in TEXT if k not in ("drop",))
            br = [("s%d" % i, TEXT[names[i % len(names)]]()) for i in range(n)]
            est = Pipeline([("u", FeatureUnion(br, transformer_weights={"s%d" % i: i - 2.5 for i in range(0, n, 3)} if w else None)), ("f", FINALS[fin]())])
            X, Xt = DOCS, DT
        if isinstance(attempt(quiet_fit, est, np.array(X) if X is X0 else X, Y), Raised):
            R.count("native_fit_refused")
            R.validated()
            return
        q = [list(r) for r in Xt] if Xt is XT else list(Xt)
        judge(R, est, q, np.array(q) if Xt is XT else q, "C13:large:" + shape, "%s %d %s %s %s" % (shape, n, a, fin, w))

    return scenario


def scenarios(tier):
    t = tier == "thorough"
    return [("pipelines 0", pipelines(0)), ("pipelines 1", pipelines(1)), ("pipelines 2", pipelines(2))] + ([("pipelines 3", pipelines(3))] if t else []) + [
        ("unions %d" % k, unions(k)) for k in (1, 2, 3)] + [("texts %d" % k, texts(k)) for k in (1, 2, 3)] + [
        ("dicts", dicts()), ("large", large([1, 2, 5, 20, 60], [1, 5, 10, 11, 40]))]
