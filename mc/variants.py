"""Families of models of one class that differ in exactly one thing."""

import copy
import functools

import numpy as np
from sklearn.dummy import DummyClassifier
from sklearn.ensemble import BaggingClassifier, GradientBoostingClassifier, RandomForestClassifier
from sklearn.feature_extraction import DictVectorizer
from sklearn.feature_extraction.text import CountVectorizer, HashingVectorizer, TfidfTransformer, TfidfVectorizer
from sklearn.impute import MissingIndicator, SimpleImputer
from sklearn.linear_model import LogisticRegression, RidgeClassifier
from sklearn.naive_bayes import ComplementNB, GaussianNB, MultinomialNB
from sklearn.pipeline import FeatureUnion, Pipeline
from sklearn.preprocessing import MaxAbsScaler, MinMaxScaler, Normalizer, OneHotEncoder, OrdinalEncoder, StandardScaler
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from . import ft
from .zoo import DDPROBE, DICTS, DOCS, DPROBE, NAN, PROBA, PROBE, XC, XM, XN, Y2, Y3, Model, _fit


@functools.lru_cache(None)
def families():
    F = {}
    X = np.array(XN)
    Y = np.array(Y3)

    def add(fam, name, native, probe, methods, kind="matrix", sparse=False, family="sklearn"):
        F.setdefault(fam, []).append(Model("%s/%s" % (fam, name), native, probe, methods, kind, sparse, family=family))

    # text: everything equal but one option
    PT = DPROBE + ["The RED-fish x", "old old fish b"]
    base = dict(ngram_range=(1, 1))
    text = {
        "base": {}, "stop words": dict(stop_words=["red"]), "other stop words": dict(stop_words=["fish", "old"]), "pattern": dict(token_pattern=r"\w+"),
        "case": dict(lowercase=False), "ascii": dict(strip_accents="ascii"), "unicode": dict(strip_accents="unicode"), "bigrams": dict(ngram_range=(1, 2)), "binary": dict(binary=True),
        "char": dict(analyzer="char"), "char_wb": dict(analyzer="char_wb"), "char long": dict(analyzer="char", ngram_range=(2, 3)), "latin": dict(encoding="latin-1"),
        "dtype": dict(dtype=np.float32), "ignore": dict(decode_error="ignore"),
    }
    VOC = {w: i for i, w in enumerate(sorted(set("red fish blue old dog re is d fi ete \u00e9t\u00e9 red\u0020fish b x The RED The\u0020red".split(" "))))}
    TB = PT + ["\u00e9t\u00e9 ete".encode("latin-1"), "red \u00e9t\u00e9".encode()]
    for n, kw in text.items():
        bytes_ok = TB if n in ("latin", "ignore") else PT
        add("CountVectorizer", n, CountVectorizer(vocabulary=dict(VOC), **dict(base, **kw)), bytes_ok, ["transform"], "text")
        F["CountVectorizer"][-1].native.fit(DOCS)
        add("HashingVectorizer", n, HashingVectorizer(n_features=8, **dict(base, **{k: v for k, v in kw.items() if k != "dtype"})), bytes_ok, ["transform"], "text")
        add("TfidfVectorizer", n, _fit(TfidfVectorizer(**dict(base, **{k: v for k, v in kw.items() if k != "dtype"})), DOCS), bytes_ok, ["transform"], "text")
    rev = {w: len(VOC) - 1 - i for w, i in VOC.items()}
    add("CountVectorizer", "order", _fit(CountVectorizer(vocabulary=rev), DOCS), PT, ["transform"], "text")
    for n, kw in {"sign": dict(alternate_sign=False), "features": dict(n_features=5), "l1": dict(norm="l1"), "none": dict(norm=None)}.items():
        add("HashingVectorizer", n, HashingVectorizer(**dict(dict(n_features=8), **kw)), PT, ["transform"], "text")
    for n, kw in {"base": {}, "l1": dict(norm="l1"), "none": dict(norm=None), "noidf": dict(use_idf=False), "smooth": dict(smooth_idf=False), "sublinear": dict(sublinear_tf=True)}.items():
        add("TfidfTransformer", n, _fit(TfidfTransformer(**kw), X), PROBE, ["transform"], sparse=True)
        if n != "base":
            add("TfidfVectorizer", n, _fit(TfidfVectorizer(**kw), DOCS), PT, ["transform"], "text")
    add("TfidfTransformer", "data", _fit(TfidfTransformer(), X[:4]), PROBE, ["transform"], sparse=True)
    for n, kw in {"base": {}, "dense": dict(sparse=False), "separator": dict(separator=":"), "int": dict(dtype=np.int64), "unsorted": dict(sort=False)}.items():
        add("DictVectorizer", n, _fit(DictVectorizer(**kw), DICTS), DDPROBE, ["transform"], "dict")
    add("DictVectorizer", "data", _fit(DictVectorizer(), DICTS[::-1][:4]), DDPROBE, ["transform"], "dict")

    # numbers
    for n, e in {"l1": Normalizer("l1"), "l2": Normalizer("l2"), "max": Normalizer("max"), "l2 copy": Normalizer(copy=False)}.items():
        add("Normalizer", n, _fit(e, X), PROBE, ["transform"], sparse=n != "l2 copy")
    for n, e in {"base": StandardScaler(), "nomean": StandardScaler(with_mean=False), "nostd": StandardScaler(with_std=False), "off": StandardScaler(with_mean=False, with_std=False)}.items():
        add("Scaler", n, _fit(e, X), PROBE, ["transform"])
    add("Scaler", "data", _fit(StandardScaler(), X[:4] * 2), PROBE, ["transform"])
    for n, e, D in (("minmax", MinMaxScaler(), X), ("minmax range", MinMaxScaler((-1, 3)), X), ("minmax data", MinMaxScaler(), X[:4] * 3), ("maxabs", MaxAbsScaler(), X), ("maxabs data", MaxAbsScaler(), X[:3])):
        add("Scaler", n, _fit(e, D), PROBE, ["transform"])
    M = np.array(XM)
    for n, kw in {"base": {}, "median": dict(strategy="median"), "indicator": dict(add_indicator=True), "constant": dict(strategy="constant", fill_value=-1.0), "constant 2": dict(strategy="constant", fill_value=5.0),
                  "frequent": dict(strategy="most_frequent")}.items():
        add("Imputer", n, _fit(SimpleImputer(**kw), M), XM, ["transform"], "missing")
    add("Imputer", "marker", _fit(SimpleImputer(missing_values=1.0), np.array([[1.0, 2, 1], [3, 1, 5]])), [[1.0, 1, 1], [2.0, 1, 2]], ["transform"], "missing")
    add("Imputer", "marker 2", _fit(SimpleImputer(missing_values=2.0), np.array([[1.0, 2, 1], [3, 1, 5]])), [[1.0, 1, 1], [2.0, 1, 2]], ["transform"], "missing")
    for n, kw in {"missing": dict(error_on_new=False), "all": dict(features="all"), "error": {}}.items():
        add("Indicator", n, _fit(MissingIndicator(**kw), M), XM, ["transform"], "missing")
    add("Indicator", "data", _fit(MissingIndicator(error_on_new=False), M[:1]), XM, ["transform"], "missing")
    C = np.array(XC, dtype=object)
    for n, kw in {"base": {}, "dense": dict(sparse=False), "ignore": dict(handle_unknown="ignore"), "dtype": dict(dtype=int), "order": dict(categories=[["c", "b", "a"], ["z", "y", "x"]])}.items():
        add("OneHotEncoder", n, _fit(OneHotEncoder(**kw), C), XC + ([["?", "x"]] if n == "ignore" else []), ["transform"], "cat")
        if n not in ("dense", "ignore"):
            add("OrdinalEncoder", n, _fit(OrdinalEncoder(**kw), C), XC, ["transform"], "cat")
    # the same number of categories, the same first and last one
    T = np.array([["a", "x"], ["bb", "yy"], ["c", "z"]], dtype=object)
    add("OneHotEncoder", "twin", _fit(OneHotEncoder(handle_unknown="ignore"), T), XC + T.tolist(), ["transform"], "cat")
    add("OrdinalEncoder", "twin", _fit(OrdinalEncoder(), T), T.tolist(), ["transform"], "cat")
    add("OrdinalEncoder", "twin order", _fit(OrdinalEncoder(categories=[["a", "c", "bb"], ["x", "z", "yy"]]), T), T.tolist(), ["transform"], "cat")
    U = [("a", Normalizer()), ("b", MinMaxScaler())]
    for n, L, kw in (("base", U, {}), ("weights", U, dict(transformer_weights={"a": 2.0})), ("weights 2", U, dict(transformer_weights={"b": 2.0})), ("order", U[::-1], {}), ("drop", [U[0], ("b", "drop")], {})):
        add("FeatureUnion", n, _fit(FeatureUnion(copy.deepcopy(L), **kw), X), PROBE, ["transform"])

    # classifiers with the same structure and other numbers or labels
    def edit(e, **kw):
        e = copy.deepcopy(e)
        for k, v in kw.items():
            setattr(e, k, v)
        return e

    lr = _fit(LogisticRegression(), X, Y)
    for n, e in {"base": lr, "coef": edit(lr, coef_=-lr.coef_), "intercept": edit(lr, intercept_=lr.intercept_[::-1] * 7), "ovr": edit(lr, multi_class="ovr"), "labels": edit(lr, classes_=np.array(["x", "y", "z"])),
                 "other labels": edit(lr, classes_=np.array([7, 8, 9]))}.items():
        add("LogisticRegression", n, e, PROBE, PROBA + ["decision_function"], sparse=True)
    # the same numbers in another order
    flip = lambda a: np.ascontiguousarray(a[..., [1, 0] + list(range(2, a.shape[-1]))])
    add("LogisticRegression", "twin", edit(lr, coef_=flip(lr.coef_)), PROBE, PROBA + ["decision_function"], sparse=True)
    add("LogisticRegression", "twin classes", edit(lr, coef_=lr.coef_[[1, 0, 2]], intercept_=lr.intercept_[[1, 0, 2]]), PROBE, PROBA + ["decision_function"], sparse=True)
    ss = _fit(StandardScaler(), X)
    add("Scaler", "twin", edit(ss, scale_=flip(ss.scale_), mean_=flip(ss.mean_)), PROBE, ["transform"])
    ms = _fit(MinMaxScaler(), X)
    add("Scaler", "minmax twin", edit(ms, scale_=flip(ms.scale_), min_=flip(ms.min_)), PROBE, ["transform"])
    nb = _fit(GaussianNB(), X, Y)
    add("GaussianNB", "twin", edit(nb, theta_=flip(nb.theta_), sigma_=flip(nb.sigma_)), PROBE, PROBA)
    for f, c in (("MultinomialNB", MultinomialNB), ("ComplementNB", ComplementNB)):
        nb = _fit(c(), X, Y)
        add(f, "twin", edit(nb, feature_log_prob_=flip(nb.feature_log_prob_)), PROBE, PROBA)
    si = _fit(SimpleImputer(), M)
    add("Imputer", "twin", edit(si, statistics_=flip(si.statistics_)), XM, ["transform"], "missing")
    words = sorted(VOC)
    for n, k in (("twin", 1), ("twin 2", 2)):
        swapped = dict(VOC)
        swapped[words[k]], swapped[words[k + 3]] = VOC[words[k + 3]], VOC[words[k]]
        add("CountVectorizer", n, _fit(CountVectorizer(vocabulary=swapped), DOCS), PT, ["transform"], "text")
    rc = _fit(RidgeClassifier(), X, Y)
    for n, e in {"base": rc, "coef": edit(rc, coef_=-rc.coef_), "labels": _fit(RidgeClassifier(), X, np.array(list("xyz"))[Y])}.items():
        add("Ridge", n, e, PROBE, ["predict", "decision_function"], sparse=True)
    for n, y, D in (("base", Y, X), ("labels", np.array(list("xyz"))[Y], X), ("swapped", Y[::-1], X), ("data", Y, X[::-1])):
        add("Tree", n, _fit(DecisionTreeClassifier(random_state=0), D, y), PROBE, PROBA, sparse=True)
        add("Forest", n, _fit(RandomForestClassifier(2, random_state=0), D, y), PROBE, PROBA, sparse=True)
        add("Bagging", n, _fit(BaggingClassifier(DecisionTreeClassifier(max_depth=2), 2, max_features=2, random_state=0), D, y), PROBE, PROBA, sparse=True)
        add("GaussianNB", n, _fit(GaussianNB(), D, y), PROBE, PROBA)
        add("MultinomialNB", n, _fit(MultinomialNB(), D, y), PROBE, PROBA)
        add("ComplementNB", n, _fit(ComplementNB(), D, y), PROBE, PROBA)
        add("Dummy", n, _fit(DummyClassifier(strategy="prior"), D, np.where(y == y[0], y[0], y[1])), PROBE, PROBA)
        add("Pipeline", n, _fit(Pipeline([("s", StandardScaler()), ("c", GaussianNB())]), D, y), PROBE, PROBA)
    add("Pipeline", "skipped", _fit(Pipeline([("s", None), ("c", GaussianNB())]), X, Y), PROBE, PROBA)
    for n, s in (("regression", 1.0), ("regression 2", -2.0)):
        add("Tree", n, DecisionTreeRegressor(random_state=0).fit(X, np.arange(9) * s), PROBE, ["predict"], sparse=True)
    g = dict(n_estimators=2, max_depth=2, random_state=0)
    y2 = np.array(Y2)
    for n, kw, y in (("base", {}, y2), ("rate", dict(learning_rate=1.0), y2), ("exponential", dict(loss="exponential"), y2), ("zero", dict(init="zero"), y2), ("labels", {}, np.array(["n", "y"])[y2]), ("more", dict(n_estimators=3), y2),
                     ("multi", {}, Y), ("multi labels", {}, np.array(list("xyz"))[Y])):
        add("GradientBoosting", n, _fit(GradientBoostingClassifier(**dict(g, **kw)), X, y), PROBE, PROBA)
    try:
        from xgboost import XGBClassifier
    except ImportError:
        pass
    else:
        Xm = X.copy()
        Xm[0, 0] = NAN
        for n, kw, y in (("base", {}, Y2), ("score", dict(base_score=0.2), Y2), ("rate", dict(learning_rate=1.0), Y2), ("missing", dict(missing=0.0), Y2), ("multi", dict(objective="multi:softprob"), Y3)):
            add("XGB", n, _fit(XGBClassifier(n_estimators=2, max_depth=2, booster="gbtree", n_jobs=1, **kw), X if n == "missing" else Xm, np.array(y)), PROBE[:3], ["predict", "predict_proba"])

    # fastText: same words, other numbers
    W = ["</s>", "a", "b", "bb"]
    I = [[1, 0], [0.5, -1], [-2, 0.25], [3, 1]]
    L = ["__label__p", "__label__q"]
    O = [[1, 2], [3, -1]]
    LINE = ["a b", "", "zz bb a", "b"]
    meth = ["predict", "get_sentence_vector", "get_word_vector", "get_word_id"]
    for n, a in (("base", (W, L, I, O)), ("input", (W, L, I[::-1], O)), ("output", (W, L, I, O[::-1])), ("words", (W[::-1], L, I, O)), ("labels", (W, ["__label__u", "__label__v"], I, O))):
        add("fastText", n, ft.load(*a), LINE, meth, "line", family="fasttext")
    for n, a in (("vectors", (W, [], I, I)), ("vectors 2", (W, [], I[::-1], I))):
        add("fastText", n, ft.load(*a, model=2, loss=1), LINE, meth[1:], "line", family="fasttext")
    return F
