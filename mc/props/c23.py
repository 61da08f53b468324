"""C23: models outside the supported set are refused, never mis-answered."""

import copy
import functools
import importlib
import inspect
import io
import itertools
import os
import pkgutil
import shutil
import tempfile
import types
import warnings

import numpy as np
import sklearn
import sklearn.base
from pure_fasttext import FastText
from pure_sklearn.map import convert_estimator
from sklearn.base import BaseEstimator, ClassifierMixin, TransformerMixin, clone
from sklearn.dummy import DummyClassifier, DummyRegressor
from sklearn.ensemble import BaggingClassifier, ExtraTreesClassifier, GradientBoostingClassifier, RandomForestClassifier, VotingClassifier
from sklearn.feature_extraction import DictVectorizer
from sklearn.feature_extraction.text import CountVectorizer, HashingVectorizer, TfidfTransformer, TfidfVectorizer
from sklearn.impute import MissingIndicator, SimpleImputer
from sklearn.linear_model import LogisticRegression, PassiveAggressiveClassifier, Perceptron, RidgeClassifier, SGDClassifier
from sklearn.naive_bayes import BernoulliNB, ComplementNB, GaussianNB, MultinomialNB
from sklearn.neighbors import KNeighborsClassifier
from sklearn.pipeline import FeatureUnion, Pipeline
from sklearn.preprocessing import FunctionTransformer, MaxAbsScaler, MinMaxScaler, Normalizer, OneHotEncoder, OrdinalEncoder, PolynomialFeatures, StandardScaler
from sklearn.svm import SVC, LinearSVC
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor, ExtraTreeClassifier, ExtraTreeRegressor

from .. import ft
from ..cmp import Raised, attempt, dense, fast_same, is_sparse_list, tie_tolerant_labels
from ..zoo import DDPROBE, DICTS, DOCS, DPROBE, XC, XCN, XM, XMS, XN, Y2, Y3, zoo

BOUNDS = {
    "quick": "every estimator class of scikit-learn (about 190) that fits on one of 6 small data sets; the full product of the answer-affecting options of every mapped estimator (about 3000 configurations, "
             "callables, unsupported members, multi-output targets and unfitted models included); every xgboost objective, booster, tree method and data kind; every fastText model kind, loss, n-gram and "
             "subword setting, quantised included; every mapped estimator x a grammar of version strings",
    "thorough": "two-option products extended to three values more per option",
}
ASSUMPTIONS = ["scikit-learn 0.23.2, xgboost 1.7.6 and fastText 0.9.1 as installed are the originals; an exception at conversion or when asked counts as a refusal",
               "the version a model is judged by is the one scikit-learn reports in its state (unpickling an older model does not preserve it)"]
METHODS = ["predict", "predict_proba", "predict_log_proba", "decision_function", "transform"]
X = np.array(XN)
NAN = float("nan")


def agree(R, key, e, p, args, what, tol=1e-7, nan_ok=False):
    """every request the converted model answers, it answers like the original"""
    for X_, A in args:
        for m in METHODS:
            if not hasattr(p, m):
                continue
            R.trans()
            R.state(key, what, m)
            got = attempt(lambda: getattr(p, m)(copy.deepcopy(A)))
            if isinstance(got, Raised):
                R.count("refused_when_asked")
                R.validated()
                continue
            if not R.check(hasattr(e, m), key + ":" + m, "%s: %s is answered, the original offers none" % (what, m), got=got):
                continue
            ref = attempt(lambda: by_row(e, m, X_) if quirky(e) else getattr(e, m)(copy.deepcopy(X_)))
            if isinstance(ref, Raised):
                R.count("reference_refused")
                continue
            if isinstance(ref, list):  # multi-output
                ref = [np.asarray(r) for r in ref]
            ref, got = dense(ref), dense(got)
            ok = fast_same(ref, got, tol, 1e-9 if tol < 1e-6 else tol)
            if not ok and m == "predict" and len(ref) == len(got):
                s = attempt(lambda: getattr(e, "decision_function" if hasattr(e, "decision_function") else "predict_proba")(X_))
                ok = not isinstance(s, Raised) and not tie_tolerant_labels(dense(s), ref, got, e.classes_.tolist(), max(tol, 1e-9))
            R.check(ok, key, "%s: conversion succeeds but %s differs from the original" % (what, m), reference=ref, got=got)
            R.outcome(str(got)[:3000])


def quirky(e):
    """scikit-learn 0.23.2 mis-reads a batch of initial scores that is stored column by column (GaussianNB's is): its one-row answers are the reference"""
    return isinstance(e, GradientBoostingClassifier) and "GaussianNB" in str(e.init)


def by_row(e, m, X_):
    return np.concatenate([getattr(e, m)(X_[i:i + 1]) for i in range(len(X_))])


def probe(R, key, e, args, what, must_refuse=False, tol=1e-7):
    R.trans()
    p = attempt(convert_estimator, e)
    R.validated()
    if isinstance(p, Raised):
        R.count("refused")
        R.outcome("refused", p.name)
        return
    R.count("accepted")
    if must_refuse:
        R.check(False, key, "%s is accepted" % what)
        return
    agree(R, key, e, p, args, what, tol)


def numeric(rows=None):
    rows = XN if rows is None else rows
    return [(np.array(rows, dtype=float), rows)]


# ------------------------------------------------------------- every estimator
MAPPED = ["LogisticRegression", "RidgeClassifier", "SGDClassifier", "Perceptron", "PassiveAggressiveClassifier", "LinearSVC", "DecisionTreeClassifier", "DecisionTreeRegressor", "ExtraTreeClassifier",
          "ExtraTreeRegressor", "RandomForestClassifier", "BaggingClassifier", "GradientBoostingClassifier", "XGBClassifier", "ExtraTreesClassifier", "GaussianNB", "MultinomialNB", "ComplementNB",
          "SimpleImputer", "MissingIndicator", "DummyClassifier", "Pipeline", "FeatureUnion", "OneHotEncoder", "OrdinalEncoder", "StandardScaler", "MinMaxScaler", "MaxAbsScaler", "Normalizer",
          "DictVectorizer", "TfidfVectorizer", "CountVectorizer", "TfidfTransformer", "HashingVectorizer"]
SETS = [
    ("numeric", lambda: (X, np.array(Y3)), numeric),
    ("regression", lambda: (X, np.arange(9) * 0.5 - 1), numeric),
    ("two outputs", lambda: (X, np.array([Y3, Y2]).T), numeric),
    ("real outputs", lambda: (X, np.array([np.arange(9) * 1.0, 3.0 - np.arange(9)]).T), numeric),
    ("text", lambda: (DOCS, np.array(Y3)), lambda: [(DPROBE, DPROBE)]),
    ("dicts", lambda: (DICTS, np.array(Y3)), lambda: [(DDPROBE, DDPROBE)]),
]


@functools.lru_cache(None)
def classes():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import sklearn.feature_extraction.text as t

        found = []
        for info in sorted(pkgutil.walk_packages(sklearn.__path__, "sklearn.", onerror=lambda n: None), key=lambda i: i.name):
            if ".tests" in info.name or ".externals" in info.name or "conftest" in info.name or "setup" in info.name or "_build" in info.name:
                continue
            mod = attempt(importlib.import_module, info.name)
            if isinstance(mod, Raised):  # some modules do not import with the installed scipy
                continue
            for n, c in sorted(vars(mod).items()):
                if isinstance(c, type) and issubclass(c, BaseEstimator) and not n.startswith("_") and c.__module__.startswith("sklearn.") and not inspect.isabstract(c):
                    found.append(c)

        found += [DictVectorizer, t.CountVectorizer, t.TfidfVectorizer, t.HashingVectorizer, t.TfidfTransformer]
    slow = {"GridSearchCV", "RandomizedSearchCV"}
    seen, out = set(), []
    for c in found:
        if c.__name__ not in seen and c.__name__ not in slow:
            seen.add(c.__name__)
            out.append(c)
    return out


def fit(e, X_, y):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return e.fit(X_, y)


def everything():
    def scenario(ch, R):
        c = ch.choose("class", classes())
        name = c.__name__
        key = "C23:class:" + name
        e = attempt(c)
        if isinstance(e, Raised):
            base = {"estimator": LogisticRegression(), "base_estimator": LogisticRegression(), "estimators": [("a", LogisticRegression()), ("b", GaussianNB())],
                    "transformers": [("a", StandardScaler(), [0, 1])], "steps": [("s", StandardScaler())], "transformer_list": [("s", StandardScaler())],
                    "dictionary": np.eye(3)}
            need = [k for k, v in inspect.signature(c.__init__).parameters.items() if v.default is inspect._empty and k != "self"]
            e = attempt(lambda: c(**{k: base[k] for k in need}))
            if isinstance(e, Raised):
                R.count("not_constructible")
                R.validated()
                return
        if hasattr(e, "n_jobs"):
            e.n_jobs = 1
        unfitted = attempt(lambda: convert_estimator(clone(e)))
        R.trans()
        if name in ("Normalizer", "HashingVectorizer", "TfidfTransformer"):
            R.count("stateless")  # need no fitting (idf may be off)
        else:
            R.check(isinstance(unfitted, Raised), key + ":unfitted", "an unfitted %s is accepted" % name)
        done = False
        for sname, data, args in SETS:
            m = attempt(lambda: fit(clone(e), *data()))
            if isinstance(m, Raised):
                continue
            done = True
            probe(R, key, m, args(), "%s fitted on %s" % (name, sname), must_refuse=name not in MAPPED)
        if not done:
            R.count("not_fittable")
            R.validated()

    return scenario


# --------------------------------------------------------------- option sweeps
def tokens(s):
    return s.split()


def upper(s):
    return s.upper()


def twice(s):
    return [s, s]


class Squared(BaseEstimator, TransformerMixin):
    def fit(self, X, y=None):
        return self

    def transform(self, X):
        return np.asarray(X) ** 2


def txt(cls, **kw):
    return lambda: fit(cls(**kw), DOCS, None)


def grid(**kw):
    names = list(kw)
    return [dict(zip(names, v)) for v in itertools.product(*kw.values())]


TXT = [(DPROBE, DPROBE), (DOCS, DOCS)]
BYT = [([d.encode("latin-1") for d in DOCS], [d.encode("latin-1") for d in DOCS])]


@functools.lru_cache(None)
def sweeps(more=False):
    """family -> [(description, make fitted estimator, requests)]"""
    S = {}
    y3, y2 = np.array(["x", "a", "m"])[Y3], np.array(Y2) * 2 - 1
    y22 = np.array([Y2, Y3]).T

    def add(fam, desc, make, args=None):
        S.setdefault(fam, []).append((desc, make, numeric() if args is None else args))

    def sup(fam, cls, kws, ys=("3", "2"), X_=X, args=None):
        for kw in kws:
            for yn in ys:
                y = {"3": y3, "2": y2, "22": y22, "sets": np.array([[1, 0, 1], [0, 1, 1], [1, 1, 0]])[Y3], "reg": np.arange(9) * 0.5, "reg2": np.array([np.arange(9.0), -np.arange(9.0)]).T,
                     "1": np.array(["only"] * 9)}[yn]
                add(fam, "%s(%s) on y=%s" % (cls.__name__, kw, yn), lambda cls=cls, kw=kw, y=y: fit(cls(**kw), X_.copy(), y), args)

    sup("linear", LogisticRegression, grid(penalty=["l2", "none"], solver=["lbfgs", "sag"], multi_class=["auto", "ovr", "multinomial"], fit_intercept=[True, False], class_weight=[None, "balanced"], max_iter=[30]))
    sup("linear", LogisticRegression, grid(penalty=["l1", "l2"], solver=["liblinear"], multi_class=["auto", "ovr"], fit_intercept=[True, False], dual=[False]))
    sup("linear", RidgeClassifier, grid(fit_intercept=[True, False], normalize=[True, False], class_weight=[None, "balanced"], solver=["auto", "lsqr"]), ("3", "2", "sets", "22"))
    sup("linear", SGDClassifier, grid(loss=["hinge", "log", "modified_huber", "squared_hinge", "perceptron", "squared_loss", "huber", "epsilon_insensitive", "squared_epsilon_insensitive"],
                                      average=[False, True], fit_intercept=[True, False], random_state=[0]))
    sup("linear", Perceptron, grid(penalty=[None, "l1"], fit_intercept=[True, False], early_stopping=[False]))
    sup("linear", PassiveAggressiveClassifier, grid(loss=["hinge", "squared_hinge"], average=[False, True], random_state=[0]))
    sup("linear", LinearSVC, grid(loss=["hinge", "squared_hinge"], multi_class=["ovr", "crammer_singer"], fit_intercept=[True, False], intercept_scaling=[1, 5.0], random_state=[0]))
    for c in (DecisionTreeClassifier, ExtraTreeClassifier):
        sup("trees", c, grid(criterion=["gini", "entropy"], max_depth=[None, 1], class_weight=[None, "balanced"], max_features=[None, 1], max_leaf_nodes=[None, 3], random_state=[0]), ("3", "2", "22", "1"))
    for c in (DecisionTreeRegressor, ExtraTreeRegressor):
        sup("trees", c, grid(criterion=["mse", "mae", "friedman_mse"], max_depth=[None, 1], max_leaf_nodes=[None, 3], random_state=[0]), ("reg", "reg2"))
    for c in (RandomForestClassifier, ExtraTreesClassifier):
        sup("ensembles", c, grid(n_estimators=[3], criterion=["gini", "entropy"], bootstrap=[True, False], class_weight=[None, "balanced"], warm_start=[False, True], random_state=[0]), ("3", "2", "22", "1"))
    for base in (None, LogisticRegression(), SGDClassifier(random_state=0), GaussianNB(), KNeighborsClassifier(2), SVC(), SVC(probability=True, random_state=0), BernoulliNB(), RidgeClassifier(), LinearSVC(random_state=0),
                 DummyClassifier(strategy="uniform", random_state=0), DummyClassifier(strategy="prior"), Pipeline([("s", StandardScaler()), ("l", LogisticRegression())]),
                 Pipeline([("p", PolynomialFeatures()), ("l", LogisticRegression())]), BaggingClassifier(n_estimators=2, random_state=0), GradientBoostingClassifier(n_estimators=2), DecisionTreeRegressor(random_state=0)):
        sup("ensembles", BaggingClassifier, grid(base_estimator=[base], n_estimators=[2], max_features=[1.0, 0.67], bootstrap_features=[False, True], random_state=[0]))
    for init in (None, "zero", LogisticRegression(), DecisionTreeClassifier(max_depth=1), GaussianNB(), DummyClassifier(strategy="prior"), DummyClassifier(strategy="uniform", random_state=0), SVC(probability=True, random_state=0),
                 KNeighborsClassifier(2), BernoulliNB(), RandomForestClassifier(2, random_state=0), Pipeline([("s", StandardScaler()), ("l", LogisticRegression())])):
        sup("ensembles", GradientBoostingClassifier, grid(loss=["deviance", "exponential"], init=[init], n_estimators=[2], criterion=["friedman_mse", "mse"], subsample=[1.0, 0.7], random_state=[0]))
    cnt = np.array(XN)
    sup("bayes", GaussianNB, grid(priors=[None], var_smoothing=[1e-9, 0.1]), ("3", "2"))
    for c in (MultinomialNB, ComplementNB):
        sup("bayes", c, grid(alpha=[1.0, 0.0, 1e-3], fit_prior=[True, False]), ("3", "2"))
    sup("bayes", ComplementNB, grid(norm=[True, False]), ("3", "2"))
    for strat in ("prior", "most_frequent", "stratified", "uniform", "constant"):
        for kw in grid(strategy=[strat], random_state=[None, 0]):
            sup("bayes", DummyClassifier, [kw] if strat != "constant" else [dict(kw, constant="a")], ("3", "22", "1") if strat != "constant" else ("3",))
            if strat == "constant":
                sup("bayes", DummyClassifier, [dict(kw, constant=np.array([0, 1])), dict(kw, constant=-1)], ("22", "2"))

    def tr(fam, cls, kws, fitX, args):
        for kw in kws:
            add(fam, "%s(%s)" % (cls.__name__, kw), lambda cls=cls, kw=kw: fit(cls(**kw), copy.deepcopy(fitX), None), args)

    tr("scaling", StandardScaler, grid(with_mean=[True, False], with_std=[True, False], copy=[True, False]), X, numeric())
    tr("scaling", MinMaxScaler, grid(feature_range=[(0, 1), (-2, 5), (0, 1e-3)], copy=[True, False]), X, numeric(XN + [[10.0, -5.0, 0.0]]))
    tr("scaling", MaxAbsScaler, grid(copy=[True, False]), X, numeric())
    tr("scaling", Normalizer, grid(norm=["l1", "l2", "max"], copy=[True, False]), X, numeric(XN + [[-3.0, 1.0, 0.0]]))
    cat = np.array(XC, dtype=object)
    catn = np.array(XCN)
    ca, cn = [(cat, XC), (np.array(XC[:1], dtype=object), XC[:1])], [(catn, XCN)]
    for drop in (None, "first", "if_binary", ["a", "x"]):
        tr("encoding", OneHotEncoder, grid(drop=[drop], sparse=[True, False], handle_unknown=["error", "ignore"], dtype=[np.float64, np.int32, np.float32, bool]), cat, ca)
    for drop in (None, "first", "if_binary", np.array([2, 0.5, 4])):
        tr("encoding", OneHotEncoder, grid(drop=[drop], sparse=[True, False], dtype=[np.float64]), catn, cn)
    tr("encoding", OneHotEncoder, grid(categories=[[["c", "b", "a", "q"], ["z", "y", "x"]]], sparse=[True, False], drop=[None, "first", ["q", "x"]]), cat, ca)
    tr("encoding", OrdinalEncoder, grid(dtype=[np.float64, np.int32, np.float32, int, float]), cat, ca)
    tr("encoding", OrdinalEncoder, grid(categories=[[["c", "b", "a", "q"], ["z", "y", "x"]]]), cat, ca)
    tr("encoding", OrdinalEncoder, grid(dtype=[np.float64, np.int64]), catn, cn)
    xm, xms = np.array(XM), np.array(XMS, dtype=object)
    xn_ = [[None, "x"], ["a", "x"], ["a", None]]
    for kw in grid(strategy=["mean", "median", "most_frequent", "constant"], add_indicator=[False, True], fill_value=[None, -5.0], missing_values=[NAN, 2.0, 1.0]):
        fx = xm if kw["missing_values"] != kw["missing_values"] else np.nan_to_num(xm, nan=7.0)
        rows = fx.tolist() + [[1.0, 2.0, 2.0]]
        tr("imputing", SimpleImputer, [kw], fx, [(np.array(rows), rows)])
    for kw in grid(strategy=["most_frequent", "constant"], add_indicator=[False, True], missing_values=["?"]):
        tr("imputing", SimpleImputer, [kw], xms, [(xms, XMS)])
    for kw in grid(strategy=["most_frequent", "constant"], missing_values=[None], fill_value=[None, "zz"]):
        tr("imputing", SimpleImputer, [kw], np.array(xn_, dtype=object), [(np.array(xn_, dtype=object), xn_)])
    for kw in grid(features=["missing-only", "all"], sparse=["auto", True, False], error_on_new=[True, False]):
        tr("imputing", MissingIndicator, [kw], xm, [(xm, XM)])
    for kw in grid(sparse=[True, False], sort=[True, False], dtype=[np.float64, np.int64, float, np.float32], separator=["=", "::"]):
        tr("vectorizing", DictVectorizer, [kw], DICTS, [(DDPROBE, DDPROBE), (DICTS, DICTS)])
    opts = dict(analyzer=["word", "char", "char_wb"], ngram_range=[(1, 1), (2, 2), (1, 3)], lowercase=[True, False], strip_accents=[None, "ascii", "unicode"], binary=[True, False])
    for cls, more_kw in ((CountVectorizer, {}), (TfidfVectorizer, {}), (HashingVectorizer, {"n_features": 32})):
        tr("vectorizing", cls, [dict(kw, **more_kw) for kw in grid(**opts)], DOCS, TXT)
        one = [dict(stop_words=s) for s in (None, "english", ["red"], [], frozenset(["red", "dog"]))] + [dict(token_pattern=t) for t in (r"(?u)\b\w+\b", r"[a-z]{3}", "(?i)D", r"(r|b)\w+", None, "")]
        one += [dict(tokenizer=tokens), dict(tokenizer=str.split), dict(tokenizer=lambda s: s.split("e")), dict(preprocessor=upper), dict(preprocessor=str.strip), dict(analyzer=twice), dict(analyzer=list),
                dict(strip_accents=upper), dict(strip_accents=str.title), dict(analyzer="word", tokenizer=tokens, stop_words=["red"]), dict(dtype=np.float32), dict(dtype=np.int32 if cls is CountVectorizer else np.float64)]
        one += [dict(decode_error=d, encoding=enc) for d in ("strict", "ignore", "replace") for enc in ("utf-8", "ascii", "latin-1")]
        for kw in one:
            for a in (TXT, BYT) if "encoding" in kw else (TXT,):
                tr("vectorizing", cls, [dict(kw, **more_kw)], DOCS, a)
        # what a request is: raw text, a file, or the name of one
        for inp in ("file", "filename"):
            if inp == "file":
                src = [io.StringIO(d) for d in DOCS]
            else:
                src = ["/repo/setup.py", "/repo/LICENSE"]
            add("vectorizing", "%s(input=%s)" % (cls.__name__, inp), lambda cls=cls, inp=inp, src=src, more_kw=more_kw: fit(cls(input=inp, **more_kw), src, None),
                [([io.StringIO("red fish")], [io.StringIO("red fish")])] if inp == "file" else [(["/repo/LICENSE"], ["/repo/LICENSE"])])
    tr("vectorizing", TfidfVectorizer, grid(norm=["l1", "l2", None], use_idf=[True, False], smooth_idf=[True, False], sublinear_tf=[True, False], max_features=[None, 3], min_df=[1, 2]), DOCS, TXT)
    tr("vectorizing", TfidfVectorizer, grid(vocabulary=[["red", "blue"], {"red": 1, "blue": 0}], norm=["l2", None]), DOCS, TXT)
    tr("vectorizing", CountVectorizer, grid(vocabulary=[["red", "blue"], {"red": 1, "blue": 0}, {"fish"}], binary=[False, True]), DOCS, TXT)
    tr("vectorizing", HashingVectorizer, grid(norm=["l1", "l2", None, "max"], alternate_sign=[True, False], binary=[True, False], n_features=[1, 2, 7, 1 << 20]), DOCS, TXT)
    tr("vectorizing", HashingVectorizer, grid(dtype=[np.float32, np.float64, np.int64], norm=[None, "l2"], n_features=[8]), DOCS, TXT)
    tr("vectorizing", TfidfTransformer, grid(norm=["l1", "l2", None, "max"], use_idf=[True, False], smooth_idf=[True, False], sublinear_tf=[True, False]), np.array(XN), numeric())

    lr = lambda: LogisticRegression(max_iter=30)
    steps = [("scaler", StandardScaler()), ("poly", PolynomialFeatures(2)), ("square", Squared()), ("function", FunctionTransformer(np.square)), ("function none", FunctionTransformer()), ("pass", "passthrough"), ("none", None),
             ("union", FeatureUnion([("a", StandardScaler()), ("b", PolynomialFeatures(2))])), ("union2", FeatureUnion([("a", StandardScaler()), ("b", "drop"), ("c", MinMaxScaler())], transformer_weights={"c": 3.0})),
             ("union3", FeatureUnion([("a", Squared()), ("b", StandardScaler())])), ("pipe", Pipeline([("a", StandardScaler()), ("b", Squared())])), ("imputer", SimpleImputer()), ("union4", FeatureUnion([("a", "drop"), ("b", None)]))]
    finals = [("lr", LogisticRegression(max_iter=30)), ("tree", DecisionTreeClassifier(random_state=0)), ("knn", KNeighborsClassifier(2)), ("vote", VotingClassifier([("a", LogisticRegression(max_iter=30)), ("b", GaussianNB())])),
              ("pass", "passthrough"), ("none", None), ("scaler", MinMaxScaler()), ("square", Squared()), ("bag", BaggingClassifier(SVC(), n_estimators=2, random_state=0)), ("svc", LinearSVC(random_state=0)), ("reg", DecisionTreeRegressor(random_state=0)),
              ("pipe", Pipeline([("s", Squared()), ("l", LogisticRegression(max_iter=30))])), ("dummyreg", DummyRegressor())]
    for (n1, s1), (n2, s2) in itertools.product(steps, finals):
        y = np.array(Y3)
        add("composition", "Pipeline(%s, %s)" % (n1, n2), lambda s1=s1, s2=s2, y=y: fit(clone(Pipeline([("s1", s1), ("s2", s2)])), X, y))
    for (n1, s1), (n2, s2) in itertools.product(steps, steps):
        if not isinstance(s1, str) and not isinstance(s2, str) and s1 is not None and s2 is not None:
            for w in (None, {"a": 2.0}, {"b": 0}):
                add("composition", "FeatureUnion(%s, %s, weights=%s)" % (n1, n2, w), lambda s1=s1, s2=s2, w=w: fit(clone(FeatureUnion([("a", s1), ("b", s2)], transformer_weights=w)), X, None))
    return S


def options(fam):
    def scenario(ch, R):
        desc, make, args = ch.choose("configuration", sweeps()[fam])
        e = attempt(make)
        if isinstance(e, Raised):
            R.count("native_fit_refused")
            R.validated()
            return
        args = [(rewind(a), rewind(b)) for a, b in args]
        probe(R, "C23:" + desc.split("(")[0] + ":" + desc, e, args, desc)

    return scenario


def rewind(a):
    if isinstance(a, list) and a and isinstance(a[0], io.StringIO):
        return [io.StringIO(x.getvalue()) for x in a]
    return a


# -------------------------------------------------------------------- xgboost
def xgb_configs():
    import xgboost as xgb

    def obj(preds, dtrain):
        y = dtrain
        p = 1 / (1 + np.exp(-np.asarray(dtrain)))
        return p - np.asarray(preds), p * (1 - p) + 1e-3

    out = []
    Xm = X.copy()
    Xm[0, 0] = NAN
    for booster, method in itertools.product([None, "gbtree", "dart", "gblinear"], [None, "exact", "hist", "approx"]):
        for o in (None, "binary:logistic", "binary:logitraw", "binary:hinge", "multi:softmax", "multi:softprob", "count:poisson", "reg:squarederror", "reg:logistic", "rank:pairwise", "reg:gamma", "reg:tweedie",
                  "reg:pseudohubererror", "reg:absoluteerror", "survival:cox", obj):
            for k in (2, 3):
                kw = dict(n_estimators=3, max_depth=2, n_jobs=1, random_state=0, booster=booster)
                if o is not None:
                    kw["objective"] = o
                if method is not None:
                    kw["tree_method"] = method
                out.append(("XGBClassifier(%s) %d classes" % ({a: b for a, b in kw.items() if a not in ("n_jobs", "random_state")}, k), lambda kw=kw, k=k: fit(xgb.XGBClassifier(**kw), Xm, np.array(Y3 if k == 3 else Y2)),
                            [(Xm, Xm.tolist())]))
    for kw in [dict(booster="dart", rate_drop=0.9, one_drop=True), dict(booster="gbtree", base_score=0.9), dict(num_parallel_tree=3, subsample=0.5), dict(scale_pos_weight=7), dict(monotone_constraints=(1, 0, -1)),
               dict(interaction_constraints=[[0, 1]]), dict(missing=0.0), dict(missing=2), dict(max_leaves=3, grow_policy="lossguide", tree_method="hist"), dict(sampling_method="uniform", subsample=0.5),
               dict(predictor="cpu_predictor"), dict(use_label_encoder=False), dict(reg_alpha=10.0), dict(max_delta_step=0.1), dict(importance_type="gain")]:
        for k in (2, 3):
            out.append(("XGBClassifier(%s) %d classes" % (kw, k), lambda kw=kw, k=k: fit(xgb.XGBClassifier(n_estimators=3, max_depth=2, n_jobs=1, random_state=0, **kw), Xm, np.array(Y3 if k == 3 else Y2)), [(Xm, Xm.tolist())]))

    def categorical(method, onehot):
        import pandas as pd

        rows = [[float(i % 3), float(i % 2), float(i)] for i in range(12)]
        y = np.array([0, 1, 1, 1, 0, 1, 0, 0, 1, 0, 1, 0])
        df = pd.DataFrame({"a": pd.Categorical([int(r[0]) for r in rows]), "b": [r[1] for r in rows], "c": [r[2] for r in rows]})
        e = xgb.XGBClassifier(n_estimators=3, max_depth=3, n_jobs=1, tree_method=method, enable_categorical=True, max_cat_to_onehot=onehot, min_child_weight=0)
        fit(e, df, y)
        return e, df, rows

    for method, onehot in itertools.product(["hist", "approx"], [1, 10]):
        def make(method=method, onehot=onehot):
            e, df, rows = categorical(method, onehot)
            return e
        r = attempt(categorical, method, onehot)
        if not isinstance(r, Raised):
            out.append(("XGBClassifier categorical data, tree_method=%s, onehot=%s" % (method, onehot), make, [(r[1], r[2])]))

    def loaded(kw, k):
        """a booster of another kind loaded into a default wrapper"""
        e = xgb.XGBClassifier(n_estimators=3, max_depth=2, n_jobs=1, random_state=0, **kw)
        fit(e, Xm, np.array(Y3 if k == 3 else Y2))
        d = tempfile.mkdtemp(prefix="verif-xgb-")
        try:
            e.save_model(os.path.join(d, "m.json"))
            f = xgb.XGBClassifier(n_jobs=1)
            f.load_model(os.path.join(d, "m.json"))
        finally:
            shutil.rmtree(d)
        if not hasattr(f, "classes_"):  # the wrapper of xgboost 1.7.6 forgets them
            f.classes_ = e.classes_
        return f

    for kw, k in itertools.product([dict(), dict(booster="dart", rate_drop=0.9, one_drop=True), dict(booster="gblinear"), dict(objective="binary:hinge"), dict(objective="binary:logitraw"), dict(objective="multi:softmax"), dict(base_score=0.2)], (2, 3)):
        out.append(("XGBClassifier loaded from a %s model, %d classes" % (kw, k), lambda kw=kw, k=k: loaded(kw, k), [(Xm, Xm.tolist())]))

    def swapped(kw, **attrs):
        e = xgb.XGBClassifier(n_estimators=3, max_depth=2, n_jobs=1, random_state=0, **kw)
        fit(e, Xm, np.array(Y2))
        e.set_params(**attrs)
        return e

    for kw, attrs in [(dict(booster="dart", rate_drop=0.9, one_drop=True), dict(booster="gbtree")), (dict(booster="gblinear"), dict(booster="gbtree")), (dict(booster="gblinear"), dict(booster=None)),
                      (dict(objective="binary:hinge"), dict(objective="binary:logistic")), (dict(objective="binary:logitraw"), dict(objective="binary:logistic")), (dict(), dict(n_estimators=1)), (dict(), dict(base_score=0.9)), (dict(), dict(missing=1.0))]:
        out.append(("XGBClassifier(%s) with parameters then set to %s" % (kw, attrs), lambda kw=kw, attrs=attrs: swapped(kw, **attrs), [(Xm, Xm.tolist())]))
    # several labels at once
    out.append(("XGBClassifier multi-label", lambda: fit(xgb.XGBClassifier(n_estimators=2, n_jobs=1, max_depth=2), X, np.array([Y2, Y2[::-1]]).T), numeric()))
    out.append(("XGBClassifier multi-label 3", lambda: fit(xgb.XGBClassifier(n_estimators=2, n_jobs=1, max_depth=2), X, np.array([[1, 0, 1], [0, 1, 1], [1, 1, 0]])[Y3]), numeric()))
    for c in (xgb.XGBRegressor, xgb.XGBRFClassifier, xgb.XGBRFRegressor, xgb.XGBRanker):
        out.append((c.__name__, lambda c=c: c(n_estimators=2, n_jobs=1).fit(X, np.array(Y2), **({"group": [9]} if c is xgb.XGBRanker else {})), numeric()))
    out.append(("Booster", lambda: fit(xgb.XGBClassifier(n_estimators=2, n_jobs=1), X, np.array(Y2)).get_booster(), []))
    return out


def xgboost_():
    configs = xgb_configs()

    def scenario(ch, R):
        desc, make, args = ch.choose("configuration", configs)
        e = attempt(make)
        if isinstance(e, Raised):
            R.count("native_fit_refused")
            R.validated()
            return
        probe(R, "C23:" + desc, e, args, desc, must_refuse=not desc.startswith("XGBClassifier"), tol=3e-5)

    return scenario


# ------------------------------------------------------------------- fastText
LINES = ["__label__a red fish", "__label__b blue dog dog", "__label__a red red", "__label__c old blue", "__label__b dog", "__label__c fish old"]
PLAIN = ["red fish blue", "blue dog dog", "red red old", "old blue fish"] * 2


def ft_agree(R, key, m, p, what, supervised):
    for t in ["red fish", "", "dog blue zz", "re", "fish dog old red", "zz"]:
        for meth in ("get_sentence_vector", "get_word_vector", "get_word_id"):
            if meth != "get_sentence_vector" and " " in t or meth == "get_word_vector" and t == "":
                continue
            got = attempt(getattr(p, meth), t)
            ref = attempt(getattr(m, meth), t)
            R.trans()
            R.state(what, meth, t)
            R.validated()
            if isinstance(got, Raised) or isinstance(ref, Raised):
                continue
            R.check(fast_same(dense(ref), dense(got), 1e-5, 1e-6), key, "%s: conversion succeeds but %s(%r) differs" % (what, meth, t), reference=dense(ref), got=got)
        if hasattr(p, "predict"):
            got = attempt(p.predict, t, k=3)
            R.trans()
            if isinstance(got, Raised):
                continue
            ref = attempt(m.predict, t, k=3)
            if isinstance(ref, Raised):
                R.check(len(got[0]) == 0, key, "%s: predict(%r) is answered, the original refuses" % (what, t), got=got)
                continue
            a, b = dict(zip(ref[0], map(float, ref[1]))), dict(zip(got[0], map(float, got[1])))
            R.check(set(a) == set(b) and all(abs(a[l] - b[l]) < 3e-5 for l in a), key, "%s: conversion succeeds but predict(%r) differs" % (what, t), reference=ref, got=got)


def fasttext_trained():
    def scenario(ch, R):
        sup = ch.choose("model", ["supervised", "cbow", "skipgram"])
        loss = ch.choose("loss", ["softmax", "hs", "ns", "ova"] if sup == "supervised" else ["ns", "hs", "softmax", "ova"])
        ngrams = ch.choose("wordNgrams", [1, 2, 3])
        minn, maxn = ch.choose("subwords", [(0, 0), (2, 3), (1, 1), (3, 2), (0, 2)])
        quant = ch.flag("quantize") if sup == "supervised" else False
        bucket = ch.choose("bucket", [0, 100]) if ngrams == 1 and maxn == 0 else 100
        kw = dict(loss=loss, wordNgrams=ngrams, minn=minn, maxn=maxn, bucket=bucket)
        if sup == "supervised":
            m = attempt(ft.train, LINES, True, **kw)
        else:
            m = attempt(ft.train, PLAIN, False, model=sup, **kw)
        what = "fastText %s %s%s" % (sup, kw, " quantized" if quant else "")
        key = "C23:fasttext:" + what
        if not isinstance(m, Raised) and quant:
            q = attempt(m.quantize)
            m = q if isinstance(q, Raised) else m
        if isinstance(m, Raised):
            R.count("native_training_refused")
            R.validated()
            return
        R.trans()
        p = attempt(FastText, m)
        R.validated()
        if isinstance(p, Raised):
            R.count("refused")
            R.check(ngrams > 1 or maxn > 0 or quant or sup == "supervised" and loss != "softmax", key + ":supported", "%s is refused: %r" % (what, p))
            return
        R.count("accepted")
        subw = maxn > 0 and minn <= maxn
        R.check(not (sup == "supervised" and (loss != "softmax" or ngrams > 1) or subw or quant), key + ":unsupported", "%s is accepted" % what)
        ft_agree(R, key, m, p, what, sup == "supervised")

    return scenario


def fasttext_written():
    """every header combination, written in the file format directly"""
    W, I2 = ["</s>", "a", "b", "bb"], [[1, 0], [0.5, -1], [-2, 0.25], [0, 0]]

    def scenario(ch, R):
        model = ch.choose("model", [1, 2, 3])
        loss = ch.choose("loss", [1, 2, 3, 4])
        ng = ch.choose("wordNgrams", [1, 2])
        minn, maxn = ch.choose("subwords", [(0, 0), (2, 3), (1, 1), (3, 3), (0, 1)])
        bucket = ch.choose("bucket", [0, 5])
        if bucket == 0 and (maxn > 0 or ng > 1):  # fastText itself divides by zero
            R.count("not_a_model")
            R.validated()
            return
        labels = ["__label__p", "__label__q"] if model == 3 else []
        m = attempt(ft.load, W, labels, I2 + [[0.125 * i, 1.0 - i] for i in range(bucket)], [[1, 2], [3, -1]] if labels else I2, model=model, loss=loss, wordNgrams=ng, minn=minn, maxn=maxn, bucket=bucket)
        if isinstance(m, Raised):
            R.count("not_a_model")
            R.validated()
            return
        what = "fastText file model=%d loss=%d ngrams=%d minn=%d maxn=%d bucket=%d" % (model, loss, ng, minn, maxn, bucket)
        key = "C23:" + what
        R.trans()
        p = attempt(FastText, m)
        R.validated()
        if isinstance(p, Raised):
            R.count("refused")
            R.check(maxn > 0 or model == 3 and (loss != 3 or ng > 1) or ng > 1, key + ":supported", "%s is refused: %r" % (what, p))
            return
        R.count("accepted")
        for t in ["a b", "", "zz bb", "bb", "ab", "a"]:
            for meth in ("get_sentence_vector", "get_word_vector", "get_word_id"):
                if meth != "get_sentence_vector" and (" " in t or t == ""):
                    continue
                got, ref = attempt(getattr(p, meth), t), attempt(getattr(m, meth), t)
                R.trans()
                R.state(what, meth, t)
                R.check(isinstance(got, Raised) or isinstance(ref, Raised) or fast_same(dense(ref), dense(got), 1e-5, 1e-6), key, "%s: %s(%r) differs" % (what, meth, t), reference=dense(ref), got=got)
        R.check(not (model == 3 and (loss != 3 or ng > 1) or maxn > 0 and minn <= maxn), key + ":unsupported", "%s is accepted" % what)

    return scenario


# ------------------------------------------------------------------- versions
VERSIONS = ["0.17", "0.19.2", "0.19.99", "0.9", "0.2", "0.20", "0.20.0", "0.20.4", "0.20.99", "0.20.4.post1", "0.21", "0.21.0", "0.21.0.post1", "0.21.3", "0.22.2.post1", "0.23.2", "0.24", "0.100", "1.0", "1.0.2", "1.3", "2", "10.0"]


def numbers(v):
    out = []
    for part in v.split("."):
        if not part.isdigit():
            break
        out.append(int(part))
    return out


def below(v, w):
    n = max(len(v), len(w))
    return v + [0] * (n - len(v)) < w + [0] * (n - len(w))


def versions(Z):
    models = [m for m in Z if m.family == "sklearn" and "XGB" not in m.name]

    def has_gb(e):
        return "GradientBoosting" in repr(e)

    def scenario(ch, R):
        m = ch.choose("model", models)
        v = ch.choose("version", VERSIONS)
        key = "C23:version:%s:%s" % (m.name, v)
        real = sklearn.base.__version__
        sklearn.base.__version__ = v
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    p = convert_estimator(m.native)
                except Exception as e:
                    p = Raised(e)
        finally:
            sklearn.base.__version__ = real
        warned = [x for x in w if "version" in str(x.message).lower() or "sklearn" in str(x.message).lower()]
        R.trans()
        R.state(m.name, v)
        if has_gb(m.native) and below(numbers(v), [0, 21]):
            R.check(isinstance(p, Raised), key, "%s of scikit-learn %s is accepted, 0.21 is required" % (m.name, v))
        elif below(numbers(v), [0, 20]):
            R.check(isinstance(p, Raised) or warned, key, "%s of scikit-learn %s is accepted without a warning" % (m.name, v))
        else:
            R.check(not isinstance(p, Raised) and not warned, key, "%s of scikit-learn %s: %s" % (m.name, v, p if isinstance(p, Raised) else [str(x.message) for x in warned]))

    return scenario


def required(Z):
    """the caller names the version it requires"""
    models = [m for m in Z if m.family == "sklearn" and "XGB" not in m.name and "Gradient" not in m.name]

    def scenario(ch, R):
        m = ch.choose("model", models)
        v = ch.choose("version", [v for v in VERSIONS if not below(numbers(v), [0, 20])])
        real = sklearn.base.__version__
        sklearn.base.__version__ = v
        try:
            for want in VERSIONS:
                p = attempt(convert_estimator, m.native, want)
                R.trans()
                R.state(m.name, v, want)
                R.check(isinstance(p, Raised) == below(numbers(v), numbers(want)), "C23:required:" + m.name, "%s of scikit-learn %s when %s is required: %s" % (m.name, v, want, p))
        finally:
            sklearn.base.__version__ = real

    return scenario


def old_xgboost():
    """a booster without the table export of xgboost 0.82"""
    import xgboost as xgb

    def scenario(ch, R):
        k = ch.choose("classes", [2, 3])
        lacks = ch.choose("lacks", [("trees_to_dataframe",), ("trees_to_dataframe", "save_config"), ("trees_to_dataframe", "num_features")])
        e = fit(xgb.XGBClassifier(n_estimators=2, n_jobs=1, max_depth=1), X, np.array(Y3 if k == 3 else Y2))
        real = e.get_booster()

        class Old:
            def __getattr__(self, name):
                if name in lacks:
                    raise AttributeError(name)
                return getattr(real, name)

        e.get_booster = lambda: Old()
        p = attempt(convert_estimator, e)
        R.trans()
        R.state(k, lacks)
        R.check(isinstance(p, Raised), "C23:xgboost:old", "a booster of an xgboost older than 0.82 is accepted")

    return scenario


def strangers():
    """objects that are no estimators, and estimators that only look like supported ones"""
    class Odd(BaseEstimator):
        def fit(self, X, y=None):
            self.coef_ = np.ones(3)
            self.classes_ = np.array([0, 1])
            return self

    class Sub(LogisticRegression):
        def predict(self, X):
            return super().predict(X)[::-1]

    def callable_norm(x):
        return x

    things = [None, 5, "LogisticRegression", LogisticRegression, object(), [], {}, lambda x: x, Odd().fit(X), type("Custom", (), {})(), Sub().fit(X, np.array(Y3)), np.zeros(3), types.SimpleNamespace(coef_=np.ones(3))]

    def scenario(ch, R):
        i = ch.choose("object", range(len(things)))
        R.trans()
        R.state(i)
        p = attempt(convert_estimator, things[i])
        R.check(isinstance(p, Raised), "C23:stranger:%d" % i, "%r is accepted" % (things[i],))

    return scenario


def scenarios(tier):
    sc = [("every class", everything())]
    sc += [("options: " + f, options(f)) for f in ("linear", "trees", "ensembles", "bayes", "scaling", "encoding", "imputing", "vectorizing", "composition")]
    sc += [("xgboost", xgboost_()), ("fastText trained", fasttext_trained()), ("fastText files", fasttext_written()), ("versions", versions(zoo())), ("required versions", required(zoo())), ("old xgboost", old_xgboost()), ("strangers", strangers())]
    return sc
