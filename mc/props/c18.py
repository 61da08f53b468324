"""C18: converted artifacts need nothing but this package."""

import os
import pickle
import subprocess
import sys
import types as pytypes

import numpy as np
from pure_sklearn.map import convert_estimator
from sklearn.dummy import DummyClassifier
from sklearn.ensemble import BaggingClassifier, ExtraTreesClassifier, GradientBoostingClassifier, RandomForestClassifier
from sklearn.feature_extraction import DictVectorizer
from sklearn.feature_extraction.text import CountVectorizer, HashingVectorizer, TfidfTransformer, TfidfVectorizer
from sklearn.impute import MissingIndicator, SimpleImputer
from sklearn.linear_model import LogisticRegression, PassiveAggressiveClassifier, Perceptron, RidgeClassifier, SGDClassifier
from sklearn.naive_bayes import ComplementNB, GaussianNB, MultinomialNB
from sklearn.pipeline import FeatureUnion, Pipeline
from sklearn.preprocessing import MaxAbsScaler, MinMaxScaler, Normalizer, OneHotEncoder, OrdinalEncoder, StandardScaler
from sklearn.svm import LinearSVC
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor, ExtraTreeClassifier, ExtraTreeRegressor

from .. import sweep
from ..cmp import Raised, attempt
from ..dom import quiet_fit
from ..engine import REPO, VERIF
from ..zoo import DICTS, DDPROBE, DOCS, DPROBE, NAN, PROBE, XC, XCN, XM, XMS, XN, Y2, Y3, requests, zoo

BOUNDS = {
    "quick": "(a) every zoo model (66) x pickle protocols 0,2,4,5, run in a bare interpreter; (b) 36 estimators, every subset of their hyper-parameters given as numpy values "
             "(scalars, strings, arrays, containers of numpy values); (c) 14 classifiers x 12 label arrays (numpy dtypes and object arrays of numpy scalars); the workloads of C01-C14, C16 and C17 (every sequence of choices with at most one off the first option): every model of the sweep pickled, up to 60 of its calls asked again of a persistent bare interpreter",
    "thorough": "all protocols; numpy variants also with 32-bit types; workloads with at most two choices off the first option",
}
ASSUMPTIONS = ["the bare interpreter is the system python with -I -S, whose path holds the standard library and the checked tree only",
               "results are compared by repr, exactly; a refusal is accepted where the native library refuses the same configuration"]

PY = os.path.realpath(sys.executable)


def bare(jobs):
    data = pickle.dumps({"repo": REPO, "jobs": jobs}, 4)
    p = subprocess.run([PY, "-I", "-S", "-B", os.path.join(VERIF, "mc", "bare.py")], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd="/", timeout=80)
    if p.returncode != 0 or not p.stdout:
        raise RuntimeError("bare interpreter failed: %s" % p.stderr[-500:])
    return pickle.loads(p.stdout)


def outcome(obj, method, arg):
    r = attempt(lambda: getattr(obj, method)(arg))
    if isinstance(r, Raised):
        return ("raised", "%s: %s" % (r.name, r.e), "")
    return (type(r).__name__, repr(r), repr(sorted(vars(r).items(), key=lambda kv: kv[0])) if hasattr(r, "__dict__") else "")


OK_LEAF = (int, float, str, bool, type(None), bytes)


def foreign(obj, path="model", seen=None):
    """first object reachable from obj which is neither builtin nor of this package"""
    seen = set() if seen is None else seen
    if id(obj) in seen:
        return None
    seen.add(id(obj))
    if type(obj) in OK_LEAF:
        return None
    if isinstance(obj, type):
        m = obj.__module__.split(".")[0]
        return None if m in ("builtins", "pure_sklearn", "pure_fasttext") else (path, repr(obj))
    if type(obj) in (list, tuple, set, frozenset):
        for i, v in enumerate(obj):
            f = foreign(v, "%s[%d]" % (path, i), seen)
            if f:
                return f
        return None
    if type(obj) is dict:
        for k, v in obj.items():
            f = foreign(k, "%s key %r" % (path, k), seen) or foreign(v, "%s[%r]" % (path, k), seen)
            if f:
                return f
        return None
    if isinstance(obj, (pytypes.FunctionType, pytypes.BuiltinFunctionType)):
        m = (obj.__module__ or "builtins").split(".")[0]
        return None if m in ("builtins", "pure_sklearn", "pure_fasttext") or m in sys.stdlib_module_names else (path, repr(obj))
    m = type(obj).__module__.split(".")[0]
    if m not in ("pure_sklearn", "pure_fasttext") and m not in sys.stdlib_module_names:
        return (path, "%r (%s)" % (obj, type(obj)))
    for k, v in getattr(obj, "__dict__", {}).items():
        f = foreign(v, "%s.%s" % (path, k), seen)
        if f:
            return f
    if isinstance(obj, (list, dict)) and m.startswith("pure"):
        return foreign(list(obj) if isinstance(obj, list) else dict(obj), path, seen)
    return None


def examine(R, key, p, calls, protos, reference=None, **det):
    """calls: [(method, argument)]"""
    R.state(key, [c[0] for c in calls], det)
    f = foreign(p)
    R.check(f is None, key + ":foreign", "the converted model holds a third-party object at %s: %s" % (f or ("", "")), **det)
    want = [outcome(p, m, pickle.loads(pickle.dumps(a))) for m, a in calls]
    jobs = []
    for pr in protos:
        b = attempt(pickle.dumps, p, pr)
        if not R.check(not isinstance(b, Raised), key + ":pickle", "the converted model cannot be pickled with protocol %d: %r" % (pr, b), **det):
            continue
        jobs.append((b, [(m, pickle.dumps(a, 4)) for m, a in calls]))
    res, mods = bare(jobs)
    R.trans(len(jobs) * len(calls))
    R.check(not mods, key + ":modules", "loading or using the model imported %s" % mods[:5], **det)
    for status, r in res:
        if not R.check(status == "ok", key + ":load", "the pickled model does not load in a bare interpreter: %s" % (r,), **det):
            continue
        for (m, a), x, y in zip(calls, want, r):
            R.check(tuple(x) == tuple(y), key + ":answer", "%s answers differently in a bare interpreter: %s instead of %s" % (m, y, x), argument=a, **det)
    for m, a in calls:
        if reference is not None:
            x, y = outcome(reference, m, pickle.loads(pickle.dumps(a))), outcome(p, m, pickle.loads(pickle.dumps(a)))
            R.check(x == y, key + ":variant", "%s differs from the model with plain values: %s instead of %s" % (m, y, x), argument=a, **det)


def all_models(protos):
    def scenario(ch, R):
        m = ch.choose("model", zoo())
        p = attempt(m.make)
        key = "C18:%s" % m.name
        if not R.check(not isinstance(p, Raised), key + ":convert", "conversion raised %r" % p):
            return
        calls = [(meth, mk()) for _, meth, mk in requests(m)]
        for use in (False, True):
            if use:
                for meth, a in calls:
                    outcome(p, meth, pickle.loads(pickle.dumps(a)))
            examine(R, key, p, calls, protos, used=use)

    return scenario


def npv(v, small=False):
    """the numpy form of a plain value"""
    if isinstance(v, bool):
        return np.bool_(v)
    if isinstance(v, int):
        return np.int32(v) if small else np.int64(v)
    if isinstance(v, float):
        return np.float32(v) if small and v == v and float(np.float32(v)) == v else np.float64(v)
    if isinstance(v, str):
        return np.str_(v)
    if isinstance(v, tuple):
        return tuple(npv(x, small) for x in v)
    if isinstance(v, list):
        return [npv(x, small) for x in v]
    if isinstance(v, dict):
        return {npv(k, small): npv(x, small) for k, x in v.items()}
    if v in (float, int):
        return np.dtype(v)
    return v


X = np.array(XN)
YS = np.array(["ant", "bee", "cat"])[Y3]
YB = np.array(Y2)
PROBA = ["predict", "predict_proba"]
DEC = ["predict", "decision_function"]
# name, constructor, parameters that may be given as numpy values, other parameters, fit data, probe, methods
CONFIGS = [
    ("LogisticRegression", LogisticRegression, {"C": 0.5, "multi_class": "ovr", "solver": "liblinear", "fit_intercept": False}, {}, (X, YS), PROBE, PROBA),
    ("LogisticRegression intercept", LogisticRegression, {"C": 0.5, "multi_class": "ovr", "fit_intercept": True}, {}, (X, YB), PROBE, PROBA),
    ("SGDClassifier", SGDClassifier, {"loss": "log", "alpha": 0.25, "penalty": "l2", "average": False}, {"random_state": 0}, (X, YS), PROBE, PROBA),
    ("Perceptron", Perceptron, {"alpha": 0.25, "fit_intercept": False}, {"random_state": 0}, (X, YB), PROBE, DEC),
    ("PassiveAggressiveClassifier", PassiveAggressiveClassifier, {"C": 0.5, "loss": "hinge"}, {"random_state": 0}, (X, YB), PROBE, DEC),
    ("RidgeClassifier", RidgeClassifier, {"alpha": 0.5, "fit_intercept": False, "solver": "cholesky"}, {}, (X, YS), PROBE, DEC),
    ("LinearSVC", LinearSVC, {"C": 0.5, "loss": "hinge", "fit_intercept": False}, {"random_state": 0}, (X, YS), PROBE, DEC),
    ("DecisionTreeClassifier", DecisionTreeClassifier, {"max_depth": 2, "criterion": "entropy", "min_samples_leaf": 1}, {"random_state": 0}, (X, YS), PROBE, PROBA),
    ("DecisionTreeRegressor", DecisionTreeRegressor, {"max_depth": 2}, {"random_state": 0}, (X, YB), PROBE, ["predict"]),
    ("ExtraTreeClassifier", ExtraTreeClassifier, {"max_depth": 2}, {"random_state": 0}, (X, YS), PROBE, PROBA),
    ("ExtraTreeRegressor", ExtraTreeRegressor, {"max_depth": 2}, {"random_state": 0}, (X, YB), PROBE, ["predict"]),
    ("RandomForestClassifier", RandomForestClassifier, {"n_estimators": 2, "max_features": 0.5}, {"random_state": 0}, (X, YS), PROBE, PROBA),
    ("ExtraTreesClassifier", ExtraTreesClassifier, {"n_estimators": 2, "max_depth": 2}, {"random_state": 0}, (X, YS), PROBE, PROBA),
    ("BaggingClassifier", BaggingClassifier, {"n_estimators": 2, "max_features": 2, "bootstrap": True}, {"random_state": 0}, (X, YS), PROBE, PROBA),
    ("GradientBoostingClassifier", GradientBoostingClassifier, {"n_estimators": 2, "learning_rate": 0.5, "loss": "deviance", "init": "zero"}, {"random_state": 0}, (X, YS), PROBE, PROBA),
    ("GradientBoostingClassifier exp", GradientBoostingClassifier, {"learning_rate": 0.25, "loss": "exponential"}, {"n_estimators": 2, "random_state": 0}, (X, YB), PROBE, PROBA),
    ("GaussianNB", GaussianNB, {"var_smoothing": 0.5, "priors": [0.5, 0.25, 0.25]}, {}, (X, YS), PROBE, PROBA),
    ("MultinomialNB", MultinomialNB, {"alpha": 0.5, "fit_prior": False, "class_prior": [0.5, 0.25, 0.25]}, {}, (X, YS), PROBE, PROBA),
    ("ComplementNB", ComplementNB, {"alpha": 0.5, "norm": True}, {}, (X, YS), PROBE, PROBA),
    ("DummyClassifier", DummyClassifier, {"strategy": "prior"}, {}, (X, YS), PROBE, PROBA),
    ("StandardScaler", StandardScaler, {"with_mean": True, "with_std": False}, {}, (X,), PROBE, ["transform"]),
    ("MinMaxScaler", MinMaxScaler, {"feature_range": (-1.0, 2.0)}, {}, (X,), PROBE, ["transform"]),
    ("MaxAbsScaler", MaxAbsScaler, {"copy": True}, {}, (X,), PROBE, ["transform"]),
    ("Normalizer", Normalizer, {"norm": "l1", "copy": True}, {}, (X,), PROBE, ["transform"]),
    ("SimpleImputer", SimpleImputer, {"missing_values": NAN, "strategy": "constant", "fill_value": -1.0, "add_indicator": True}, {}, (np.array(XM),), XM, ["transform"]),
    ("SimpleImputer int", SimpleImputer, {"missing_values": 1, "strategy": "most_frequent"}, {}, (np.array([[1, 5], [2, 5], [2, 1]]),), [[1, 2], [3, 1]], ["transform"]),
    ("SimpleImputer str", SimpleImputer, {"missing_values": "?", "strategy": "constant", "fill_value": "none"}, {}, (np.array(XMS, dtype=object),), XMS, ["transform"]),
    ("MissingIndicator", MissingIndicator, {"missing_values": NAN, "features": "all", "error_on_new": False}, {}, (np.array(XM),), XM, ["transform"]),
    ("OneHotEncoder", OneHotEncoder, {"categories": [["a", "b", "c"], ["x", "y", "z"]], "handle_unknown": "ignore", "sparse": True, "dtype": int}, {}, (np.array(XC, dtype=object),), XC, ["transform"]),
    ("OneHotEncoder num", OneHotEncoder, {"categories": [[1, 2, 5], [0, 1], [-3, 4]], "sparse": False}, {}, (np.array([[1, 0, -3], [2, 1, 4], [5, 1, 4]]),), [[1, 0, 4]], ["transform"]),
    ("OrdinalEncoder", OrdinalEncoder, {"categories": [["a", "b", "c"], ["x", "y", "z"]], "dtype": int}, {}, (np.array(XC, dtype=object),), XC, ["transform"]),
    ("DictVectorizer", DictVectorizer, {"separator": ":", "sparse": False, "sort": True, "dtype": float}, {}, (DICTS,), DDPROBE, ["transform"]),
    ("CountVectorizer", CountVectorizer, {"ngram_range": (1, 2), "stop_words": ["old"], "lowercase": True, "binary": True, "max_features": 4}, {}, (DOCS,), DPROBE, ["transform"]),
    ("CountVectorizer vocab", CountVectorizer, {"vocabulary": {"red": 0, "fish": 1}, "analyzer": "word", "token_pattern": r"\w+", "strip_accents": "ascii", "dtype": float}, {}, (DOCS,), DPROBE, ["transform"]),
    ("CountVectorizer vocab list", CountVectorizer, {"vocabulary": ["red", "fish"], "encoding": "utf-8", "decode_error": "strict", "input": "content"}, {}, (DOCS,), DPROBE, ["transform"]),
    ("TfidfVectorizer", TfidfVectorizer, {"norm": "l1", "use_idf": True, "smooth_idf": False, "sublinear_tf": True, "max_df": 0.9}, {}, (DOCS,), DPROBE, ["transform"]),
    ("TfidfTransformer", TfidfTransformer, {"norm": "l2", "use_idf": True, "smooth_idf": False, "sublinear_tf": True}, {}, (X,), PROBE, ["transform"]),
    ("HashingVectorizer", HashingVectorizer, {"n_features": 8, "alternate_sign": False, "norm": "l1", "binary": True, "ngram_range": (1, 2)}, {}, (DOCS,), DPROBE, ["transform"]),
    ("FeatureUnion", FeatureUnion, {"transformer_weights": {"a": 2.0, "b": 1}}, {"transformer_list": [("a", StandardScaler()), ("b", MaxAbsScaler())]}, (X,), PROBE, ["transform"]),
    ("FeatureUnion names", FeatureUnion, {"transformer_list": [("a", StandardScaler()), ("b", "drop")]}, {}, (X,), PROBE, ["transform"]),
    ("Pipeline", Pipeline, {"steps": [("s", StandardScaler()), ("p", "passthrough"), ("l", LogisticRegression())]}, {}, (X, YS), PROBE, PROBA),
]
try:
    from xgboost import XGBClassifier

    CONFIGS += [
        ("XGBClassifier", XGBClassifier, {"n_estimators": 2, "base_score": 0.25, "objective": "binary:logistic", "learning_rate": 0.5}, {"booster": "gbtree", "n_jobs": 1, "max_depth": 2}, (X, YB), PROBE, PROBA),
        ("XGBClassifier multi", XGBClassifier, {"objective": "multi:softprob", "missing": 1.0, "max_depth": 2, "booster": "gbtree"}, {"n_estimators": 2, "n_jobs": 1}, (X, np.array(Y3)), PROBE, PROBA),
    ]
except ImportError:
    pass


def variants(small_kinds):
    def scenario(ch, R):
        name, cls, params, other, data, probe, methods = ch.choose("estimator", CONFIGS)
        kw = dict(other)
        chosen = []
        small = ch.choose("width", small_kinds)
        for k, v in params.items():
            form = ch.choose(k, ["plain", "numpy"] + (["array"] if isinstance(v, list) and k in ("stop_words", "vocabulary", "priors", "class_prior") else []))
            kw[k] = v if form == "plain" else np.array(v) if form == "array" else npv(v, small)
            chosen.append((k, form))
        native = attempt(lambda: quiet_fit(cls(**kw), *data))
        ref = convert_estimator(quiet_fit(cls(**{**other, **params}), *data))
        if isinstance(native, Raised):
            R.count("native_refuses")
            return
        got = attempt(lambda: [getattr(native, m)(np.array(probe) if isinstance(probe[0], list) else probe) for m in methods])
        p = attempt(convert_estimator, native)
        key = "C18:variant:%s" % name
        if isinstance(got, Raised):
            R.count("native_refuses")
            return
        if not R.check(not isinstance(p, Raised), key + ":convert", "conversion raised %r with %s" % (p, chosen), params=kw):
            return
        examine(R, key, p, [(m, probe) for m in methods], [4], ref, params=chosen)

    return scenario


def _obj(vals):
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return a


LABELS = {
    "int64": lambda i: np.array([-7, 3, 10])[i], "int32": lambda i: np.array([-7, 3, 10], np.int32)[i], "uint8": lambda i: np.array([1, 3, 200], np.uint8)[i],
    "float32": lambda i: np.array([0.5, 1.5, 2.0], np.float32)[i], "float64": lambda i: np.array([0.5, 1.5, 2.0])[i], "U": lambda i: np.array(["ab", "b", "c"])[i],
    "O str": lambda i: _obj([["ab", "b", "c"][j] for j in i]), "O np.str_": lambda i: _obj([np.str_(["ab", "b", "c"][j]) for j in i]),
    "O np.int64": lambda i: _obj([np.int64([-7, 3, 10][j]) for j in i]), "O np.float64": lambda i: _obj([np.float64([0.5, 1.5, 2.0][j]) for j in i]),
    "bool": lambda i: np.array(i) > 0, "O np.bool_": lambda i: _obj([np.bool_(j > 0) for j in i]), "O mixed str": lambda i: _obj([[np.str_("a"), "b", np.str_("c")][j] for j in i]),
}
CLFS = [
    ("LogisticRegression", lambda: LogisticRegression()), ("SGDClassifier", lambda: SGDClassifier(random_state=0)), ("RidgeClassifier", lambda: RidgeClassifier()),
    ("Perceptron", lambda: Perceptron(random_state=0)), ("PassiveAggressive", lambda: PassiveAggressiveClassifier(random_state=0)), ("LinearSVC", lambda: LinearSVC(random_state=0)),
    ("DecisionTreeClassifier", lambda: DecisionTreeClassifier(random_state=0)), ("RandomForestClassifier", lambda: RandomForestClassifier(2, random_state=0)),
    ("BaggingClassifier", lambda: BaggingClassifier(n_estimators=2, random_state=0)), ("GradientBoostingClassifier", lambda: GradientBoostingClassifier(n_estimators=1, random_state=0)),
    ("GaussianNB", lambda: GaussianNB()), ("MultinomialNB", lambda: MultinomialNB()), ("ComplementNB", lambda: ComplementNB()), ("DummyClassifier", lambda: DummyClassifier(strategy="prior")),
    ("Pipeline", lambda: Pipeline([("s", MaxAbsScaler()), ("t", DecisionTreeClassifier(random_state=0))])),
]


def labels():
    def scenario(ch, R):
        name, mk = ch.choose("classifier", CLFS)
        lab = ch.choose("labels", sorted(LABELS))
        y = LABELS[lab](Y3)
        native = attempt(lambda: quiet_fit(mk(), X, y))
        if isinstance(native, Raised):
            R.count("native_refuses")
            return
        nat = attempt(lambda: native.predict(np.array(PROBE)).tolist())
        p = attempt(convert_estimator, native)
        key = "C18:labels:%s" % name
        if isinstance(nat, Raised):
            R.count("native_refuses")
            return
        if not R.check(not isinstance(p, Raised), key + ":convert", "conversion raised %r for %s labels" % (p, lab)):
            return
        got = attempt(p.predict, PROBE)
        R.check(got == nat, key + ":predict", "%s labels: %r instead of %r" % (lab, got, nat))
        R.check(isinstance(got, Raised) or all(type(v) in (int, float, str, bool) for v in got), key + ":kind", "%s labels: %r are not plain values" % (lab, got))
        examine(R, key, p, [("predict", PROBE)], [2], labels=lab)

    return scenario


def _functions():
    import functools as ft
    import operator
    import string
    import unicodedata

    import sklearn.feature_extraction.text as t

    out = [("scikit-learn function", t.strip_accents_unicode), ("scikit-learn function", t.strip_accents_ascii), ("numpy function", np.char.upper), ("numpy function", np.sort), ("numpy type", np.str_), ("numpy object", np.unique),
           ("partial of a third-party function", ft.partial(t.strip_accents_unicode)), ("bound method of a vectorizer", CountVectorizer().build_analyzer()), ("bound method of a vectorizer", CountVectorizer().decode),
           ("vectorized", np.vectorize(len)), ("python function", str.upper), ("python function", str.split), ("python function", list), ("python function", string.capwords), ("python function", operator.methodcaller("split")),
           ("python function", ft.partial(unicodedata.normalize, "NFKD"))]
    return out


def functions():
    """hyper-parameters given as functions: the conversion refuses, or the result needs nothing but this package"""
    F = _functions()

    def scenario(ch, R):
        cls = ch.choose("estimator", [CountVectorizer, TfidfVectorizer, HashingVectorizer])
        par = ch.choose("parameter", ["preprocessor", "tokenizer", "analyzer", "strip_accents", "two"])
        kind, f = ch.choose("function", F)
        nest = ch.choose("inside", ["alone", "pipeline", "union"])
        kw = {par: f} if par != "two" else {"preprocessor": str.lower, "tokenizer": f}
        e = cls(**kw)
        if nest == "pipeline":
            e = Pipeline([("v", e), ("m", MaxAbsScaler())])
        elif nest == "union":
            e = FeatureUnion([("a", CountVectorizer()), ("v", e)])
        native = attempt(lambda: quiet_fit(e, DOCS))
        got = attempt(lambda: native.transform(DPROBE))
        if isinstance(native, Raised) or isinstance(got, Raised):
            R.count("native_refuses")
            R.validated()
            return
        p = attempt(convert_estimator, native)
        R.trans()
        R.validated()
        if isinstance(p, Raised):
            R.count("refused")
            R.outcome("refused", p.name)
            return
        R.count("accepted")
        examine(R, "C18:function:%s:%s" % (cls.__name__, par), p, [("transform", DPROBE)], [2, 5], function=repr(f), nest=nest)

    return scenario


def own(tier):
    th = tier == "thorough"
    return [("models", all_models(range(6) if th else (0, 2, 4, 5))), ("numpy parameters", variants([False, True] if th else [False])), ("numpy labels", labels()), ("functions", functions())]


def scenarios(tier):
    d = 2 if tier == "thorough" else 1
    return own(tier) + [("workloads", sweep.sweep(sweep.Remote, d, skip=sweep.ON_DISK))]
