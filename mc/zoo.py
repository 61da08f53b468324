"""One or more fitted models of every supported kind, with valid requests."""

import copy
import functools
import warnings

import numpy as np
from pure_fasttext import FastText
from pure_sklearn.map import convert_estimator
from pure_sklearn.utils import sparse_list
from sklearn.dummy import DummyClassifier
from sklearn.ensemble import BaggingClassifier, ExtraTreesClassifier, GradientBoostingClassifier, RandomForestClassifier
from sklearn.feature_extraction import DictVectorizer
from sklearn.feature_extraction.text import CountVectorizer, HashingVectorizer, TfidfTransformer, TfidfVectorizer
from sklearn.impute import MissingIndicator, SimpleImputer
from sklearn.linear_model import LogisticRegression, PassiveAggressiveClassifier, Perceptron, RidgeClassifier, SGDClassifier
from sklearn.naive_bayes import ComplementNB, GaussianNB, MultinomialNB
from sklearn.pipeline import FeatureUnion, Pipeline
from sklearn.preprocessing import MaxAbsScaler, MinMaxScaler, Normalizer, OneHotEncoder, OrdinalEncoder, StandardScaler
from sklearn.svm import LinearSVC
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor, ExtraTreeClassifier, ExtraTreeRegressor

from . import ft
from .dom import enc_sparse_dict

NAN = float("nan")


class Model:
    """a fitted native model and requests its converted form must answer

    calls: [(method, argument)]; arguments are built afresh by arg()
    """

    def __init__(self, name, native, X, methods, kind="matrix", sparse=False, extra=(), family="sklearn"):
        self.name, self.native, self.X, self.methods = name, native, X, list(methods)
        self.kind, self.sparse, self.family = kind, sparse, family
        self.extra = list(extra)

    def make(self):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if self.family == "fasttext":
                return FastText(self.native)
            return convert_estimator(self.native)

    @property
    def width(self):
        return len(self.X[0]) if self.kind in ("matrix", "cat", "missing") else None

    def arg(self, rows=None, sparse=False):
        rows = self.X if rows is None else rows
        rows = copy.deepcopy(rows)
        return enc_sparse_dict(rows, self.width) if sparse else rows

    def classifier(self):
        return hasattr(self.native, "classes_") and hasattr(self.native, "predict") and self.family == "sklearn"


XN = [[0.0, 1.0, 2.0], [1.0, 0.0, 2.5], [2.0, 2.0, 0.0], [0.0, 0.5, 1.0], [1.5, 2.0, 2.0], [2.0, 0.0, 1.0], [0.0, 2.0, 2.0], [1.0, 1.0, 1.0], [3.0, 0.0, 0.5]]
Y3 = [0, 1, 2, 1, 2, 0, 1, 2, 0]
Y2 = [0, 1, 1, 0, 1, 0, 1, 1, 0]
PROBE = [[0.0, 1.0, 2.0], [2.0, 0.0, 0.75], [1.0, 1.0, 0.0], [0.0, 0.0, 0.0]]
LAB = {"int": [-7, 3, 10], "str": ["ant", "bee", "cat"], "float": [-1.0, 0.0, 2.0], "bool": [False, True], "unsorted": ["z", "B", "a"]}
PROBA = ["predict", "predict_proba", "predict_log_proba"]
DOCS = ["red fish", "blue fish fish", "old red dog", "dog dog blue", "\u00e9t\u00e9 fish", "red dog", "fish", "blue", "a b"]
DPROBE = ["red fish fish", "", "Blue \u00e9t\u00e9 unknown", "dog"]
DICTS = [{"a": 1, "b": "x"}, {"a": 2, "b": "y"}, {"c": 1.5}, {"a": -1, "c": 2}, {"b": "x"}, {"a": 3, "b": "y", "c": 1}, {"b": "y"}, {}, {"c": 4}]
DDPROBE = [{"a": 1, "b": "x"}, {}, {"zz": 3, "b": "y", "c": 2}]
XC = [["a", "x"], ["b", "y"], ["c", "x"], ["a", "z"]]
XCN = [[1, 0.5, -3], [2, 0.5, 4], [5, 1.5, 4]]
XM = [[NAN, 1.0, 2.0], [1.0, NAN, 2.0], [2.0, 3.0, 2.0], [4.0, 1.0, 1.0]]
XMS = [["?", "x"], ["a", "x"], ["a", "y"]]


def _y(kind, k):
    base = Y3 if k == 3 else Y2
    return np.array([LAB[kind][i] for i in base])


def _fit(e, X, y=None):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return e.fit(X, y)


@functools.lru_cache(None)
def zoo(extended=False):
    out = []
    X = np.array(XN)

    def clf(name, e, kind, k, methods=PROBA, sparse=False, X_=X, probe=PROBE):
        out.append(Model(name, _fit(e, X_, _y(kind, k)), probe, methods, "matrix", sparse))

    P1 = ["predict", "decision_function"]
    lin = PROBA + ["decision_function"]
    clf("LogisticRegression multinomial", LogisticRegression(), "str", 3, lin, True)
    clf("LogisticRegression binary", LogisticRegression(), "int", 2, lin, True)
    clf("LogisticRegression ovr", LogisticRegression(multi_class="ovr", fit_intercept=False), "unsorted", 3, lin, True)
    clf("RidgeClassifier", RidgeClassifier(), "str", 3, P1, True)
    clf("SGDClassifier log", SGDClassifier(loss="log", random_state=0), "float", 3, lin, True)
    clf("SGDClassifier huber", SGDClassifier(loss="modified_huber", random_state=0), "str", 3, P1, True)
    clf("SGDClassifier hinge", SGDClassifier(random_state=0), "bool", 2, P1, True)
    clf("Perceptron", Perceptron(random_state=0), "int", 3, P1, True)
    clf("PassiveAggressiveClassifier", PassiveAggressiveClassifier(random_state=0), "str", 2, P1, True)
    clf("LinearSVC", LinearSVC(random_state=0), "unsorted", 3, P1, True)
    clf("DecisionTreeClassifier", DecisionTreeClassifier(random_state=0), "str", 3, sparse=True)
    clf("DecisionTreeClassifier shallow", DecisionTreeClassifier(max_depth=1, random_state=0), "int", 3, sparse=True)
    clf("ExtraTreeClassifier", ExtraTreeClassifier(random_state=0), "bool", 2, sparse=True)
    for c in (DecisionTreeRegressor, ExtraTreeRegressor):
        out.append(Model(c.__name__, c(random_state=0).fit(X, np.arange(9) * 0.5 - 1), PROBE, ["predict"], "matrix", True))
    clf("RandomForestClassifier", RandomForestClassifier(3, random_state=0), "unsorted", 3, sparse=True)
    clf("ExtraTreesClassifier", ExtraTreesClassifier(2, random_state=1), "int", 2, sparse=True)
    clf("BaggingClassifier trees", BaggingClassifier(n_estimators=3, max_features=2, random_state=0), "str", 3, sparse=True)
    clf("BaggingClassifier lr", BaggingClassifier(LogisticRegression(), n_estimators=2, max_features=2, random_state=0), "int", 3, sparse=True)
    clf("BaggingClassifier ridge", BaggingClassifier(RidgeClassifier(), n_estimators=3, random_state=0), "float", 3, sparse=True)
    clf("GradientBoostingClassifier", GradientBoostingClassifier(n_estimators=3, max_depth=2, random_state=0), "str", 3)
    clf("GradientBoostingClassifier binary", GradientBoostingClassifier(n_estimators=2, loss="exponential", random_state=0), "bool", 2)
    clf("GradientBoostingClassifier init", GradientBoostingClassifier(n_estimators=2, init=LogisticRegression(), random_state=0), "int", 3)
    clf("GradientBoostingClassifier zero", GradientBoostingClassifier(n_estimators=2, init="zero", learning_rate=0.3, random_state=1), "unsorted", 3)
    clf("BaggingClassifier nb", BaggingClassifier(GaussianNB(), n_estimators=2, max_features=2, random_state=0), "str", 3)
    clf("GaussianNB", GaussianNB(), "str", 3)
    clf("MultinomialNB", MultinomialNB(), "int", 3)
    clf("ComplementNB", ComplementNB(), "unsorted", 3)
    clf("DummyClassifier", DummyClassifier(strategy="prior"), "str", 3, sparse=True)
    try:
        from xgboost import XGBClassifier

        for name, k, kw in (("XGBClassifier binary", 2, {}), ("XGBClassifier softprob", 3, {"objective": "multi:softprob"}), ("XGBClassifier base", 2, {"base_score": 0.2})):
            m = XGBClassifier(n_estimators=2, max_depth=2, booster="gbtree", n_jobs=1, **kw)
            Xm = X.copy()
            Xm[0, 0] = NAN
            out.append(Model(name, _fit(m, Xm, np.array(Y3 if k == 3 else Y2)), PROBE[:3] + [[NAN, 0.0, 2.0]], ["predict", "predict_proba"], "matrix", False))
    except ImportError:
        pass

    def tr(name, e, sparse=False, kind="matrix", fitX=X, probe=PROBE):
        out.append(Model(name, _fit(e, fitX), probe, ["transform"], kind, sparse))

    tr("StandardScaler", StandardScaler())
    tr("StandardScaler nomean", StandardScaler(with_mean=False), True)
    tr("StandardScaler off", StandardScaler(with_mean=False, with_std=False), True)
    tr("StandardScaler nostd", StandardScaler(with_std=False))
    tr("MinMaxScaler", MinMaxScaler(feature_range=(-1, 2)))
    tr("MaxAbsScaler", MaxAbsScaler(), True)
    tr("Normalizer l2", Normalizer(), True)
    tr("Normalizer l1", Normalizer(norm="l1"), True)
    tr("Normalizer max", Normalizer(norm="max"), True)
    tr("SimpleImputer", SimpleImputer(add_indicator=True), kind="missing", fitX=np.array(XM), probe=XM)
    tr("SimpleImputer drop", SimpleImputer(strategy="median"), kind="missing", fitX=np.array([[NAN, 1.0, 2.0], [NAN, 2.0, NAN]]), probe=XM)
    tr("SimpleImputer str", SimpleImputer(missing_values="?", strategy="constant", fill_value="none"), kind="missing", fitX=np.array(XMS, dtype=object), probe=XMS)
    tr("SimpleImputer constant", SimpleImputer(strategy="constant", fill_value=-1), kind="missing", fitX=np.array(XM), probe=XM)
    tr("SimpleImputer most frequent", SimpleImputer(strategy="most_frequent", missing_values=1, add_indicator=True), kind="missing", fitX=np.array([[1, 2, 1], [1, 2, 3], [4, 1, 3], [4, 5, 1]]), probe=[[1, 1, 1], [4, 2, 1], [7, 0, -3]])
    tr("MissingIndicator", MissingIndicator(error_on_new=False), kind="missing", fitX=np.array(XM), probe=XM)
    tr("MissingIndicator all", MissingIndicator(features="all"), kind="missing", fitX=np.array(XM), probe=XM)
    tr("OneHotEncoder", OneHotEncoder(handle_unknown="ignore"), kind="cat", fitX=np.array(XC, dtype=object), probe=XC + [["?", "x"]])
    tr("OneHotEncoder dense", OneHotEncoder(sparse=False), kind="cat", fitX=np.array(XCN), probe=XCN)
    tr("OrdinalEncoder", OrdinalEncoder(), kind="cat", fitX=np.array(XC, dtype=object), probe=XC)
    tr("OrdinalEncoder int", OrdinalEncoder(dtype=np.int64), kind="cat", fitX=np.array(XCN), probe=XCN)
    tr("DictVectorizer", DictVectorizer(), kind="dict", fitX=DICTS, probe=DDPROBE)
    tr("DictVectorizer dense", DictVectorizer(sparse=False, separator=":"), kind="dict", fitX=DICTS, probe=DDPROBE)
    tr("CountVectorizer", CountVectorizer(ngram_range=(1, 2), stop_words=["old"]), kind="text", fitX=DOCS, probe=DPROBE)
    tr("CountVectorizer char", CountVectorizer(analyzer="char_wb", ngram_range=(2, 3), binary=True, strip_accents="unicode"), kind="text", fitX=DOCS, probe=DPROBE)
    tr("TfidfVectorizer", TfidfVectorizer(sublinear_tf=True, strip_accents="ascii"), kind="text", fitX=DOCS, probe=DPROBE)
    tr("TfidfVectorizer noidf", TfidfVectorizer(use_idf=False, norm="l1"), kind="text", fitX=DOCS, probe=DPROBE)
    tr("TfidfTransformer", TfidfTransformer(), True)
    tr("TfidfTransformer l1", TfidfTransformer(use_idf=False, norm="l1"), True)
    tr("TfidfTransformer idf only", TfidfTransformer(norm=None, smooth_idf=False), True)
    tr("TfidfVectorizer binary", TfidfVectorizer(binary=True, ngram_range=(1, 2)), kind="text", fitX=DOCS, probe=DPROBE)
    tr("TfidfTransformer sublinear", TfidfTransformer(norm=None, sublinear_tf=True), True)
    tr("HashingVectorizer", HashingVectorizer(n_features=16), kind="text", fitX=DOCS, probe=DPROBE)
    tr("HashingVectorizer binary", HashingVectorizer(n_features=5, binary=True, alternate_sign=False, norm=None), kind="text", fitX=DOCS, probe=DPROBE)
    tr("HashingVectorizer l1", HashingVectorizer(n_features=4, norm="l1", analyzer="char_wb", ngram_range=(2, 3)), kind="text", fitX=DOCS, probe=DPROBE)
    tr("FeatureUnion text", FeatureUnion([("c", CountVectorizer()), ("t", TfidfVectorizer(analyzer="char")), ("h", HashingVectorizer(n_features=3))], transformer_weights={"t": 2.0}),
       kind="text", fitX=DOCS, probe=DPROBE)
    tr("FeatureUnion sparse", FeatureUnion([("m", MaxAbsScaler()), ("n", Normalizer(norm="l1"))]), True)
    tr("FeatureUnion dense", FeatureUnion([("a", StandardScaler()), ("b", MaxAbsScaler()), ("c", "drop")], transformer_weights={"a": 2.0}))
    tr("FeatureUnion mixed", FeatureUnion([("a", Normalizer()), ("b", OneHotEncoder(handle_unknown="ignore"))], transformer_weights={"b": 0.5}))
    tr("Pipeline transform", Pipeline([("i", SimpleImputer()), ("n", None), ("s", StandardScaler())]), kind="missing", fitX=np.array(XM), probe=XM)

    y = np.array([LAB["str"][i] for i in Y3])
    out.append(Model("Pipeline text", _fit(Pipeline([("u", FeatureUnion([("c", CountVectorizer()), ("h", HashingVectorizer(n_features=4)), (
        "p", Pipeline([("v", CountVectorizer(analyzer="char")), ("t", TfidfTransformer())]))])), ("m", MaxAbsScaler()), ("lr", LogisticRegression())]), DOCS, y),
        DPROBE, PROBA, "text"))
    out.append(Model("Pipeline dict", _fit(Pipeline([("v", DictVectorizer()), ("t", DecisionTreeClassifier(random_state=0))]), DICTS, y), DDPROBE, PROBA, "dict"))
    out.append(Model("Pipeline numeric", _fit(Pipeline([("s", StandardScaler()), ("p", "passthrough"), ("f", RandomForestClassifier(2, random_state=0))]), X, y),
                     PROBE, PROBA, "matrix"))

    W = ["</s>", "a", "b", "a\u00a0", "bb"]
    I2 = [[1, 0], [0.5, -1], [-2, 0.25], [0, 0], [3, 1]]
    out.append(Model("fastText supervised", ft.load(W, ["__label__p", "__label__q", "__label__r"], I2, [[1, 2], [3, -1], [0, 1]]),
                     ["a b", "", "zz a\u00a0 bb a"], ["predict", "get_sentence_vector", "get_word_vector", "get_word_id"], "line", family="fasttext"))
    out.append(Model("fastText unsupervised", ft.load(W, [], I2, I2, model=2, loss=1), ["a b", "", "zz a\u00a0 bb a"],
                     ["get_sentence_vector", "get_word_vector", "get_word_id"], "line", family="fasttext"))
    return out


def requests(m, full=False):
    """[(label, method, argument factory)] of valid requests"""
    out = []
    if m.kind == "line":
        for meth in m.methods:
            args = m.X if meth in ("predict", "get_sentence_vector") else ["a", "zz", "</s>", "__label__p", "bb"]
            for a in args:
                out.append(("%s %r" % (meth, a), meth, (lambda a=a: a)))
            if meth == "predict":
                out.append(("predict list", meth, lambda m=m: list(m.X)))
        return out
    for meth in m.methods:
        out.append((meth + " batch", meth, lambda m=m: m.arg()))
        out.append((meth + " row", meth, lambda m=m: m.arg(m.X[1:2])))
        if full:
            for i in range(len(m.X)):
                out.append(("%s row%d" % (meth, i), meth, lambda m=m, i=i: m.arg(m.X[i:i + 1])))
            out.append((meth + " reversed", meth, lambda m=m: m.arg(m.X[::-1])))
        if m.sparse:
            out.append((meth + " sparse", meth, lambda m=m: m.arg(sparse=True)))
    return out
