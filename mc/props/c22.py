"""C22: probabilities are well formed for every finite input."""

import copy
import itertools
import math

import numpy as np
from pure_fasttext import FastText
from sklearn.ensemble import BaggingClassifier, RandomForestClassifier
from sklearn.linear_model import LogisticRegression, SGDClassifier
from sklearn.naive_bayes import ComplementNB, GaussianNB, MultinomialNB
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import MinMaxScaler, StandardScaler

from .. import ft
from ..cmp import Raised, attempt, dense
from ..dom import convert, enc_sparse_dict, enc_sparse_explicit, labels_for, quiet_fit
from ..trees import make_tree, wrap_clf, wrap_reg
from ..zoo import zoo
from . import c02, c03, c04, c05, c06

BOUNDS = {
    "quick": "inputs: every row over {0, +-1, +-1e-300, +-1e6, +-1e20, +-1e155, +-1e300, 5e-324} per feature for the 28 probabilistic zoo models and further fitted ones, dense and sparse; parameters: every "
             "coefficient table over {0,1,-40,1e3,-1e300}, every mean/variance/prior table over magnitudes 1e-300..1e300, every count table over {0,1,1e6}, every stage/leaf table "
             "over {0,+-1,+-750,+-1e155} for boosting and {0,+-30,+-89,+-1e30} for xgboost, forests of 1-40 members, fastText output tables over {0,+-1,+-1e4}",
    "thorough": "larger tables (4 classes, 3 stages, 3 features)",
}
ASSUMPTIONS = ["rows for which the native model itself refuses, overflows or answers NaN are outside the domain",
               "sums within 1e-6 of one, labels within 1e-9 of the maximum (single precision for xgboost and fastText)"]
EXT = [0.0, 1.0, -1.0, 1e-300, -1e-300, 1e6, -1e6, 1e20, -1e20, 1e155, -1e155, 1e300, -1e300, 5e-324]


def well_formed(row, k, tol=1e-6):
    return (isinstance(row, (list, tuple)) and len(row) == k and all(isinstance(v, (int, float)) and not isinstance(v, bool) and math.isfinite(v) and v >= 0 for v in row)
            and abs(sum(row) - 1.0) <= tol)


def domain(e, X, names=None):
    """rows whose native answer is itself a probability distribution"""
    with np.errstate(all="ignore"):
        P = attempt(e.predict_proba, np.array(X, dtype=float))
    k = len(e.classes_)
    if isinstance(P, Raised):
        if len(X) == 1:
            return []
        return [r for x in X for r in domain(e, [x])]
    P = dense(P)
    return [x for x, p in zip(X, P) if well_formed([float(v) for v in p], k)]


def judge(R, e, p, X, key, tol=1e-9, sparse=False, **det):
    rows = domain(e, X)
    R.count("outside_domain", len(X) - len(rows))
    R.count("rows", len(rows))
    R.state(key, det, len(rows))
    R.trans(3 + 3 * bool(sparse))
    R.validated()
    if not rows:
        return
    classes = e.classes_.tolist()
    k = len(classes)
    for enc in [None] + ([enc_sparse_dict, enc_sparse_explicit] if sparse else []):
        A = copy.deepcopy(rows) if enc is None else enc(rows)
        P = attempt(p.predict_proba, A)
        if not R.check(not isinstance(P, Raised) and len(P) == len(rows), key + ":proba", "predict_proba answers %r for %d finite rows" % (P if isinstance(P, Raised) else len(P), len(rows)), rows=rows, **det):
            return
        L = attempt(p.predict, A)
        if not R.check(not isinstance(L, Raised) and len(L) == len(rows), key + ":label", "predict answers %r" % (L,), rows=rows, **det):
            return
        G = attempt(p.predict_log_proba, A) if hasattr(p, "predict_log_proba") else None
        if not R.check(G is None or not isinstance(G, Raised) and len(G) == len(rows), key + ":log", "predict_log_proba answers %r" % (G,), rows=rows, **det):
            return
        for i, x in enumerate(rows):
            R.validated()
            if not well_formed(P[i], k, 1e-6):
                R.fail(key + ":proba", "probabilities of a finite row are %r" % (P[i],), row=x, **det)
                return
            if L[i] not in classes or P[i][classes.index(L[i])] < max(P[i]) - tol:
                R.fail(key + ":label", "label %r with probabilities %r (classes %r)" % (L[i], P[i], classes), row=x, **det)
                return
            if G is not None and not (len(G[i]) == k and all(logged(g, v) for g, v in zip(G[i], P[i]))):
                R.fail(key + ":log", "log-probabilities %r of probabilities %r" % (G[i], P[i]), row=x, **det)
                return
        R.outcome(P)


def logged(g, v):
    if not isinstance(g, (int, float)) or g != g:
        return False
    if v > 1e-290:
        return abs(g - math.log(v)) <= 1e-7 * max(1.0, -g)
    return g <= -660


def fitted(Z):
    extra = []
    from ..zoo import XN, Y3, Y2

    X, y3, y2 = np.array(XN), np.array(Y3), np.array(Y2)
    for e, y in [
        (LogisticRegression(C=1e9, max_iter=50), y3), (SGDClassifier(loss="log", alpha=1e-9, random_state=1), y2), (GaussianNB(var_smoothing=1e-30), y3), (GaussianNB(priors=[1.0, 0.0]), y2),
        (make_pipeline(StandardScaler(), LogisticRegression()), y3), (make_pipeline(MinMaxScaler(), MultinomialNB(alpha=1e-9)), y3), (make_pipeline(StandardScaler(), GaussianNB()), y2),
        (BaggingClassifier(GaussianNB(), n_estimators=3, random_state=0), y3), (BaggingClassifier(LogisticRegression(multi_class="ovr"), n_estimators=2, max_features=2, random_state=0), y3),
        (make_pipeline(StandardScaler(), RandomForestClassifier(3, random_state=0)), y3), (MultinomialNB(alpha=1e-9), y3), (ComplementNB(norm=True), y2),
        (BaggingClassifier(MultinomialNB(), n_estimators=3, random_state=0), y3),
    ]:
        extra.append((type(e).__name__ + ":" + "/".join(type(s).__name__ for s in [getattr(e, "base_estimator", None)] + [s[1] for s in getattr(e, "steps", [])] if s is not None),
                      quiet_fit(e, X, y), False))
    models = [(m.name, m.native, m.sparse) for m in Z if "predict_proba" in m.methods and m.kind == "matrix"] + extra

    def scenario(ch, R):
        name, e, sp = ch.choose("model", models)
        a = ch.choose("first", EXT)
        p = convert(R, e, "C22:" + name)
        if p is None:
            return
        X = [[a, b, c] for b in EXT for c in EXT]
        judge(R, e, p, X, "C22:" + name, tol=1e-6 if "XGB" in name else 1e-9, sparse=sp, model=name)

    return scenario


BIG = [-1e300, -1e155, -1e3, -1.0, 0.0, 1e-3, 1.0, 40.0, 1e3, 1e155, 1e300]


def linear(k, vals, bs):
    def scenario(ch, R):
        mode = ch.choose("estimator", ["lr-ovr", "lr-multi", "sgd-log", "lr-auto"])
        K = 1 if k == 2 else k
        coef = [[ch.choose("coef%d" % i, vals)] for i in range(K)]
        b = ch.choose("intercept", bs)
        b = [b * (i + 1) for i in range(K)]
        e = c05.crafted(mode, k, coef, b, labels_for("gap", k))
        p = convert(R, e, "C22:linear")
        if p is not None:
            judge(R, e, p, [[v] for v in BIG], "C22:linear:" + mode, sparse=True, coef=coef, b=b)

    return scenario


def gaussian(k, thetas, sigmas):
    def scenario(ch, R):
        prior = ch.choose("prior", {2: [[0.5, 0.5], [1.0, 0.0], [1e-300, 1.0]], 3: [[0.25, 0.25, 0.5], [0.0, 1.0, 0.0]]}[k])
        th = [[ch.choose("theta%d" % i, thetas)] for i in range(k)]
        sg = [[ch.choose("sigma%d" % i, sigmas)] for i in range(k)]
        e = copy.copy(c06.gbase(k, 1))
        e.theta_, e.sigma_, e.class_prior_ = np.array(th), np.array(sg), np.array(prior)
        e.classes_ = np.array(labels_for("str", k))
        p = convert(R, e, "C22:gauss")
        if p is not None:
            judge(R, e, p, [[v] for v in BIG], "C22:gauss", theta=th, sigma=sg, prior=prior)

    return scenario


def discrete(k, nf):
    def scenario(ch, R):
        cls = ch.choose("estimator", [MultinomialNB, ComplementNB])
        alpha = ch.choose("alpha", [1.0, 1e-9])
        norm = ch.flag("norm") if cls is ComplementNB else False
        tab = [[ch.choose("count%d,%d" % (i, j), [0, 1, 1e6]) for j in range(nf)] for i in range(k)]
        kw = {"norm": True} if norm else {}
        e = attempt(lambda: quiet_fit(cls(alpha=alpha, **kw), np.array(tab, dtype=float), np.array(labels_for("upper", k))))
        if isinstance(e, Raised):
            R.validated()
            return
        p = convert(R, e, "C22:discrete")
        if p is not None:
            cnt = [0, 1, 1e3, 1e12, 1e155, 1e300]
            judge(R, e, p, [list(r) for r in itertools.product(cnt, repeat=nf)], "C22:" + cls.__name__, table=tab, alpha=alpha, norm=norm)

    return scenario


def boosting(k, stages, leaves, inits):
    def stage(v):
        return wrap_reg(make_tree([1, -1, -1], [2, -1, -1], [0, -2, -2], [0.25, -2, -2], [[0.0], [v], [-v]], 2, 1), 2)

    trees = {v: stage(v) for v in leaves}

    def scenario(ch, R):
        loss = ch.choose("loss", ["deviance", "exponential"] if k == 2 else ["deviance"])
        init = ch.choose("init", inits)
        e = copy.copy(c03.base(k, loss))
        K = 1 if k == 2 else k
        arr = np.empty((stages, K), dtype=object)
        vals = [[ch.choose("leaf%d,%d" % (i, j), leaves) for j in range(K)] for i in range(stages)]
        for i in range(stages):
            for j in range(K):
                arr[i, j] = trees[vals[i][j]]
        e.estimators_, e.classes_, e.n_estimators = arr, np.array(labels_for("gap", k)), stages
        e.init_ = e.init = c03.init_est(init, k)
        e.learning_rate = 1.0
        p = convert(R, e, "C22:boost")
        if p is not None:
            judge(R, e, p, [[0.0, 0.0], [1.0, 0.5], [-1e30, 1e30]], "C22:boost:" + loss, leaves=vals, init=init, loss=loss)

    return scenario


def xgb(k, rounds, leaves):
    G = 1 if k == 2 else k

    def scenario(ch, R):
        bs = ch.choose("base_score", [0.5, 1e-6, 0.999999])
        vals = [ch.choose("leaf%d" % i, leaves) for i in range(rounds * G)]
        t = [c04.tree_json([1, -1, -1], [2, -1, -1], [0, 0, 0], [0.25, 0, 0], [0, v, -v], [1, 0, 0], 2, i) for i, v in enumerate(vals)]
        e = c04.model(k, 2, t, [i % G for i in range(len(t))], bs)
        p = convert(R, e, "C22:xgb")
        if p is not None:
            judge(R, e, p, [[0.0, 0.0], [1.0, 0.5], [-1e30, 1e30], [1e-40, 0.0]], "C22:xgb", tol=1e-6, leaves=vals, base_score=bs)

    return scenario


def forests(sizes):
    """members whose leaf distributions do not add up exactly"""
    leafs = [[1.0, 2.0, 3.0], [1e-9, 1.0, 1e9], [7.0, 0.0, 0.1], [1e150, 1e140, 0.0]]

    def scenario(ch, R):
        kind = ch.choose("ensemble", ["rf", "et", "bag"])
        n = ch.choose("members", sizes)
        a, b, step = ch.choose("left", leafs), ch.choose("right", leafs), ch.choose("step", [1, 2, 3])
        ms = []
        for i in range(n):
            l, r = leafs[(leafs.index(a) + i * step) % 4], leafs[(leafs.index(b) + i) % 4]
            ms.append(wrap_clf(make_tree([1, -1, -1], [2, -1, -1], [i % 2, -2, -2], [0.25, -2, -2], [[1.0] * 3, l, r], 2, 3), 2, np.arange(3.0)))
        if kind == "bag":
            e = c02.bagging_native(ms, [[i % 2, 1] for i in range(n)], 3, labels_for("gap", 3))
        else:
            e = c02.forest_native(kind, ms, 3, labels_for("str", 3))
        p = convert(R, e, "C22:forest")
        if p is not None:
            judge(R, e, p, [[0.0, 0.0], [1.0, 0.5], [-1e30, 1e30], [1e30, 0.0]], "C22:" + kind, sparse=True, members=n, leaves=(a, b, step))

    return scenario


def fasttext(k):
    def scenario(ch, R):
        inp = ch.choose("input scale", [1.0, 1e4, 1e-20])
        out = [[ch.choose("out%d,%d" % (i, j), [0.0, 1.0, -1.0, 1e4, -1e4]) for j in range(2 if k == 2 else 1)] for i in range(k)]
        dim = len(out[0])
        m = ft.load(["</s>", "a", "b"], ["__label__%d" % i for i in range(k)], [[inp] * dim, [-inp] * dim, [0.5 * inp] + [2.0 * inp] * (dim - 1)], out)
        p = FastText(m)
        for text in ("a", "b b", "a b zz", ""):
            nat = attempt(m.predict, text, k=-1, threshold=-1.0)
            ok = not isinstance(nat, Raised) and len(nat[0]) == k and all(math.isfinite(v) for v in nat[1])
            R.trans()
            R.state("ft", inp, out, text)
            R.validated()
            if not ok:
                R.count("outside_domain")
                continue
            got = attempt(p.predict, text, k=-1, threshold=-1.0)
            if isinstance(got, Raised):
                R.fail("C22:fasttext", "predict raised %r" % got, text=text, out=out, inp=inp)
                continue
            pr = [float(v) for v in got[1]]
            R.check(len(set(got[0])) == k == len(pr) and all(math.isfinite(v) and v >= 0 for v in pr) and abs(sum(pr) - 1) <= 2e-5 * k and pr == sorted(pr, reverse=True),
                    "C22:fasttext", "probabilities are %r" % (got,), text=text, out=out, inp=inp)
            R.outcome(got)

    return scenario


def scenarios(tier):
    t = tier == "thorough"
    lv, xv = [0.0, 1.0, -1.0, 750.0, -750.0, 1e155, -1e155], [0.0, 30.0, -30.0, 89.0, -89.0, 1e30, -1e30]
    cv = [0.0, 1.0, -40.0, 1e3, -1e300]
    sc = [
        ("fitted models", fitted(zoo())),
        ("linear 2", linear(2, cv + [1e-300, 5e-324], [0.0, 1.0, -745.0, 1e300])),
        ("linear 3", linear(3, cv, [0.0, 1.0, -745.0])),
        ("gaussian 2", gaussian(2, [0.0, 1.0, -1e150, 1e300], [1.0, 1e-300, 1e-9, 1e300])),
        ("gaussian 3", gaussian(3, [0.0, 1.0, -1e150], [1.0, 1e-9] + ([1e300] if t else []))),
        ("discrete 2", discrete(2, 2)), ("discrete 3", discrete(3, 2 if t else 1)),
        ("boosting 2", boosting(2, 2, lv, ["zero", "prior", "certain", "lr"])),
        ("boosting 3", boosting(3, 1, lv, ["zero", "prior", "certain"])),
        ("xgb 2", xgb(2, 2, xv)), ("xgb 3", xgb(3, 1, xv)),
        ("forests", forests([1, 2, 3, 7, 10, 40])),
        ("fasttext 2", fasttext(2)), ("fasttext 3", fasttext(3)),
    ]
    if t:
        sc += [("linear 4", linear(4, cv, [0.0, 1.0])), ("boosting 2x3", boosting(2, 3, lv, ["zero", "prior"])), ("boosting 4", boosting(4, 1, lv, ["zero", "prior"])),
               ("xgb 2x3", xgb(2, 3, xv)), ("fasttext 4", fasttext(4))]
    return sc
