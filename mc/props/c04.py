"""C04: xgboost classifiers."""

import functools
import json

import numpy as np
import pandas as pd
import xgboost as xgb

from ..cmp import Raised, attempt, compare, dense, tie_tolerant_labels
from ..dom import call, convert, quiet_fit
from ..trees import number, shapes

RT, AT = 2e-5, 2e-6
NAN = float("nan")
T3 = float(np.float32(0.3))
BOUNDS = {
    "quick": "routing: every tree with <=3 leaves, 3 of 12 features, 3 thresholds, both default "
             "directions, all rows of the threshold-neighbourhood grid with NaN; sums: all sequences of <=3 rounds over 5 trees "
             "x base scores x best iteration x parallel trees, 2-4 classes; feature-name, feature-type and missing-marker "
             "variants; fitted models over all labellings of 6 points x 12 option sets",
    "thorough": "routing <=4 leaves; fitted labellings of 7 points",
}
ASSUMPTIONS = ["xgboost 1.7.6 as installed is the reference; single-precision tolerance 2e-5 relative, 2e-6 absolute",
               "labels are compared exactly for dyadic models and up to probability ties of 2e-6 for fitted ones"]


@functools.lru_cache(None)
def base(k, nf, soft2=False):
    X = np.zeros((max(k, 2), nf))
    X[:, 0] = np.arange(max(k, 2))
    kw = dict(objective="multi:softprob", num_class=2) if soft2 else {}
    c = xgb.XGBClassifier(n_estimators=1, max_depth=1, n_jobs=1, **kw)
    quiet_fit(c, X, np.arange(k))
    return c, bytes(c.get_booster().save_raw("json"))


def tree_json(left, right, feature, thr, value, default_left, nf, idx):
    n = len(left)
    parents = [2147483647] * n
    for i in range(n):
        for c in (left[i], right[i]):
            if c >= 0:
                parents[c] = i
    return {
        "base_weights": [0.0] * n, "categories": [], "categories_nodes": [], "categories_segments": [],
        "categories_sizes": [], "default_left": [int(d) for d in default_left], "id": idx, "left_children": left,
        "loss_changes": [1.0] * n, "parents": parents, "right_children": right,
        "split_conditions": [float(t) if l >= 0 else float(v) for t, v, l in zip(thr, value, left)],
        "split_indices": [max(f, 0) for f in feature], "split_type": [0] * n, "sum_hessian": [1.0] * n,
        "tree_param": {"num_deleted": "0", "num_feature": str(nf), "num_nodes": str(n), "size_leaf_vector": "0"},
    }


def model(k, nf, trees, info, base_score=0.5, parallel=1, best=None, names=None, types=None, missing=NAN, soft2=False):
    import copy

    c, raw = base(k, nf, soft2)
    d = json.loads(raw)
    L = d["learner"]
    m = L["gradient_booster"]["model"]
    m["trees"] = trees
    m["tree_info"] = info
    m["gbtree_model_param"].update(num_trees=str(len(trees)), num_parallel_tree=str(parallel))
    L["learner_model_param"]["base_score"] = repr(base_score)
    G = k if k > 2 or soft2 else 1
    rounds = len(trees) // (G * parallel)
    b = rounds - 1 if best is None else best
    L["attributes"] = {"best_iteration": str(b), "best_ntree_limit": str((b + 1) * parallel)}
    if names is not None:
        L["feature_names"] = names
    if types is not None:
        L["feature_types"] = types
    bst = xgb.Booster({"nthread": 1})
    bst.load_model(bytearray(json.dumps(d).encode()))
    e = copy.copy(c)
    e._Booster = bst
    e.n_estimators = rounds
    e.num_parallel_tree = parallel if parallel != 1 else None
    e.base_score = None
    e.missing = missing
    return e


def judge(R, e, p, X, key, strict=True, names=None, methods=("predict_proba", "predict"), **det):
    Xn = np.array(X, dtype=float)
    if names is not None:
        Xn = pd.DataFrame(Xn, columns=names)
    proba = attempt(e.predict_proba, Xn)
    R.state(key, det)
    compare(R, key + ":proba", proba, call(R, p, "predict_proba", [list(r) for r in X]), X, RT, AT, what="predict_proba", **det)
    if "predict" not in methods:
        return
    ref = attempt(e.predict, Xn)
    got = call(R, p, "predict", [list(r) for r in X])
    if strict or isinstance(got, Raised) or isinstance(ref, Raised):
        compare(R, key + ":label", ref, got, X, what="predict", proba=proba, **det)
    else:
        bad = tie_tolerant_labels(dense(proba), dense(ref), got, e.classes_.tolist(), 2e-6)
        R.check(not bad, key + ":label", "labels differ at rows %s" % bad, reference=dense(ref), got=got, **det)


def axis(thr):
    out = [NAN, 0.0, 0.3, -1e6, 1e6]
    for t in thr:
        f = np.float32(t)
        out += [float(f), float(np.nextafter(f, np.float32(9))), float(np.nextafter(f, np.float32(-9))),
                float(np.nextafter(float(f), 9)), float(np.nextafter(float(f), -9))]
    return sorted(set(out), key=repr)


def routing(max_leaves, feats, nf, thr):
    def scenario(ch, R):
        leaves = ch.choose("leaves", range(1, max_leaves + 1))
        shape = ch.choose("shape", shapes(leaves))
        order = "level"  # xgboost itself stores siblings side by side
        left, right, internal, leafs = number(shape, order)
        n = len(left)
        feature, th, dl = [0] * n, [0.0] * n, [0] * n
        for i in internal:
            feature[i] = ch.choose("feature@%d" % i, feats)
            th[i] = ch.choose("threshold@%d" % i, thr)
            dl[i] = ch.choose("missing left@%d" % i, [0, 1])
        value = [0.0] * n
        for j, l in enumerate(leafs):
            value[l] = 0.75 * j - 0.75
        e = model(2, nf, [tree_json(left, right, feature, th, value, dl, nf, 0)], [0])
        p = convert(R, e, "C04:route")
        if p is None:
            return
        used = sorted(set(feature[i] for i in internal)) or [0]
        ax = axis(thr)
        rows = []
        for a in ax:
            for b in ax if len(used) > 1 else [0.0]:
                r = [0.1] * nf
                r[used[0]] = a
                if len(used) > 1:
                    r[used[1]] = b
                if len(used) > 2:
                    for c in (0.0, NAN, T3):
                        rows.append(r[: used[2]] + [c] + r[used[2] + 1 :])
                else:
                    rows.append(r)
        judge(R, e, p, rows, "C04:route", tree=(left, right, feature, th, dl))

    return scenario


SPECS = [
    ([1, -1, -1], [2, -1, -1], [0, 0, 0], [0.25, 0, 0], [0, -0.5, 0.5], [1, 0, 0]),
    ([1, -1, -1], [2, -1, -1], [1, 0, 0], [0.0, 0, 0], [0, 0.5, -0.5], [0, 0, 0]),
    ([-1], [-1], [0], [0], [0.25], [0]),
    ([1, -1, 3, -1, -1], [2, -1, 4, -1, -1], [0, 0, 1, 0, 0], [0.0, 0, 0.25, 0, 0], [0, 2.0, 0, -1.5, 0.25], [0, 0, 1, 0, 0]),
    ([1, -1, -1], [2, -1, -1], [1, 0, 0], [1.0, 0, 0], [0, -100.0, 100.0], [0, 0, 0]),
]
GRID = [[a, b] for a in (-1.0, 0.0, 0.25, 1.0, NAN) for b in (-1.0, 0.0, 0.25, 2.0, NAN)]


def trees_of(ids, nf=2):
    return [tree_json(*[list(c) for c in SPECS[t]], nf, i) for i, t in enumerate(ids)]


def sums(k, maxn, menu, soft2=False, scores=(0.5, 0.25, 0.9)):
    G = k if k > 2 or soft2 else 1

    def scenario(ch, R):
        bs = ch.choose("base_score", scores)
        par = ch.choose("num_parallel_tree", [1, 2] if maxn > 1 else [1])
        n = ch.choose("rounds", range(1, (maxn if par == 1 else max(1, maxn - 1)) + 1))
        ids = [ch.choose("tree%d" % i, menu) for i in range(n)]
        # further trees follow from the chosen ones, so that every tree of a round differs
        full, info = [], []
        for r in range(n):
            for g in range(G):
                for q in range(par):
                    full.append(menu[(menu.index(ids[r]) + g * (r + 1) + 2 * q) % len(menu)])
                    info.append(g)
        best = ch.choose("best_iteration", [None] + list(range(n - 1)))
        e = model(k, 2, trees_of(full), info, bs, par, best, soft2=soft2)
        p = convert(R, e, "C04:sum")
        if p is not None:
            judge(R, e, p, GRID, "C04:sum", strict=True, ids=full, k=k, base_score=bs, parallel=par, best=best,
                  methods=("predict_proba",) if soft2 else ("predict_proba", "predict"))

    return scenario


def multi_assign(k, menu):
    """every assignment of one tree per class"""

    def scenario(ch, R):
        ids = [ch.choose("class%d" % g, menu) for g in range(k)]
        e = model(k, 2, trees_of(ids), list(range(k)))
        p = convert(R, e, "C04:multi")
        if p is not None:
            judge(R, e, p, GRID, "C04:multi", ids=ids, k=k)

    return scenario


NAMES = [
    None, ["a", "b"], ["f1", "f0"], ["age", "income f"], ["7", "12"], ["x<2", "y"][1:] + ["width 10"], ["f10", "f11"], ["Leaf", "leaf"],
]


def naming():
    def scenario(ch, R):
        names = ch.choose("names", NAMES)
        types = ch.choose("types", [None, ["float", "float"], ["int", "float"], ["int", "int"]])
        missing = ch.choose("missing", [NAN, 0.0, -1.0, 0.25])
        ids = [ch.choose("tree0", [0, 1, 3]), ch.choose("tree1", [0, 1, 3])]
        e = model(2, 2, trees_of(ids), [0, 0], names=names, types=types, missing=missing)
        p = convert(R, e, "C04:names")
        if p is not None:
            rows = GRID + [[0.1, 0.9], [0.3, 0.1], [-0.3, -0.2]]
            if types is not None and names is None:
                Rnames = None
            judge(R, e, p, rows, "C04:names", names=names, ids=ids, types=types, missing=missing, columns=names)

    return scenario


def wide():
    """every split feature of a 13-feature model"""

    def scenario(ch, R):
        f = ch.choose("feature", range(13))
        g = ch.choose("feature2", range(13))
        t = tree_json([1, 3, -1, -1, -1], [2, 4, -1, -1, -1], [f, g, 0, 0, 0], [0.5, 1.5, 0, 0, 0],
                      [0, 0, 0.5, 1.0, -1.0], [1, 0, 0, 0, 0], 13, 0)
        e = model(2, 13, [t], [0])
        p = convert(R, e, "C04:wide")
        if p is not None:
            rows = []
            for a in (0.0, 0.5, 2.0, NAN):
                for b in (0.0, 1.5, NAN):
                    r = [1.0 + 0.01 * i for i in range(13)]
                    r[f] = a
                    r[g] = b
                    rows.append(r)
            judge(R, e, p, rows, "C04:wide", f=f, g=g)

    return scenario


def many(rounds):
    """many rounds, many classes, leaves of every magnitude"""

    def scenario(ch, R):
        k = ch.choose("k", [2, 3, 11, 12])
        n = ch.choose("rounds", rounds if k < 10 else [r // (1 if r < 10 else 10) for r in rounds])
        e = ch.choose("leaf exponent", [-120, -40, -21, -10, 0, 10, 60])
        par = ch.choose("parallel", [1, 3]) if n <= 10 else 1
        G = k if k > 2 else 1
        T, info = [], []
        for r in range(n):
            for g in range(G):
                for q in range(par):
                    l, rr, f, th, v, d = SPECS[[0, 1, 3, 2][(r // 3 + g * 2 + q) % 4] if r % 2 else 0]
                    T.append(tree_json(list(l), list(rr), list(f), list(th), [x * 2.0 ** e for x in v], list(d), 2, len(T)))
                    info.append(g)
        est = model(k, 2, T, info, parallel=par)
        p = convert(R, est, "C04:many")
        if p is not None:
            judge(R, est, p, GRID, "C04:many", strict=False, k=k, rounds=n, exponent=e, parallel=par)

    return scenario


PTS = np.array([[0.0, 1.0], [0.2, NAN], [0.4, 0.0], [0.4, 2.0], [NAN, 0.1], [1.0, 0.3], [0.7, 0.7]])
OPTS = [
    dict(), dict(booster="gbtree", max_depth=1), dict(gamma=0.05, tree_method="exact"), dict(gamma=0.3, tree_method="exact", max_depth=4),
    dict(base_score=0.2), dict(num_parallel_tree=2, subsample=0.7), dict(tree_method="hist", max_leaves=3, grow_policy="lossguide"),
    dict(missing=0.4), dict(scale_pos_weight=2.0), dict(learning_rate=1.0, max_delta_step=0.5), dict(early=1), dict(more=2),
]


def fitted(npts):
    def scenario(ch, R):
        opt = dict(ch.choose("options", OPTS))
        early, more = opt.pop("early", None), opt.pop("more", None)
        k = ch.choose("k", [2, 3])
        y = list(range(k)) + [ch.choose("y%d" % i, range(k)) for i in range(npts - k)]
        y = np.array(y)
        X = PTS[:npts]
        e = xgb.XGBClassifier(n_estimators=4, n_jobs=1, min_child_weight=0, random_state=1, **opt)
        if early:
            e.set_params(early_stopping_rounds=1, n_estimators=8, learning_rate=1.0)
            quiet_fit(e, X, y, eval_set=[(X, y[::-1])], verbose=False)
        else:
            quiet_fit(e, X, y)
        if more:
            e2 = xgb.XGBClassifier(n_estimators=more, n_jobs=1, min_child_weight=0, random_state=1, **opt)
            quiet_fit(e2, X, y, xgb_model=e.get_booster())
            e = e2
        p = convert(R, e, "C04:fit")
        if p is not None:
            rows = [[a, b] for a in (0.0, 0.1, 0.2, 0.3, 0.4, 0.7, 1.0, NAN) for b in (0.0, 0.05, 0.1, 0.3, 1.0, 1.5, NAN)]
            judge(R, e, p, rows, "C04:fit", strict=False, y=y.tolist(), opt=opt, early=early, more=more)

    return scenario


def scenarios(tier):
    t = tier == "thorough"
    return [
        ("routing", routing(3, [0, 1, 11], 12, [-0.5, 0.0, T3])),
        ("binary", sums(2, 3, [0, 1, 2, 3, 4])),
        ("soft2", sums(2, 2, [0, 1, 2, 3, 4], soft2=True)),
        ("multi3", sums(3, 2, [0, 1, 2, 3, 4], scores=(0.5, 0.25))),
        ("assign3", multi_assign(3, [0, 1, 2, 3, 4])),
        ("assign4", multi_assign(4, [0, 1, 3] if not t else [0, 1, 2, 3, 4])),
        ("naming", naming()),
        ("wide", wide()),
        ("many", many([1, 10, 100, 400] + ([1500] if t else []))),
        ("fitted", fitted(7 if t else 6)),
    ] + ([("routing4", routing(4, [0, 11], 12, [0.0, T3]))] if t else [])
