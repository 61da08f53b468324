"""C26: a converted model is an independent snapshot of the native one."""

import copy
import itertools
import warnings

import numpy as np
from pure_fasttext import FastText
from pure_sklearn.map import MAPPING, convert_estimator

from .. import sweep
from ..cmp import Raised, attempt
from ..parts import edits, inner, value
from ..sched import call
from ..state import canon, globals_state
from ..zoo import DICTS, DOCS, XC, XCN, XM, XMS, XN, requests, zoo

BOUNDS = {
    "quick": "76 models; every mutable part (array, list, dictionary, set, attribute, tree array) of the native model edited alone after conversion, and of a converted model while a second conversion of the same model "
             "exists; every inner model converted beside the outer one and edited part by part; every history of 3 operations out of convert, edit everything, refit, use and set parameters, all earlier snapshots re-examined after each; the workloads of C01-C14, C16 and C17 (every sequence of choices with at most one off the first option): every conversion made twice and compared, every part of one of the two edited, every part of a copy of the native model edited, converted again",
    "thorough": "pairs of edited parts; histories of 4 operations; workloads with at most two choices off the first option",
}
ASSUMPTIONS = ["the native model is edited through Python-visible arrays and attributes"]


def convert(m, native):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return FastText(native) if m.family == "fasttext" else convert_estimator(native)


def fresh(m):
    """an independent native copy"""
    if m.family != "fasttext":
        return copy.deepcopy(m.native)
    from .. import ft
    n = m.native
    return ft.load(n.get_words(), n.get_labels() if n.f.getArgs().model.name == "supervised" else [], np.array(n.f.getInputMatrix()).tolist(), np.array(n.f.getOutputMatrix()).tolist(),
                   model=int(n.f.getArgs().model), loss=int(n.f.getArgs().loss))


def answers(m, p):
    return tuple((label, canon(call(lambda: getattr(p, meth)(mk())))) for label, meth, mk in requests(m))


def snapshot(m, p):
    # the state after use: first use may fill in a cache
    a = answers(m, p)
    return canon(p), a


def data(m):
    """other data of the same kind to fit on"""
    X = {"matrix": [[2 * v + 1 for v in r] for r in XN[::-1]], "missing": XM[::-1], "text": [d + " new" for d in DOCS[::-1]], "dict": [dict(d, new=1) for d in DICTS[::-1]], "cat": XC[::-1]}[m.kind]
    if "str" in m.name:
        X = XMS[::-1]
    if m.kind == "cat" and isinstance(m.X[0][0], (int, float)):
        X = XCN[::-1]
    if m.kind == "cat" or "str" in m.name:
        X = np.array(X, dtype=None if isinstance(X[0][0], (int, float)) else object)
    elif m.kind in ("matrix", "missing"):
        X = np.array(X)
    y = np.arange(len(X)) % 4
    if "XGB" in m.name:
        y = np.arange(len(X)) % 3
    return X, y


def same_snapshot(R, m, p, want, key, what, **kw):
    got = answers(m, p)
    if not R.check(got == want[1], key, "%s changed the answers of a converted model" % what, **kw):
        return False
    got = canon(p)
    return R.check(got == want[0], key, "%s changed the state of a converted model" % what, **kw)


def conversion(Z):
    def scenario(ch, R):
        m = Z[ch.choose("model", range(len(Z)))]
        key = "C26:%s" % m.name
        n = fresh(m)
        before = value(n)
        convert(m, n)  # modules are imported on first use
        g = globals_state()
        for k in range(3):
            p = convert(m, n)
            R.trans()
            R.check(value(n) == before, key, "conversion %d changed the native model" % k)
            snap = snapshot(m, p)
            if k == 0:
                first, first_p = snap, p
            R.check(snap == first, key, "conversion %d differs from the first" % k)
            R.check(p is not first_p or k == 0, key, "the same object is returned again")
            R.check(value(n) == before, key, "using a converted model changed the native model")
            R.state(m.name, k, snap[0])
        R.check(globals_state() == g, key, "conversion changed module state")

    return scenario


def native_edits(Z, pairs):
    def scenario(ch, R):
        warnings.simplefilter("ignore")
        m = Z[ch.choose("model", range(len(Z)))]
        key = "C26:%s" % m.name
        n0 = fresh(m)
        names = [e[0] for e in edits(n0)]
        i = ch.choose("part", range(len(names)))
        n = fresh(m)
        p = convert(m, n)
        want = snapshot(m, p)
        es = edits(n)
        for j in [None] + (list(range(i + 1, len(es))) if pairs else []):
            R.trans()
            e = es[i if j is None else j]
            # the parts found may differ once others were converted
            r = attempt(e[1])
            if isinstance(r, Raised):
                R.count("edit_refused")
            R.state(m.name, i, j)
            if not same_snapshot(R, m, p, want, key, "editing %s of the native model" % e[0]):
                return
            q = attempt(convert, m, n)
            R.outcome(isinstance(q, Raised), None if isinstance(q, Raised) else canon(q))
            if not same_snapshot(R, m, p, want, key, "converting the edited model"):
                return

    return scenario


def siblings(Z):
    def scenario(ch, R):
        warnings.simplefilter("ignore")
        m = Z[ch.choose("model", range(len(Z)))]
        key = "C26:%s" % m.name
        n = m.native
        p = convert(m, n)
        names = [e[0] for e in edits(p)]
        i = ch.choose("part", range(len(names) + 1))
        q = convert(m, n)
        want = snapshot(m, q)
        before = value(n)
        es = edits(p)
        for e in es if i == len(names) else [es[i]]:
            e[1]()
        what = "editing %s of another converted model" % ("everything" if i == len(names) else names[i])
        R.trans()
        R.state(m.name, i)
        same_snapshot(R, m, q, want, key, what)
        r = convert(m, n)
        R.check(snapshot(m, r) == want, key, what + " changed what later conversions give")
        R.check(value(n) == before, key, what + " changed the native model")

    return scenario


def nested(Z):
    cases = []
    for m in Z:
        for k, e in enumerate(inner(m.native)):
            if type(e).__name__ in MAPPING and e is not m.native:
                cases.append((m, k))

    def scenario(ch, R):
        warnings.simplefilter("ignore")
        m, k = cases[ch.choose("inner model", range(len(cases)))]
        key = "C26:%s:inner" % m.name
        n = m.native
        e = inner(n)[k]
        a = attempt(convert_estimator, e)
        if isinstance(a, Raised):
            R.validated()
            return
        names = [x[0] for x in edits(a)]
        i = ch.choose("part", range(len(names) + 1))
        p = convert(m, n)
        want = snapshot(m, p)
        es = edits(a)
        for x in es if i == len(names) else [es[i]]:
            x[1]()
        R.trans()
        R.state(m.name, k, i)
        same_snapshot(R, m, p, want, key, "editing a converted inner model", inner=type(e).__name__)
        # and the other way round
        a = convert_estimator(e)
        before = canon(a)
        for x in edits(p):
            x[1]()
        R.check(canon(a) == before, key, "editing the converted outer model changed the inner one", inner=type(e).__name__)

    return scenario


OPS = ["convert", "edit native", "refit", "use", "set parameters", "edit converted"]


def refit(m, n):
    X, y = data(m)
    return n.fit(X, y)


def histories(Z, depth):
    def scenario(ch, R):
        warnings.simplefilter("ignore")
        m = Z[ch.choose("model", range(len(Z)))]
        key = "C26:%s:history" % m.name
        ops = [o for o in OPS if m.family != "fasttext" or o not in ("refit", "set parameters")]
        n = fresh(m)
        p = convert(m, n)
        held = [(p, snapshot(m, p))]
        hist = []
        for d in range(depth):
            op = ch.choose("op%d" % d, ops)
            hist.append(op)
            R.trans()
            if op == "convert":
                before = value(n)
                q = attempt(convert, m, n)
                R.check(value(n) == before, key, "conversion changed the native model", history=hist)
                if not isinstance(q, Raised):
                    held.append((q, snapshot(m, q)))
            elif op == "edit native":
                for e in edits(n):
                    if not e[0].endswith("=") or d == depth - 1:
                        attempt(e[1])
            elif op == "refit":
                r = attempt(refit, m, n)
                R.count("refit_refused" if isinstance(r, Raised) else "refit")
            elif op == "set parameters":
                for k, v in n.get_params(deep=False).items():
                    if isinstance(v, bool):
                        attempt(n.set_params, **{k: not v})
                    elif isinstance(v, (int, float)) and "n_features" not in k:
                        attempt(n.set_params, **{k: v + 1})
            elif op == "use":
                for q, _ in held:
                    answers(m, q)
            elif op == "edit converted" and len(held) > 1:
                q, _ = held.pop()
                for e in edits(q):
                    e[1]()
            R.state(m.name, tuple(hist))
            for q, want in held:
                if not same_snapshot(R, m, q, want, key, op, history=hist):
                    return

    return scenario


def own(tier):
    Z = zoo()
    deep = tier == "thorough"
    return [("conversion", conversion(Z)), ("native edits", native_edits(Z, deep)), ("siblings", siblings(Z)), ("inner models", nested(Z)), ("histories", histories(Z, 4 if deep else 3))]


def scenarios(tier):
    d = 2 if tier == "thorough" else 1
    return own(tier) + [("workloads", sweep.sweep(sweep.Conversions, d))]
