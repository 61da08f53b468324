"""C12: DictVectorizer."""

import collections
import itertools
import types

import numpy as np
from pure_sklearn.utils import issparse
from sklearn.feature_extraction import DictVectorizer

from ..cmp import Raised, attempt, compare, dense
from ..dom import call, convert, native
from ..text import compare_rows

BOUNDS = {
    "quick": "every dictionary over 4 keys (two of which collide for some values) with 3-5 values each; every pair of 24 fit dictionaries; "
             "3 separators, 5 dtypes, sorted or not, restricted or not, sparse or dense; batches: all dictionaries, each alone, empty ones, a bare dictionary; 7 kinds of mapping in 7 kinds of collection; up to 5000 features",
    "thorough": "every triple of 24 fit dictionaries",
}
ASSUMPTIONS = ["values are numbers, booleans or strings"]
ABS = object()
KEYS = {"a": [ABS, 1, 2.5, "x", "y"], "a=x": [ABS, 3, -3], "b": [ABS, True, "y", 0, ""], "zz": [ABS, 4, "q"]}


def all_dicts(order=1):
    ks = list(KEYS)[::order]
    out = []
    for t in itertools.product(*[KEYS[k] for k in ks]):
        out.append({k: v for k, v in zip(ks, t) if v is not ABS})
    return out


D = all_dicts()
DR = all_dicts(-1)
DT = [np.float64, np.float32, np.int64, bool, float]


def check(R, est, p, X, key, **det):
    ref = native(est, "transform", X)
    got = call(R, p, "transform", X)
    if est.sparse:
        compare_rows(R, key, ref, got, X if isinstance(X, list) else [X], rtol=2e-7, what="DictVectorizer", **det)
    else:
        if isinstance(ref, Raised):
            R.check(isinstance(got, Raised), key + ":not-refused", "reference refuses, implementation answers", input=X, got=got, **det)
            return
        compare(R, key, ref, got, X, rtol=2e-7, what="DictVectorizer dense", **det)
        if not isinstance(got, Raised):
            R.check(type(got) is list and all(type(r) is list for r in got), key + ":container", "dense result is %s" % type(got), **det)


def vect(nfit):
    fits = D[1::13]

    def scenario(ch, R):
        F = [ch.choose("fit%d" % i, fits) for i in range(nfit)]
        for n, (sep, sparse, sort) in enumerate(itertools.product(["=", ":", ""], [True, False], [True, False])):
            dt = DT[(n + len(str(F))) % len(DT)]
            est = DictVectorizer(dtype=dt, separator=sep, sparse=sparse, sort=sort).fit(F)
            if not est.feature_names_:
                R.validated()
                continue
            det = dict(fit=F, sep=sep, sort=sort, dtype=dt.__name__)
            if n % 5 == 4 and len(est.feature_names_) > 1:
                est.restrict([0, len(est.feature_names_) - 1], indices=True)
                det["restricted"] = True
            p = convert(R, est, "C12")
            if p is None:
                return
            R.state(F, sep, sparse, sort, dt.__name__)
            key = "C12:%s" % ("sparse" if sparse else "dense")
            check(R, est, p, D, key, **det)
            check(R, est, p, DR, key, **det)
            for d in (D[0], D[-1], D[61], DR[44]):
                check(R, est, p, [d], key, **det)
                check(R, est, p, d, key + ":bare", **det)
            check(R, est, p, tuple(D[:3]), key, **det)

    return scenario


def keys():
    """non-string keys and long vocabularies"""
    def scenario(ch, R):
        n = ch.choose("n", [1, 2, 9, 10, 11, 25, 101])
        kind = ch.choose("keys", ["int", "str", "prefix"])
        sparse, sort = ch.flag("sparse"), ch.flag("sort")
        mk = {"int": lambda i: i * 7 % 103, "str": lambda i: str(i), "prefix": lambda i: "k" * i}[kind]
        F = [{mk(i): i + 1.0 for i in reversed(range(n))}]
        est = DictVectorizer(sparse=sparse, sort=sort).fit(F)
        p = convert(R, est, "C12:keys")
        if p is None:
            return
        X = F + [{mk(i): -1} for i in range(n)] + [{}, {"nope": 1}, {mk(n): 1}]
        R.state(n, kind, sparse, sort)
        check(R, est, p, X, "C12:keys", n=n, kind=kind)

    return scenario


def large(sizes):
    """many features; values of every magnitude; many categories of one key"""

    def scenario(ch, R):
        n = ch.choose("n", sizes)
        kind = ch.choose("kind", ["keys", "values", "both"])
        sparse, sort = ch.flag("sparse"), ch.flag("sort")
        order = ch.choose("order", [1, -1, 7])
        F = [{} for _ in range(5)]
        vals = [1e-300, -1e-9, 0.1, 3, -7.5, 1e9, 2 ** 53 + 1, 1e300, True, -0.0]
        for q in range(n):
            i = q * order % n if n % 7 else q
            if kind != "values":
                F[i % 5]["k%d" % i] = vals[i % len(vals)]
            if kind != "keys":
                F[i % 5].setdefault("v", "w%d" % i)
                F.append({"v": "w%d" % i})
        est = DictVectorizer(sparse=sparse, sort=sort).fit(F)
        if n > 2 and order == 7:
            est.restrict(list(range(0, len(est.feature_names_), 2)), indices=True)
        p = convert(R, est, "C12:large")
        if p is None:
            return
        X = F[:12] + F[-3:] + [{"k0": "w1", "v": 1.5}, {"v": "w0", "k1": -1, "zz": "w0"}, {k: v for f in F[:5] for k, v in f.items()}, {}]
        R.state(n, kind, sparse, sort, order)
        check(R, est, p, X, "C12:large", n=n, kind=kind, sort=sort)
        check(R, est, p, [X[-2]], "C12:large", n=n, kind=kind, sort=sort)

    return scenario


LOOKALIKE = ["x", " x", "x ", "X", "x\n", "", " ", "nan", "None", "True", "true", "False", "1", "1.0", "01", "-1", "0", "1e5", "a=x", "=", "x=", "=x", "\u00e9", "e\u0301", "\u00df", "ss", "\x00", "a" * 300,
             1, 1.0, True, False, 0, -1, 2.5, -0.5, 1e-9, 1e9]


def lookalikes():
    """values and keys that look like other values and keys"""

    def scenario(ch, R):
        sep = ch.choose("separator", ["=", ":", "", " ", "=="])
        sparse, sort = ch.flag("sparse"), ch.flag("sort")
        dt = ch.choose("dtype", DT)
        left = ch.choose("left out", [None, 0, 3, 7])
        F = [{"a": v} for i, v in enumerate(LOOKALIKE) if left is None or i % 8 != left] + [{"A": 1}, {" a": 2}, {"a ": 3}, {"": 4}, {"a" + sep + "x": 0.5}, {sep: -1.5}]
        est = DictVectorizer(sparse=sparse, sort=sort, separator=sep, dtype=dt).fit(F)
        p = convert(R, est, "C12:lookalikes")
        if p is None:
            return
        X = [{"a": v} for v in LOOKALIKE] + F[-6:] + [{"a": v, "A": w, "a" + sep + "x": 0.75} for v in ("x", "nan", 1.5, "True") for w in (1, "x", 0.25)]
        X += [{"a": "x", "a" + sep + "x": v} for v in (0.5, 1.75, -0.5, -1, True)] + [{"a" + sep + "x": v, "a": "x"} for v in (0.5, 1.75, -0.5, -1, True)]
        R.state(sep, sparse, sort, dt.__name__, left)
        check(R, est, p, X, "C12:lookalikes", sep=sep, dtype=dt.__name__, left=left)
        for d in X:
            check(R, est, p, [d], "C12:lookalikes", sep=sep, dtype=dt.__name__, left=left)

    return scenario


KINDS = {
    "dict": dict,
    "OrderedDict": collections.OrderedDict,
    "defaultdict": lambda d: collections.defaultdict(float, d),
    "ChainMap": lambda d: collections.ChainMap(dict(list(d.items())[:1]), dict(list(d.items())[1:])),
    "UserDict": collections.UserDict,
    "proxy": lambda d: types.MappingProxyType(dict(d)),
    "subclass": lambda d: type("Row", (dict,), {})(d),
}
HOLDERS = {
    "alone": None,
    "list": list,
    "tuple": tuple,
    "generator": lambda rows: (r for r in rows),
    "iterator": iter,
    "deque": collections.deque,
    "array": lambda rows: np.array(list(rows) + [None], dtype=object)[:-1],
}


def kinds():
    """mappings of every kind, alone and in every kind of collection"""
    some = [d for i, d in enumerate(D) if i % 9 == 4][:24]

    def scenario(ch, R):
        kind, holder = ch.choose("mapping", list(KINDS)), ch.choose("collection", list(HOLDERS))
        sparse, sort = ch.flag("sparse"), ch.flag("sort")
        est = DictVectorizer(sparse=sparse, sort=sort).fit(D[1::13])
        p = convert(R, est, "C12:kinds")
        if p is None:
            return
        mk = KINDS[kind]
        for rows in ([some[:n] for n in (1, 2, 24)] if holder != "alone" else [[d] for d in some]):
            X = mk(rows[0]) if holder == "alone" else HOLDERS[holder]([mk(d) for d in rows])
            Y = mk(rows[0]) if holder == "alone" else HOLDERS[holder]([mk(d) for d in rows])
            ref, got = native(est, "transform", X), call(R, p, "transform", Y)
            R.state(kind, holder, sparse, sort, rows)
            if isinstance(ref, Raised):
                R.validated()
                continue
            if sparse:
                compare_rows(R, "C12:kinds", ref, got, rows, what="%s of %s" % (holder, kind))
            else:
                compare(R, "C12:kinds", ref, got, rows, what="%s of %s" % (holder, kind))

    return scenario


def scenarios(tier):
    return [("large", large([1, 5, 10, 100, 1000, 5000] + ([20000] if tier == "thorough" else []))), ("vectorizer", vect(3 if tier == "thorough" else 2)), ("keys", keys()), ("kinds", kinds()), ("lookalikes", lookalikes())]
