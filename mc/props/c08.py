"""C08: OneHotEncoder and OrdinalEncoder."""

import itertools

import numpy as np
from pure_sklearn.utils import issparse
from sklearn.preprocessing import OneHotEncoder, OrdinalEncoder

from ..cmp import Raised, attempt, compare, dense
from ..dom import call, convert, native, quiet_fit

BOUNDS = {
    "quick": "every combination of 1-3 columns from a pool of 7 category lists (strings, ints, floats, unsorted explicit order, 1-4 categories), "
             "every row over known and two unknown values (both in one batch and every ordered pair of rows), lookalike categories in every order, batches of up to 1030 rows, output types float/int/bool, "
             "sparse and dense, handle_unknown error/ignore, explicit and inferred categories",
    "thorough": "additionally 4 columns and every ordered triple of rows for 2 columns",
}
ASSUMPTIONS = ["categories are strings, integers, floats or booleans (no NaN, which the native encoders refuse)"]

POOL = [
    ["a"], ["a", "b"], ["b", "a", ""], [3], [-1, 2], [0.5, 2.0, 7.0], ["w", "x", "y", "z"],
]
UNK = {str: ["unknown", "A"], int: [99, -5], float: [99.5, -0.25]}
DT = [np.float64, np.float32, np.int64, bool]


def arr(rows, mixed):
    return np.array(rows, dtype=object)


def homog(cols):
    ks = {type(c[0]) for c in cols}
    if ks == {str}:
        return object
    if str not in ks:
        return float
    return object


def check_pair(R, est, p, rows, key, **det):
    dt = det.pop("dt")
    Xn = np.array(rows, dtype=dt)
    ref = native(est, "transform", Xn)
    got = call(R, p, "transform", [list(r) for r in rows])
    if isinstance(ref, Raised):
        R.check(isinstance(got, Raised), key + ":unknown-accepted",
                "an unknown category is answered although the encoder was told to refuse it", rows=rows, got=got, **det)
        return
    if not compare(R, key, ref, got, rows, what="transform", **det):
        return
    sparse = getattr(est, "sparse", False)
    R.check(issparse(got) == bool(sparse), key + ":container", "sparse=%r but result is %s" % (sparse, type(got)), **det)
    v = ref.toarray() if hasattr(ref, "toarray") else ref
    want = type(v[0, 0].item())
    flat = [x for r in got for x in (r.values() if isinstance(r, dict) else r)]
    R.check(all(type(x) is want for x in flat), key + ":dtype",
            "entries of %s expected, got %s" % (want, {type(x) for x in flat}), rows=rows, **det)


def encoder(ncols, batch):
    def scenario(ch, R):
        which = ch.choose("estimator", ["onehot", "ordinal"])
        cols = [ch.choose("col%d" % i, POOL) for i in range(ncols)]
        explicit = ch.flag("explicit categories")
        dt = homog(cols)
        if dt is float:
            cats = [[float(v) for v in c] for c in cols]
        else:
            cats = [list(c) for c in cols]
        if not explicit:
            cats = [sorted(c) for c in cats]
        elif any(c != sorted(c) for c in cats) and dt is float:
            R.validated()
            return
        n = max(map(len, cats))
        fitX = np.array([[c[i % len(c)] for c in cats] for i in range(n)][::-1], dtype=dt)
        i = 0
        for handle, sp_, dtype in ([("error", True, 0), ("ignore", True, 1), ("ignore", False, 2), ("ignore", False, 3), ("error", False, 0), ("ignore", True, 3)]
                                  if which == "onehot" else [("error", None, 0), ("error", None, 2), ("error", None, 1)]):
            kw = {"categories": cats} if explicit else {}
            if which == "onehot":
                est = OneHotEncoder(handle_unknown=handle, sparse=sp_, dtype=DT[dtype], **kw)
            else:
                est = OrdinalEncoder(dtype=DT[dtype], **kw)
            est.fit(fitX)
            p = convert(R, est, "C08:" + which)
            if p is None:
                return
            known = [list(r) for r in itertools.product(*cats)]
            every = [list(r) for r in itertools.product(*[c + [type(c[0])(u) for u in UNK[type(c[0])]][: 2 if ncols < 3 else 1] for c in cats])]
            unk = [r for r in every if r not in known]
            det = dict(categories=cats, handle=handle, sparse=sp_, dtype=DT[dtype].__name__, dt=dt)
            R.state(which, cats, handle, sp_, dtype, explicit)
            key = "C08:" + which
            check_pair(R, est, p, known, key, **det)
            check_pair(R, est, p, known[::-1], key, **det)
            if handle == "ignore":
                check_pair(R, est, p, every, key, **det)
            for r in (every if len(every) <= 60 else known[:8] + unk[:24] + unk[-8:]):
                check_pair(R, est, p, [r], key, **det)
            if ncols <= batch and dtype in (0, 2):
                few = (known[:3] + unk[:4] + unk[-2:])
                for a in few:
                    for b in few:
                        check_pair(R, est, p, [a, b], key, **det)
                        if ncols == 2 and batch > 2:
                            for c in few:
                                check_pair(R, est, p, [a, b, c], key, **det)

    return scenario


def numeric_kinds():
    """equal numbers of another kind are the same category"""
    def scenario(ch, R):
        which = ch.choose("estimator", ["onehot", "onehot-dense", "ordinal"])
        kind = ch.choose("kind", [[0, 1], [1.0, 2.0], [False, True], [-3, 0, 10 ** 9]])
        e = {"onehot": lambda: OneHotEncoder(handle_unknown="ignore"), "onehot-dense": lambda: OneHotEncoder(sparse=False),
             "ordinal": OrdinalEncoder}[which]()
        e.fit(np.array([[k] for k in kind]))
        p = convert(R, e, "C08:kinds")
        if p is None:
            return
        for v in kind:
            for cast in (int, float):
                R.state(which, kind, v, cast)
                check_pair(R, e, p, [[cast(v)]], "C08:kinds", categories=kind, dt=None)

    return scenario


def many(ncols, ncats):
    """many columns, many categories"""

    def scenario(ch, R):
        kind = ch.choose("kind", ["str", "digits", "int", "float", "big"])
        n, k = ch.choose("columns", ncols), ch.choose("categories", ncats)
        which = ch.choose("estimator", ["onehot", "onehot-dense", "ordinal"])
        first = ch.choose("unsorted", [False, True])
        if n * k > 5000 or (first and kind not in ("str", "digits")):
            R.validated()
            return
        val = {"str": lambda i: "c%s\u00e9" % chr(97 + i % 26) + "x" * (i // 26), "digits": lambda i: str(i), "int": lambda i: i * 3 - 7,
               "float": lambda i: (i - 2) * 0.1, "big": lambda i: 2.0 ** (i * 3 - 50) if i < 300 else float(i)}[kind]
        dt = object if kind in ("str", "digits") else float
        cats = []
        for c in range(n):
            m = 1 + (k - 1 + c) % k if c else k  # columns of every length
            l = [val((i * (c % 3 + 1) + c) % (3 * k + c)) for i in range(m)]
            l = list(dict.fromkeys(l))
            cats.append(l if first else sorted(l))
        e = {"onehot": lambda: OneHotEncoder(handle_unknown="ignore", categories=cats), "onehot-dense": lambda: OneHotEncoder(sparse=False, categories=cats),
             "ordinal": lambda: OrdinalEncoder(categories=cats)}[which]()
        fitX = np.array([[c[i % len(c)] for c in cats] for i in range(2)], dtype=dt)
        e.fit(fitX)
        p = convert(R, e, "C08:many")
        if p is None:
            return
        unk = "unknown" if dt is object else 0.5 + 1e-3
        R.state(kind, n, k, which, first)
        rows = [[c[(i * s + j) % len(c)] for j, c in enumerate(cats)] for s in (1, 3) for i in sorted({0, 1, 2, k // 2, k - 2, k - 1, k} | set(range(0, k, max(1, k // 20))))]
        det = dict(kind=kind, columns=n, categories=k, dt=dt)
        check_pair(R, e, p, rows, "C08:many:" + which, **det)
        for q in sorted({0, 1, n // 2, n - 1} & set(range(n))):
            r = list(rows[q % len(rows)])
            r[q] = unk
            check_pair(R, e, p, [r], "C08:many:" + which, **det)
            check_pair(R, e, p, [rows[0], r, rows[-1]], "C08:many:" + which, **det)
        if which == "onehot":
            check_pair(R, e, p, [rows[0], [unk] * n, rows[1]], "C08:many:" + which, **det)

    return scenario


STRANGE = [1, 0, -1, 3, 2, True, 1.5, 3.0, 2.0, 0.5, "a", "1", "3", "0.5", "2.0", "3.0", "True", "None", "nan", "", " a", "a ", "A", "\u00e1", "a\u0301", "aa", None, (1,), b"a", "b'a'"]


def strangers(ncols):
    """values of any kind that are not categories, however similar they look"""

    def scenario(ch, R):
        cols = [ch.choose("col%d" % i, POOL + [["1", "3", "None", "True"], ["\u00e1", "b"], ["a\u0301"], ["0.5", "2.0"]]) for i in range(ncols)]
        handle = ch.choose("unknown", ["ignore", "error", "ordinal"])
        cats = [sorted(c) for c in cols]
        n = max(map(len, cats))
        est = OrdinalEncoder() if handle == "ordinal" else OneHotEncoder(handle_unknown=handle, sparse=False)
        est.fit(np.array([[c[i % len(c)] for c in cats] for i in range(n)], dtype=object))
        p = convert(R, est, "C08:strangers")
        if p is None:
            return
        base = [c[0] for c in cats]
        R.state(cats, handle)
        for q in range(ncols):
            for v in STRANGE:
                r = list(base)
                r[q] = v
                for rows in ([r], [base, r], [r, base]):
                    Xn = np.empty((len(rows), ncols), dtype=object)
                    for a, row in enumerate(rows):
                        for b, x in enumerate(row):
                            Xn[a, b] = x
                    ref = native(est, "transform", Xn)
                    if isinstance(ref, Raised) and "unknown" not in str(ref.e):
                        R.count("not_answered_natively")
                        R.validated()
                        continue
                    got = call(R, p, "transform", [list(x) for x in rows])
                    if isinstance(ref, Raised):
                        R.check(isinstance(got, Raised), "C08:strangers:accepted", "%r is not a category of %s, yet it is answered" % (v, cats[q]), rows=rows, got=got)
                    else:
                        compare(R, "C08:strangers", ref, got, rows, what="transform", categories=cats)

    return scenario


TWINS = [["nan", "None", "True", "1"], [" a", "a", "a ", "A"], ["\u00e1", "a\u0301", "a", "\u00c1"], ["", " ", "\n", "\x00"], ["1", "1.0", "01", "10"], ["ss", "\u00df", "SS", "s"], ["a" * 99 + "b", "a" * 99 + "c", "a" * 99, "a" * 100],
         ["a=b", "a", "b", "a=b=c"], ["y1", "y10", "y2", "y01"]]


def twins(ncols):
    """categories that are easily taken for one another, in every order, one of them left out"""

    def scenario(ch, R):
        cols = [ch.choose("col%d" % i, TWINS) for i in range(ncols)]
        which = ch.choose("estimator", ["onehot", "onehot-dense", "ordinal"])
        for perm in itertools.permutations(range(4), 3):
            cats = [[c[(i + q) % 4] for i in perm] for q, c in enumerate(cols)]
            e = OrdinalEncoder(categories=cats) if which == "ordinal" else OneHotEncoder(handle_unknown="ignore", sparse=which == "onehot", categories=cats)
            e.fit(np.array([[c[i] for c in cats] for i in range(3)], dtype=object))
            p = convert(R, e, "C08:twins")
            if p is None:
                return
            R.state(cats, which)
            rows = [list(r) for r in itertools.product(*(cols if which != "ordinal" else cats))]
            check_pair(R, e, p, rows, "C08:twins", dt=object, categories=cats)
            for r in ([c[i] for c in cols] for i in range(4)):
                check_pair(R, e, p, [r], "C08:twins", dt=object, categories=cats)

    return scenario


def batches(sizes):
    """long batches with one unknown category somewhere"""

    def scenario(ch, R):
        n = ch.choose("rows", sizes)
        nc = ch.choose("columns", [1, 3])
        handle = ch.choose("unknown", ["ignore", "ignore dense", "error", "ordinal"])
        cats = [["a", "b", "c"][: 3 - i] for i in range(nc)]
        e = OrdinalEncoder() if handle == "ordinal" else OneHotEncoder(handle_unknown=handle.split()[0], sparse=handle != "ignore dense")
        e.fit(np.array([[c[i % len(c)] for c in cats] for i in range(3)], dtype=object))
        p = convert(R, e, "C08:batches")
        if p is None:
            return
        base = [[c[(i * 7 + j) % len(c)] for j, c in enumerate(cats)] for i in range(n)]
        R.state(n, nc, handle)
        check_pair(R, e, p, base, "C08:batches", dt=object)
        for at in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
            rows = [list(r) for r in base]
            rows[at][at % nc] = "zz"
            check_pair(R, e, p, rows, "C08:batches", dt=object)

    return scenario


def scenarios(tier):
    t = tier == "thorough"
    b = 3 if t else 2
    return [("1 column", encoder(1, b)), ("2 columns", encoder(2, b)), ("3 columns", encoder(3, b)), ("number kinds", numeric_kinds()), ("twins", twins(1)), ("two twins", twins(2)), ("batches", batches([1, 2, 65, 101, 257, 513, 1030] + ([5001] if t else []))), ("strangers", strangers(1)), ("two strangers", strangers(2)),
            ("many", many([1, 2, 11, 60, 300, 1030] + ([3000] if t else []), [1, 2, 10, 101, 300]))] + (
        [("4 columns", encoder(4, 1))] if t else [])
