"""C25: a batch is answered row by row."""

import copy
import itertools
import warnings

from pure_sklearn.utils import sparse_list

from .. import sweep
from ..cmp import Raised, attempt, is_sparse_list, same
from ..dom import enc_sparse_dict, enc_sparse_explicit
from ..zoo import zoo
from .c20 import clone_of

BOUNDS = {
    "quick": "76 models x every method: every batch (sequence with repetition, every order, rows as separate or as the same object) of 1-3 rows out of a pool of 5-10, dense and in two sparse "
             "encodings; the whole pool, reversed and rotated; batches of 11 to 4097 rows; each answer against the answers to its rows alone; the workloads of C01-C14, C16 and C17 (every sequence of choices with at most one off the first option): every batch against its rows alone, itself backwards, and itself without its first row",
    "thorough": "batches of 1-5 rows; workloads with at most two choices off the first option",
}
ASSUMPTIONS = ["answers are compared to 1e-12 relative"]
MORE = {
    "matrix": [[-3.0, 0.0, 0.0], [5.0, 5.0, 5.0], [0.0, 0.0, 0.25], [0.0, 2.0, 0.0], [2.0, 0.0, 0.0], [0.0, 0.0, 2.0]],
    "missing": [[float("nan"), float("nan"), float("nan")], [0.0, 0.0, 0.0]],
    "text": ["fish dog red old blue", "\u00e9t\u00e9"],
    "dict": [{"c": 1.5}, {"b": "y"}],
}


def pool(m):
    rows = list(m.X)
    if m.kind in MORE and "str" not in m.name and "NB" not in m.name.replace("GaussianNB", ""):
        rows += [r for r in MORE[m.kind] if not (m.kind == "matrix" and min(r) < 0 and "Multinomial" in m.name)]
    return rows


def rows_of(r):
    """the answer's rows as comparable values"""
    if is_sparse_list(r):
        return [("sparse", r.size, sorted((k, v) for k, v in d.items() if v != 0)) for d in r]
    return list(r)


def alike(a, b):
    if isinstance(a, tuple) and a and a[0] == "sparse":
        return isinstance(b, tuple) and a[1] == b[1] and len(a[2]) == len(b[2]) and all(x[0] == y[0] and same(x[1], y[1], 1e-12, 1e-300) for x, y in zip(a[2], b[2]))
    return type(a) is type(b) and same(a, b, 1e-12, 1e-300)


_C = {}


def setup(Z, i):
    if i not in _C:
        warnings.simplefilter("ignore")
        m = Z[i]
        p = m.make()
        P = pool(m)
        encs = [("dense", lambda rows, w: [copy.deepcopy(r) for r in rows])]
        if m.sparse:
            encs += [("sparse", lambda rows, w: enc_sparse_dict(rows)), ("explicit zeros", lambda rows, w: enc_sparse_explicit(rows))]
        solo = {}
        for meth in m.methods:
            for en, enc in encs:
                rs = [attempt(getattr(p, meth), enc([r], m.width)) for r in P]
                solo[meth, en] = [r if isinstance(r, Raised) else rows_of(r)[0] if len(rows_of(r)) == 1 else Raised(ValueError("%d rows" % len(r))) for r in rs]
        _C[i] = (m, p, P, encs, solo)
    return _C[i]


def batches(Z, n):
    def scenario(ch, R):
        warnings.simplefilter("ignore")
        i = ch.choose("model", range(len(Z)))
        m, p, P, encs, solo = setup(Z, i)
        meth = ch.choose("method", m.methods)
        en, enc = ch.choose("encoding", encs)
        want = solo[meth, en]
        good = [j for j in range(len(P)) if not isinstance(want[j], Raised)]
        key = "C25:%s:%s" % (m.name, meth)
        R.check(len(good) >= 2 and len(m.X) == len([j for j in good if j < len(m.X)]), key + ":rows", "single rows are refused: %r" % (want,))
        seqs = [s for k in range(1, n + 1) for s in itertools.product(good, repeat=k)]
        seqs += [tuple(good), tuple(good[::-1])] + [tuple(good[k:] + good[:k]) for k in range(1, len(good))] + [tuple(good * 2), tuple(good * 9), tuple(good[q * q % len(good)] for q in range(70))]
        for s in seqs:
            for shared in (False, True) if len(set(s)) < len(s) else (False,):
                A = enc([P[j] for j in s], m.width)
                if shared:
                    first = {}
                    for q, j in enumerate(s):
                        A[q] = A[first.setdefault(j, q)]
                got = attempt(getattr(p, meth), A)
                R.trans()
                R.state(i, meth, en, s, shared)
                R.validated()
                if isinstance(got, Raised):
                    R.fail(key, "the batch of rows %s is refused: %r" % (s, got), rows=[P[j] for j in s], encoding=en)
                    return
                got = rows_of(got)
                if len(got) != len(s):
                    R.fail(key, "the batch of rows %s has %d answers" % (s, len(got)), rows=[P[j] for j in s], encoding=en)
                    return
                for q, j in enumerate(s):
                    if not alike(want[j], got[q]):
                        R.fail(key, "row %d of the batch %s is answered %r, alone it is answered %r" % (q, s, got[q], want[j]), rows=[P[j] for j in s], encoding=en, shared=shared)
                        return
        R.outcome(str(want))

    return scenario


LONG = [11, 16, 32, 50, 64, 100, 128, 200, 256, 257, 500, 512, 1000, 1001, 1024, 4097]


def long(Z, lengths):
    """many rows at once"""

    def scenario(ch, R):
        warnings.simplefilter("ignore")
        i = ch.choose("model", range(len(Z)))
        m, p, P, encs, solo = setup(Z, i)
        meth = ch.choose("method", m.methods)
        en, enc = ch.choose("encoding", encs)
        want = solo[meth, en]
        good = [j for j in range(len(P)) if not isinstance(want[j], Raised)]
        for n in lengths:
            s = [good[(q * q + q // 7 + n) % len(good)] for q in range(n)]
            got = attempt(getattr(p, meth), enc([P[j] for j in s], m.width))
            R.trans()
            R.state(i, meth, en, n)
            key = "C25:%s:%s:long" % (m.name, meth)
            if not R.check(not isinstance(got, Raised) and len(got) == n, key, "a batch of %d rows is answered %s" % (n, got if isinstance(got, Raised) else "with %d rows" % len(got)), encoding=en):
                return
            for q, (j, g) in enumerate(zip(s, rows_of(got))):
                if not alike(want[j], g):
                    R.fail(key, "row %d of a batch of %d is answered %r, alone it is answered %r" % (q, n, g, want[j]), encoding=en)
                    return

    return scenario


def lines(Z, n):
    def scenario(ch, R):
        m = ch.choose("model", [z for z in Z if z.family == "fasttext" and "predict" in z.methods])
        k, th = ch.choose("k", [1, 2, 3, -1]), ch.choose("threshold", [0.0, 0.3, 0.6])
        p = m.make()
        P = ["a b", "", "zz a\u00a0 bb a", "b", "bb bb", "__label__p"]
        want = [attempt(p.predict, t, k=k, threshold=th) for t in P]
        key = "C25:fasttext"
        for s in [s for q in range(1, n + 1) for s in itertools.product(range(len(P)), repeat=q)] + [[(q * q + q // 7 + l) % len(P) for q in range(l)] for l in LONG]:
            got = attempt(p.predict, [P[j] for j in s], k=k, threshold=th)
            R.trans()
            R.state("ft", k, th, s)
            if not R.check(not isinstance(got, Raised) and len(got) == 2 and len(got[0]) == len(got[1]) == len(s), key, "the list of lines %s answers %r" % (s, got)):
                return
            for q, j in enumerate(s):
                if not R.check(same(list(want[j][0]), list(got[0][q])) and same([float(v) for v in want[j][1]], [float(v) for v in got[1][q]], 1e-12), key,
                               "line %d of %s is answered %r, alone %r" % (q, [P[x] for x in s], (got[0][q], got[1][q]), want[j])):
                    return

    return scenario


def own(tier):
    Z = zoo()
    n = 5 if tier == "thorough" else 3
    return [("batches", batches([z for z in Z if z.family != "fasttext"], n)),
            ("long batches", long([z for z in Z if z.family != "fasttext"], LONG + ([9999, 65537] if tier == "thorough" else []))), ("lines", lines(Z, n))]


def scenarios(tier):
    d = 2 if tier == "thorough" else 1
    return own(tier) + [("workloads", sweep.sweep(sweep.Rows, d))]
