"""C27: pickling and copying keep behaviour and state."""

import copy
import itertools
import pickle
import warnings

from pure_sklearn.base import apply_2d_sparse, slice_column
from pure_sklearn.utils import shape, sparse_list

from .. import sweep
from ..cmp import Raised, attempt
from ..parts import edits
from ..sched import call
from ..state import canon, vandalise
from ..zoo import requests, zoo

BOUNDS = {
    "quick": "76 models and every sparse matrix of up to 2 rows over 3 columns (missing, zero, int, float, string-typed entries; width known and unknown): every sequence of 2 operations out of pickling with protocols 0-5, "
             "copy, deep copy and use, every sequence of 3 (use, protocol 0, 2, 5, copy, deep copy); behaviour on every request and the whole state compared after each step, the originals re-examined at the end; deep copies and unpickled objects edited part by part; the workloads of C01-C14, C16 and C17 (every sequence of choices with at most one off the first option): every model of the sweep under pickle protocols 0-5, copy and deep copy, asked up to 8 of its calls, and all of them in a bare interpreter",
    "thorough": "every sequence of 3 operations, and of 4 out of the reduced set; workloads with at most two choices off the first option",
}
ASSUMPTIONS = ["copies are compared within one Python version"]


def pk(protocol):
    return lambda o: pickle.loads(pickle.dumps(o, protocol))


OPS = {"pickle %d" % k: pk(k) for k in range(pickle.HIGHEST_PROTOCOL + 1)}
OPS["copy"] = copy.copy
OPS["deepcopy"] = copy.deepcopy
FEW = ["use", "pickle 0", "pickle 2", "pickle 5", "copy", "deepcopy"]


def answers(m, p):
    return tuple((label, canon(call(lambda: getattr(p, meth)(mk())))) for label, meth, mk in requests(m))


_W = {}


def wanted(Z, i):
    if i not in _W:
        m = Z[i]
        p = m.make()
        _W[i] = (canon(p), answers(m, p), canon(p))
    return _W[i]


def explore(R, o, ops, depth, judge, hist=()):
    """all sequences of operations from o, as a tree (each object is made once)"""
    for op in ops:
        h = hist + (op,)
        R.trans()
        R.state(judge.key, h)
        if op == "use":
            if not judge(o, h):
                return False
            q = o
        else:
            q = attempt(OPS[op], o)
            if not R.check(not isinstance(q, Raised), judge.key, "%s raises %r" % (op, q), history=h):
                return False
            if not judge(q, h):
                return False
        if depth > 1 and not explore(R, q, ops, depth - 1, judge, h):
            return False
    return True


class ModelJudge:
    def __init__(self, R, m, want):
        self.R, self.m, self.want, self.key = R, m, want, "C27:%s" % m.name

    def __call__(self, q, h):
        m = self.m
        if h[-1] == "use":
            return self.R.check(answers(m, q) == self.want[1], self.key, "answers differ", history=h)
        used = "use" in h
        # state before first use or after it
        c = canon(q)
        if not self.R.check(c == self.want[2] or (not used and c == self.want[0]), self.key, "the state differs", history=h):
            return False
        return self.R.check(type(q).__module__.startswith("pure_"), self.key, "another type", history=h) and self.R.check(
            len(h) > 2 or answers(m, copy.deepcopy(q)) == self.want[1], self.key, "answers differ", history=h)


def models(Z, depth, few_depth):
    def scenario(ch, R):
        warnings.simplefilter("ignore")
        i = ch.choose("model", range(len(Z)))
        plan = ch.choose("operations", ["all", "few"])
        first = ch.choose("first", ["use"] + list(OPS) if plan == "all" else FEW)
        m = Z[i]
        want = wanted(Z, i)
        judge = ModelJudge(R, m, want)
        p = m.make()
        ops, d = (["use"] + list(OPS), depth) if plan == "all" else (FEW, few_depth)
        R.state(m.name, plan)

        def go(o, h, ops_, d_):
            return explore(R, o, ops_, d_, judge, h)

        R.trans()
        if first == "use":
            q = p
        else:
            q = attempt(OPS[first], p)
            if not R.check(not isinstance(q, Raised), judge.key, "%s raises %r" % (first, q)):
                return
        if judge(q, (first,)):
            go(q, (first,), ops, d - 1)
        R.check(answers(m, p) == want[1] and canon(p) == want[2], judge.key, "the original changed", first=first)

    return scenario


def edited(Z):
    """a deep copy or an unpickled model shares nothing with the original"""

    def scenario(ch, R):
        warnings.simplefilter("ignore")
        i = ch.choose("model", range(len(Z)))
        op = ch.choose("operation", ["pickle 0", "pickle 2", "pickle 5", "deepcopy"])
        m = Z[i]
        want = wanted(Z, i)
        p = m.make()
        answers(m, p)
        n = len(edits(OPS[op](p)))
        for j in range(n + 1):
            q = OPS[op](p)
            es = edits(q)
            for e in es if j == n else [es[j]]:
                e[1]()
            R.trans()
            R.state(m.name, op, j)
            if not R.check(canon(p) == want[2], "C27:%s" % m.name, "editing a copy changed the original", op=op):
                return
        R.check(answers(m, p) == want[1], "C27:%s" % m.name, "editing a copy changed the original's answers", op=op)

    return scenario


VALUES = [None, 0, 1, -2.5, "s"]


def view(o):
    """what a sparse matrix is and what it answers"""
    return (canon(o), type(o) is sparse_list, attempt_repr(lambda: o.todense()), attempt_repr(lambda: shape(o)), attempt_repr(lambda: slice_column(o, 0)),
            attempt_repr(lambda: [canon(r) for r in slice_column(o, [1, 0])]), attempt_repr(lambda: canon(apply_2d_sparse(o, lambda v: v * 2))), len(o), o == list(o))


def attempt_repr(f):
    r = attempt(f)
    return "raised" if isinstance(r, Raised) else canon(r)


def matrices(depth, few_depth):
    rows = [r for r in itertools.product(VALUES[:4], repeat=3)]

    def scenario(ch, R):
        kind = ch.choose("kind", ["rows", "dense", "unknown width", "strings", "attributes"])
        n = ch.choose("rows", [1, 2])
        ops = ch.choose("operations", ["all", "few"])
        if n == 2:
            lead = ch.choose("first row", rows[::7])
        rr = [(r,) for r in rows] if n == 1 else [(lead, r) for r in rows[::3]]
        for combo in rr:
            d = [{j: v for j, v in enumerate(r) if v is not None} for r in combo]
            if kind == "rows":
                mk = lambda: sparse_list([dict(x) for x in d], size=3, dtype=float)
            elif kind == "dense":
                mk = lambda: sparse_list([[0 if v is None else v for v in r] for r in combo])
            elif kind == "unknown width":
                mk = lambda: sparse_list([dict(x) for x in d])
            elif kind == "strings":
                mk = lambda: sparse_list([{k: str(v) for k, v in x.items()} for x in d], size=4, dtype=str)
            else:
                def mk():
                    a = sparse_list([dict(x) for x in d], size=3, dtype=int)
                    a.note = [1, {"k": (2,)}]
                    return a
            o = mk()
            want = view(o)

            def judge(q, h):
                return R.check(view(q) == want, judge.key, "a sparse matrix changed", history=h, got=repr(q)[:100], kind=kind, rows=repr(combo))

            judge.key = "C27:sparse_list:%s" % kind
            R.state(kind, combo)
            if not explore(R, o, ["use"] + list(OPS) if ops == "all" else FEW, depth if ops == "all" else few_depth, judge):
                return
            for op in ("pickle 0", "pickle 1", "pickle 5", "deepcopy"):
                q = OPS[op](o)
                vandalise(q)
                R.trans()
                R.check(view(o) == want, judge.key, "editing a copy changed the original", op=op)
            q = copy.copy(o)
            q.size, q.dtype = 9, bool
            list.append(q, {0: 5})
            R.check(view(o) == want, judge.key, "editing a copy's own attributes changed the original")

    return scenario


def own(tier):
    Z = zoo()
    a, b = (3, 4) if tier == "thorough" else (2, 3)
    return [("models", models(Z, a, b)), ("edited", edited(Z)), ("sparse matrices", matrices(a, b))]


def scenarios(tier):
    d = 2 if tier == "thorough" else 1
    return own(tier) + [("workloads", sweep.sweep(sweep.Copies, d, skip=sweep.ON_DISK))]
