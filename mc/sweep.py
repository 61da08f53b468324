"""The workloads of the other properties, under a cross-cutting observer.

A workload is a scenario of another property (its models, its inputs).  Here it
is explored exhaustively over every sequence of choices with at most `d` choices
other than the first option, and what is judged is not its own property but what
an observer sees at the boundary of the library: the observer is handed every
outermost public call made on a converted model, and may repeat it, interrupt
it, interleave it or put it to a copy of the model.
"""

import copy
import functools
import importlib
import os
import pickle
import pkgutil
import struct
import subprocess
import sys

from .bareserver import outcome
from .cmp import is_sparse_list
from .engine import REPO, VERIF, Skip
from .sched import Cut, count_steps, interrupted, run_plan
from .state import canon, vandalise

SOURCES = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c16", "c17"]
PUBLIC = ["predict", "predict_proba", "predict_log_proba", "decision_function", "transform", "get_sentence_vector", "get_word_vector", "get_word_id", "get_input_vector"]
ON_DISK = ["C10 encodings"]  # requests that name files of the workload
OURS = ("pure_sklearn", "pure_fasttext")
_HANDLER = [None]


class _Watch:
    """stands in for a public method, whatever kind of attribute that is"""

    def __init__(self, name, orig):
        self.name, self.orig = name, orig

    def __get__(self, obj, type=None):
        get = getattr(self.orig, "__get__", None)
        inner = get(obj, type) if get else self.orig
        if obj is None or _HANDLER[0] is None:
            return inner

        def method(*a, **k):
            h = _HANDLER[0]
            if h is None:
                return inner(*a, **k)
            _HANDLER[0] = None
            try:
                return h(obj, self.name, a, k)
            finally:
                _HANDLER[0] = h

        return method


@functools.lru_cache(None)
def _load():
    """import every module of the packages: some are imported on first use only"""
    for name in OURS:
        pkg = importlib.import_module(name)
        for m in pkgutil.walk_packages(pkg.__path__, name + "."):
            if ".tests" not in m.name:
                try:
                    importlib.import_module(m.name)
                except ImportError:
                    pass


def _install(obs):
    _load()
    done = []
    if hasattr(obs, "convert"):
        from pure_sklearn import map as m0

        for mod in [m for n, m in list(sys.modules.items()) if n.startswith("mc.")]:
            for n, orig in list(vars(mod).items()):
                if orig is m0.convert_estimator or orig is getattr(sys.modules.get("pure_fasttext"), "FastText", None):
                    setattr(mod, n, lambda *a, orig=orig, **k: obs.convert(orig, *a, **k))
                    done.append((mod, n, orig))
    for mod in [m for n, m in list(sys.modules.items()) if n.split(".")[0] in OURS]:
        for cls in list(vars(mod).values()):
            if isinstance(cls, type) and cls.__module__.split(".")[0] in OURS:
                for n in PUBLIC:
                    a = cls.__dict__.get(n)
                    if a is not None and not isinstance(a, (_Watch, staticmethod, classmethod)):
                        setattr(cls, n, _Watch(n, a))
                        done.append((cls, n, a))
    return done


class _Few:
    """a chooser that strays from the first options at most d times"""

    def __init__(self, ch, d):
        self.ch, self.left = ch, d

    def choose(self, label, options):
        options = options if isinstance(options, (list, tuple, range)) else list(options)
        if self.left <= 0 or len(options) == 1:
            return options[0]
        i = self.ch.choose(label, range(len(options)))
        self.left -= i != 0
        return options[i]

    def flag(self, label):
        return self.choose(label, [False, True])

    def __getattr__(self, name):
        return getattr(self.ch, name)


class _Deaf:
    """takes what a workload has to say about its own property, and forgets it"""

    violations, errors = (), ()

    def check(self, cond, *a, **k):
        return cond

    def __getattr__(self, name):
        return lambda *a, **k: None


def workloads(only=None):
    out = []
    for s in SOURCES if only is None else only:
        m = importlib.import_module("mc.props." + s)
        for name, fn in m.scenarios("quick"):
            out.append(("%s %s" % (s.upper(), name), fn))
    return out


def sweep(observer, d, only=None, skip=()):
    """scenario: every workload with at most d deviations, watched by observer(R, workload name)"""
    W = {n: f for n, f in workloads(only) if n not in skip}

    def scenario(ch, R):
        name = ch.choose("workload", list(W))
        obs = observer(R, name)
        done = _install(obs)
        _HANDLER[0] = obs.call
        try:
            W[name](_Few(ch, d), _Deaf())
        except Skip:
            pass
        finally:
            _HANDLER[0] = None
            for cls, n, a in done:
                setattr(cls, n, a)
        R.state(name, tuple(ch.choices), len(obs.objs))
        obs.end()

    return scenario


# ------------------------------------------------------------------- observers
THIRD = ("numpy", "scipy", "sklearn", "pandas", "xgboost", "fasttext", "fasttext_pybind", "joblib")


def simple(o, _d=0):
    """made of builtin values and sparse matrices only"""
    t = type(o)
    if t in (int, float, str, bool, type(None), bytes):
        return True
    if _d > 20:
        return False
    if t in (list, tuple):
        return all(simple(v, _d + 1) for v in o)
    if t is dict:
        return all(simple(k, _d + 1) and simple(v, _d + 1) for k, v in o.items())
    if is_sparse_list(o):
        return all(simple(v, _d + 1) for v in list.__iter__(o)) and isinstance(vars(o).get("dtype"), type) and vars(o)["dtype"].__module__ == "builtins"
    return False


class Observer:
    prop = "C00"

    def __init__(self, R, name):
        self.R, self.name, self.key = R, name, "%s:sweep:%s" % (self.prop, name)
        self.objs = {}

    def of(self, obj):
        """what is remembered of a model (which is kept alive)"""
        e = self.objs.get(id(obj))
        if e is None:
            e = self.objs[id(obj)] = {"obj": obj, "calls": [], "n": len(self.objs)}
        return e

    def call(self, obj, meth, a, k):
        return getattr(obj, meth)(*a, **k)

    def end(self):
        pass


_SERVER = {}


def bare(jobs):
    s = _SERVER.get(os.getpid())
    if s is None or s.poll() is not None:
        s = _SERVER[os.getpid()] = subprocess.Popen([os.path.realpath(sys.executable), "-I", "-S", "-B", os.path.join(VERIF, "mc", "bareserver.py"), REPO],
                                                    stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd="/")
    b = pickle.dumps(jobs, 4)
    s.stdin.write(struct.pack("<q", len(b)) + b)
    s.stdin.flush()
    h = s.stdout.read(8)
    if len(h) < 8:
        raise RuntimeError("the bare interpreter died")
    return pickle.loads(s.stdout.read(struct.unpack("<q", h)[0]))


class Remote(Observer):
    """every model pickled, every answer asked for again in a bare interpreter"""

    prop, limit = "C18", 60

    def __init__(self, R, name):
        super().__init__(R, name)
        self.n = 0

    def call(self, obj, meth, a, k):
        e = self.of(obj)
        ok = simple(a) and simple(k)
        if ok and len(e["calls"]) < self.limit:
            blob = pickle.dumps((a, k), 4)
            r = call(lambda: getattr(obj, meth)(*a, **k))
            e["calls"].append((meth, blob, outcome(lambda: unpack(r))))
            if r[0] == "ok":
                self.R.check(simple(r[1]), self.key + ":foreign", "%s.%s answers with an object that is not a plain python one: %.200r" % (type(obj).__name__, meth, r[1]))
            return unpack(r)
        return getattr(obj, meth)(*a, **k)

    def end(self):
        R, jobs, about = self.R, [], []
        for e in self.objs.values():
            if not e["calls"]:
                continue
            try:
                b = pickle.dumps(e["obj"], (4, 2, 5, 0, 3, 1)[(e["n"] + len(e["calls"])) % 6])
            except Exception:
                R.count("unpicklable")  # holds a function of the user
                continue
            if b"cmc." in b or b"\x8c\x05mc." in b or b"mc.props" in b or b"mc.text" in b:
                R.count("user functions")
                continue
            jobs.append((b, [c[:2] for c in e["calls"]]))
            about.append(e)
        if not jobs:
            return
        res, mods = bare(jobs)
        R.trans(sum(len(j[1]) for j in jobs))
        R.check(not mods, self.key + ":modules", "a model imported %s" % mods[:5])
        for e, (status, r) in zip(about, res):
            what = type(e["obj"]).__name__
            if not R.check(status == "ok", self.key + ":load", "%s does not load in a bare interpreter: %s" % (what, r)):
                continue
            for (meth, blob, want), got in zip(e["calls"], r):
                R.check(tuple(got) == tuple(want), self.key + ":answer", "%s.%s answers %s in a bare interpreter, %s here" % (what, meth, got, want), argument=pickle.loads(blob))


def unpack(r):
    if r[0] == "ok":
        return r[1]
    raise r[2]


def call(f):
    """the outcome of a call, with the exception itself"""
    try:
        return ("ok", f())
    except Exception as e:
        return ("raised", type(e).__name__, e)


def seen(r):
    return ("raised", r[1], str(r[2])) if r[0] == "raised" else canon(r[1])


class Repeat(Observer):
    """every call made twice, the first answer spoilt in between, former calls made again"""

    prop = "C19"

    def call(self, obj, meth, a, k):
        R, e = self.R, self.of(obj)
        if not (simple(a) and simple(k)):
            return getattr(obj, meth)(*a, **k)
        what = "%s.%s" % (type(obj).__name__, meth)
        if "state" not in e:
            e["state"] = canon(obj, public=True)
        a1, before = copy.deepcopy(a), canon(a)
        r1 = call(lambda: getattr(obj, meth)(*a1, **k))
        want = seen(r1)
        R.check(canon(a1) == before, self.key + ":argument", "%s changed its argument" % what, argument=a)
        vandalise(r1[1]) if r1[0] == "ok" else None
        R.trans(2)
        for m0, a0, k0, w0 in e["calls"][:1] + e["calls"][-1:]:
            r0 = call(lambda: getattr(obj, m0)(*copy.deepcopy(a0), **k0))
            R.check(seen(r0) == w0, self.key + ":again", "%s.%s, asked again after %s, answers %.300s instead of %.300s" % (type(obj).__name__, m0, meth, seen(r0), w0), argument=a0, after=a)
        r2 = call(lambda: getattr(obj, meth)(*a, **k))
        R.check(seen(r2) == want, self.key + ":answer", "%s answers %.300s the second time, %.300s the first time" % (what, seen(r2), want), argument=a1)
        e["calls"] = e["calls"][:1] + [(meth, copy.deepcopy(a), k, want)]
        return unpack(r2)

    def end(self):
        for e in self.objs.values():
            if "state" in e:
                self.R.check(canon(e["obj"], public=True) == e["state"], self.key + ":state", "the public state of a %s changed" % type(e["obj"]).__name__)


def parts(r, n):
    """the answers to the n rows of a batch, or None"""
    if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], list) and isinstance(r[1], list):
        return [("pair", x, y) for x, y in zip(*r)] if len(r[0]) == len(r[1]) == n else None
    if is_sparse_list(r):
        return [("sparse", r.size, {j: v for j, v in d.items() if v != 0}) for d in r] if len(r) == n else None
    return list(r) if isinstance(r, list) and len(r) == n else None


class Rows(Observer):
    """every batch taken apart"""

    prop, limit = "C25", 40

    def call(self, obj, meth, a, k):
        R = self.R
        if len(a) != 1 or k or not isinstance(a[0], list) or len(a[0]) < 2 or not simple(a) or meth.startswith("get_"):
            return getattr(obj, meth)(*a, **k)
        A = a[0]
        what = "%s.%s" % (type(obj).__name__, meth)
        r = getattr(obj, meth)(copy.deepcopy(A))
        P = parts(r, len(A))
        R.trans()
        if not R.check(P is not None, self.key + ":length", "%s answers a batch of %d rows with %.200r" % (what, len(A), r)):
            return r

        def sub(idx):
            rows = [copy.deepcopy(A[i]) for i in idx]
            if is_sparse_list(A):
                rows = type(A)(rows, size=A.size, dtype=A.dtype)
            return rows

        from .props.c25 import alike

        n = len(A)
        at = range(n) if n <= self.limit else sorted({0, 1, n // 3, n // 2, n - 2, n - 1})
        tests = [[i] for i in at] + [list(range(n))[::-1], list(range(1, n))]
        for idx in tests:
            q = call(lambda: getattr(obj, meth)(sub(idx)))
            R.trans()
            R.validated()
            Q = parts(q[1], len(idx)) if q[0] == "ok" else None
            if Q is None or not all(same_part(alike, P[i], y) for i, y in zip(idx, Q)):
                R.fail(self.key, "%s: rows %s of a batch are answered %.300r, by themselves %.300r" % (what, idx[:5], [P[i] for i in idx][:5], q[1] if q[0] == "ok" else q), batch=A)
                break
        return getattr(obj, meth)(A)


def same_part(alike, x, y):
    if isinstance(x, tuple) and x and x[0] == "sparse":
        return y[1] == x[1] and set(x[2]) == set(y[2]) and all(alike(v, y[2][j]) for j, v in x[2].items())
    if isinstance(x, tuple) and x and x[0] == "pair":
        return alike(list(x[1]), list(y[1])) and alike(list(x[2]), list(y[2]))
    return alike(x, y)


class Copies(Remote):
    """every model copied and pickled in every way, and asked the same"""

    prop, limit = "C27", 25

    def end(self):
        R = self.R
        ways = [("pickle %d" % p, lambda o, p=p: pickle.loads(pickle.dumps(o, p))) for p in range(6)] + [("copy", copy.copy), ("deepcopy", copy.deepcopy)]
        for e in self.objs.values():
            o = e["obj"]
            try:
                pickle.dumps(o)
            except Exception:
                R.count("unpicklable")
                continue
            want = canon(o)
            for label, way in ways:
                q = call(lambda: way(o))
                R.trans()
                if not R.check(q[0] == "ok", self.key + ":copy", "%s of a %s raises %r" % (label, type(o).__name__, q)):
                    continue
                if not R.check(canon(q[1]) == want, self.key + ":state", "%s of a %s has another state" % (label, type(o).__name__)):
                    continue
                for meth, blob, w in e["calls"][:: max(1, len(e["calls"]) // 6)]:
                    a, k = pickle.loads(blob)
                    g = outcome(lambda: getattr(q[1], meth)(*a, **k))
                    R.check(g == w, self.key + ":answer", "%s of a %s answers %s with %s instead of %s" % (label, type(o).__name__, meth, g, w), argument=a)
        super().end()


# requests any number of columns of which may be answered: nothing was learned about them
FREE = ("DummyClassifierPure", "NormalizerPure", "PipelinePure", "FeatureUnionPure", "BaggingClassifierPure", "VotingClassifierPure")


def free_width(obj):
    n = type(obj).__name__
    return n in FREE or n == "TfidfTransformerPure" and not getattr(obj, "use_idf", True) or n.startswith("_")


class Refusals(Observer):
    """every answered batch of numbers or values spoilt in every way"""

    prop, limit = "C24", 2

    def call(self, obj, meth, a, k):
        R, e = self.R, self.of(obj)
        r = call(lambda: getattr(obj, meth)(*copy.deepcopy(a), **k)) if simple(a) else None
        if r is None or r[0] != "ok" or len(a) != 1 or k or not (isinstance(a[0], list) and list.__len__(a[0])) or free_width(obj) or meth.startswith("get_"):
            return getattr(obj, meth)(*a, **k)
        A, sparse = a[0], is_sparse_list(a[0])
        if not sparse and not isinstance(A[0], list):
            return unpack(r)
        kind = (meth, sparse, len(A) > 1)
        e[kind] = e.get(kind, 0) + 1
        if e[kind] > self.limit:
            return unpack(r)
        what = "%s.%s" % (type(obj).__name__, meth)

        def refused(B, how):
            R.trans()
            q = call(lambda: getattr(obj, meth)(B))
            R.check(q[0] == "raised", self.key, "%s answers %s: %.200r" % (what, how, q[1]), argument=A)

        refused([], "an empty batch")
        refused(tuple(A), "a tuple")
        refused(None, "None")
        refused({0: A[0]}, "a dictionary")
        if sparse:
            for w in {A.size + 1, A.size + 7} | ({A.size - 1} - {0}):
                rows = [{j: v for j, v in dict(row).items() if j < w} for row in A]
                refused(type(A)(rows, size=w, dtype=A.dtype), "sparse data of %d columns instead of %d" % (w, A.size))
            for at in sorted({0, len(A) - 1}):
                for c in (-1, A.size, A.size + 3):
                    rows = [dict(row) for row in A]
                    rows[at][c] = 1.0
                    refused(type(A)(rows, size=A.size, dtype=A.dtype), "an entry in column %d of %d of row %d" % (c, A.size, at))
            return unpack(r)
        refused(A[0], "a flat list")
        n = len(A)
        for at in sorted({0, n // 2, n - 1}):
            row = A[at]
            for bad in (row[:-1], row + row[-1:], row + row, []):
                refused([list(x) if i != at else list(bad) for i, x in enumerate(A)], "a batch whose row %d has %d columns instead of %d" % (at, len(bad), len(row)))
        refused([x[:-1] for x in A], "rows of %d columns instead of %d" % (len(A[0]) - 1, len(A[0])))
        refused([x + x[:1] for x in A], "rows of %d columns instead of %d" % (len(A[0]) + 1, len(A[0])))
        return unpack(r)


class Conversions(Observer):
    """every conversion made twice; then the native model edited, and one of the two"""

    prop = "C26"

    def convert(self, orig, native, *a, **k):
        from .parts import edits, is_fasttext, value

        R, key = self.R, self.key
        what = type(native).__name__
        before = value(native)
        p = orig(native, *a, **k)
        R.trans(2)
        R.check(value(native) == before, key, "conversion changed a %s" % what)
        q = orig(native, *a, **k)
        want = canon(q)
        R.check(canon(p) == want, key, "the second conversion of a %s differs from the first" % what)
        self.apply(edits(p))
        R.check(canon(q) == want, key, "editing one converted %s changed another" % what)
        R.check(value(native) == before, key, "editing a converted %s changed the native one" % what)
        try:
            n = None if is_fasttext(native) else copy.deepcopy(native)
        except Exception:
            n = None
        if n is None or value(n) != before:
            R.count("native not copied")
        else:
            c = orig(n, *a, **k)
            R.check(canon(c) == want, key, "a copy of a %s converts to something else" % what)
            self.apply(edits(n))
            R.check(canon(c) == want, key, "editing a %s changed a converted model" % what)
            call(lambda: orig(n, *a, **k))
            R.check(canon(c) == want, key, "converting an edited %s changed another converted model" % what)
        t = orig(native, *a, **k)
        R.check(canon(t) == want, key, "a later conversion of a %s differs from the first" % what)
        R.validated()
        return t

    def apply(self, es):
        for e in es:
            call(e[1])


CALLS, BYTES, STEPS = 2, 4000, 1500  # of every method of every model, for every type of argument: the first two calls, if short


def points(f, done, tag):
    """steps of a call at which a source line is reached for the first or the last time; lines seen before are left out"""
    visits = {}
    r, n = count_steps(f, False, lambda n, fr: visits.setdefault((fr.f_code, fr.f_lineno), []).append(n))
    if n > STEPS:
        return r, []
    new = {s for key, v in visits.items() if (tag, key) not in done for s in v[:1] + v[-1:]}
    done |= {(tag, key) for key in visits}
    return r, sorted(new)


class Threads(Observer):
    """calls pre-empted once before every line, while another thread asks something else"""

    prop = "C20"

    def __init__(self, R, name):
        super().__init__(R, name)
        self.done = set()

    def call(self, obj, meth, a, k):
        R, e = self.R, self.of(obj)
        kind = (meth, len(a), type(a[0]) if a else None, len(a[0]) > 1 if a and isinstance(a[0], list) else None)
        e[kind] = e.get(kind, 0) + 1
        if e[kind] > CALLS or not (simple(a) and simple(k) and len(pickle.dumps((a, k))) <= BYTES):
            return getattr(obj, meth)(*a, **k)
        a = copy.deepcopy(a)
        f = lambda: getattr(obj, meth)(*copy.deepcopy(a), **k)
        r, pts = points(f, self.done, (type(obj).__name__, meth))
        want = canon(r)
        if pts:
            other = next((c for c in e["calls"] if c[0] == meth and [type(v) for v in c[1]] == [type(v) for v in a] and canon(c[1]) != canon(a)), None)
            if a and isinstance(a[0], list) and len(a[0]) > 1:
                b = copy.deepcopy(a)
                list.reverse(b[0])
                g = lambda: getattr(obj, meth)(*copy.deepcopy(b), **k)
                other = (meth, b, k, canon(count_steps(g)[0]))
            if other is None:
                other = (meth, a, k, want)
            m2, a2, k2, w2 = other
            for s in pts:
                out, _ = run_plan([f, lambda: getattr(obj, m2)(*copy.deepcopy(a2), **k2)], [(0, s, 1)])
                R.trans(2)
                R.validated()
                what = "%s.%s" % (type(obj).__name__, meth)
                if canon(out[0]) != want:
                    R.fail(self.key, "%s, pre-empted at step %d by %s, answers %.300s instead of %.300s" % (what, s, m2, out[0], r), argument=a, other=a2)
                    break
                if canon(out[1]) != w2:
                    R.fail(self.key, "%s.%s, run while %s is at step %d, answers %.300s" % (type(obj).__name__, m2, what, s, out[1]), argument=a2, other=a)
                    break
            R.check(canon(count_steps(f)[0]) == want, self.key + ":after", "%s.%s answers otherwise after being pre-empted" % (type(obj).__name__, meth), argument=a)
        e["calls"] = e["calls"][-3:] + [(meth, a, k, want)]
        if r[0] == "ok":
            return r[1]
        return getattr(obj, meth)(*a, **k)


class Interrupts(Observer):
    """calls cut short before every line, then made again"""

    prop = "C21"

    def __init__(self, R, name):
        super().__init__(R, name)
        self.done = set()

    def call(self, obj, meth, a, k):
        R, e = self.R, self.of(obj)
        kind = (meth, len(a), type(a[0]) if a else None, len(a[0]) > 1 if a and isinstance(a[0], list) else None)
        e[kind] = e.get(kind, 0) + 1
        if e[kind] > CALLS or not (simple(a) and simple(k) and len(pickle.dumps((a, k))) <= BYTES):
            return getattr(obj, meth)(*a, **k)
        a = copy.deepcopy(a)
        f = lambda: getattr(obj, meth)(*copy.deepcopy(a), **k)
        if "state" not in e:
            e["state"] = canon(obj, public=True)
        r, pts = points(f, self.done, (type(obj).__name__, meth))
        want = canon(r)
        what = "%s.%s" % (type(obj).__name__, meth)
        before = canon(a)
        for s in pts:
            b = copy.deepcopy(a)
            q, reached = interrupted(lambda: getattr(obj, meth)(*b, **k), s, Cut)
            R.trans(2)
            R.validated()
            if canon(b) != before:
                R.fail(self.key + ":argument", "%s, interrupted before step %d, changed its argument" % (what, s), argument=a)
                break
            if q[0] == "ok" and reached and canon(q) != want:
                R.fail(self.key + ":absorbed", "%s absorbed an interruption before step %d and answers %.300s instead of %.300s" % (what, s, q, r), argument=a)
                break
            again = canon(count_steps(f)[0]) if s == pts[-1] else canon(plain(f))
            if again != want:
                R.fail(self.key + ":later", "%s, interrupted before step %d and asked again, answers %.300s instead of %.300s" % (what, s, again, want), argument=a)
                break
            for m0, a0, k0, w0 in e["calls"]:
                if canon(plain(lambda: getattr(obj, m0)(*copy.deepcopy(a0), **k0))) != w0:
                    R.fail(self.key + ":later", "after %s was interrupted before step %d, %s answers otherwise than before" % (what, s, m0), argument=a0, interrupted=a)
                    break
        if pts:
            R.check(canon(obj, public=True) == e["state"], self.key + ":state", "interruptions of %s changed the public state of the model" % what, argument=a)
        if not any(c[0] == meth for c in e["calls"]):
            e["calls"].append((meth, a, k, want))
        if r[0] == "ok":
            return r[1]
        return getattr(obj, meth)(*a, **k)


def plain(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("raised", type(e).__name__, str(e))
