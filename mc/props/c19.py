"""C19: answers do not depend on what was asked before."""

import copy
import pickle
import warnings

from .. import sweep
from ..cmp import Raised, attempt
from ..state import canon, globals_state, vandalise
from .. import pristine
from ..variants import families
from ..zoo import requests, zoo

BOUNDS = {
    "quick": "76 models, each also asked in one process with all its twins that differ from it in one number, and alone; operations: every valid request (batch, row, sparse, list), each followed by in-place edits of its result or of its argument, refused calls (empty, "
             "None, wrong width, bad row in the middle of a batch, unknown kinds), calls and edits on a sibling model of the same class and on a second copy; every history of "
             "depth 2 over the full menu and depth 3 over a reduced one, all requests re-asked after each; breadth-first search of the reachable model states (instance, class "
             "and module state) to a fixpoint, every request asked in every state; the workloads of C01-C14, C16 and C17 (every sequence of choices with at most one off the first option): every call made twice, the first answer overwritten in between, the first and the latest earlier call asked again",
    "thorough": "depth 3 over the full menu, depth 4 over the reduced one; workloads with at most two choices off the first option",
}
ASSUMPTIONS = ["private attributes (leading underscore) may change, such as the stop-word validation flag; public ones may not",
               "editing a result may edit the argument of the same call (stateless scalers hand back their input)",
               "XGBClassifierPure objects are reset by unpickling a pristine copy instead of converting again"]


def bad_args(m):
    if m.kind == "line":
        return [None, "a\nb", 5, ["a", None], ""]
    if m.kind == "text":
        return [[], None, "abc", ["red fish", 5], [5, "red"], [None]]
    if m.kind == "dict":
        return [[], None, "abc", [{"a": 1}, 5], [{"a": "x", "b": "y"}, {"a": object}], {"a": 1}]
    good = m.arg()
    w = m.width
    return [[], None, "abc", [r[:-1] for r in good], [r + r for r in good], good + [["x"] * w], [[None] * w] + good, good[0], [good[0], good[1][:-1]], [{0: 1.0}], tuple(good)]


class Op:
    def __init__(self, label, run, small):
        self.label, self.run, self.small = label, run, small

    def __repr__(self):
        return self.label


class World:
    """one model under test with the sibling used by cross-model operations"""

    def __init__(self, m, fresh, sib, sfresh):
        self.m, self.p = m, fresh()
        self.sib, self._fresh, self._sfresh = sib, fresh, sfresh

    def __getattr__(self, name):
        # the other models are converted when first used
        if name == "q":
            self.q = self._sfresh()
            return self.q
        if name == "dup":
            self.dup = self._fresh()
            return self.dup
        raise AttributeError(name)


def ask(p, method, arg):
    return canon_result(attempt(getattr(p, method), arg))


def canon_result(r):
    return ("raised", r.name, str(r.e)) if isinstance(r, Raised) else canon(r)


def menu(m, base):
    ops = []
    rq = requests(m)
    for i, (label, meth, mk) in enumerate(rq):
        small = i in (0, 1, len(rq) - 1)

        def valid(w, R, key, label=label, meth=meth, mk=mk, edit=None):
            a = mk()
            b = copy.deepcopy(a)
            r = attempt(getattr(w.p, meth), a)
            c = canon_result(r)
            R.trans()
            R.check(c == base[label], key + ":answer", "%s answers %s instead of %s" % (label, c, base[label]))
            R.check(canon(a) == canon(b), key + ":argument", "%s changed its argument: %r instead of %r" % (label, a, b))
            if edit == "result":
                vandalise(r)
            elif edit == "argument":
                vandalise(a)

        ops.append(Op(label, valid, small))
        ops.append(Op(label + ", edit result", lambda w, R, k, f=valid: f(w, R, k, edit="result"), small))
        ops.append(Op(label + ", edit argument", lambda w, R, k, f=valid: f(w, R, k, edit="argument"), i == 0))
    for j, bad in enumerate(bad_args(m)):
        for meth in m.methods:

            def refused(w, R, key, bad=bad, meth=meth):
                a = copy.deepcopy(bad)
                r = attempt(getattr(w.p, meth), a)
                R.trans()
                R.check(canon(a) == canon(bad), key + ":argument", "%s(%r) changed its argument: %r" % (meth, bad, a))
                vandalise(r)

            ops.append(Op("%s refused %d" % (meth, j), refused, meth == m.methods[0] and j in (0, 3)))

    def sibling(w, R, key):
        for _, meth, mk in requests(w.sib):
            vandalise(attempt(getattr(w.q, meth), mk()))
            R.trans()

    def double(w, R, key):
        for label, meth, mk in rq:
            c = canon_result(attempt(getattr(w.dup, meth), mk()))
            R.trans()
            R.check(c == base[label], key + ":copy", "%s on a second converted copy answers %s instead of %s" % (label, c, base[label]))

    ops.append(Op("sibling model: all requests, edit results", sibling, True))
    ops.append(Op("second copy: all requests", double, False))
    return ops


_CACHE = {}


def setup(Z, i):
    if i not in _CACHE:
        m = Z[i]
        same = [z for z in Z if type(z.native).__name__ == type(m.native).__name__ and z is not m and z.kind == m.kind]
        sib = same[0] if same else Z[(i + 1) % len(Z)]

        def fresh_of(z):
            if "XGB" in z.name:
                blob = pickle.dumps(z.make())
                return lambda: pickle.loads(blob)
            return z.make

        f, s = fresh_of(m), fresh_of(sib)
        base = {label: canon_result(attempt(getattr(m.make(), meth), mk())) for label, meth, mk in requests(m)}
        p0 = m.make()
        _CACHE[i] = (m, f, sib, s, base, menu(m, base), canon(p0, public=True))
    return _CACHE[i]


def final(w, R, key, m, base, pub0, hist, few=False):
    rq = requests(m)
    for label, meth, mk in [rq[0], rq[-1]] if few else rq:
        c = ask(w.p, meth, mk())
        R.trans()
        R.check(c == base[label], key + ":answer", "after %s: %s answers %s instead of %s" % (hist, label, c, base[label]))
    R.check(few or canon(w.p, public=True) == pub0, key + ":state", "after %s the public state of the model changed" % (hist,))


def histories(Z, depth, small):
    def scenario(ch, R):
        i = ch.choose("model", range(len(Z)))
        m, f, sib, s, base, ops, pub0 = setup(Z, i)
        ops = [o for o in ops if o.small] if small else ops
        key = "C19:" + m.name
        w = World(m, f, sib, s)
        hist = []
        for d in range(depth):
            op = ch.choose("op%d" % d, ops)
            hist.append(op.label)
            op.run(w, R, key)
            R.state(m.name, tuple(hist))
        final(w, R, key, m, base, pub0, hist, few=not small)

    return scenario


def reachable(Z):
    """explicit-state search of the model's own state graph, to a fixpoint"""

    def scenario(ch, R):
        i = ch.choose("model", range(len(Z)))
        m, f, sib, s, base, ops, pub0 = setup(Z, i)
        key = "C19:" + m.name

        def snap(w):
            return (canon(w.p), globals_state())

        w = World(m, f, sib, s)
        seen = {snap(w): []}
        queue = [[]]
        while queue:
            path = queue.pop(0)
            for op in ops:
                w = World(m, f, sib, s)
                for o in path:
                    o.run(w, R, key)
                op.run(w, R, key)
                st = snap(w)
                R.trans()
                final(w, R, key, m, base, pub0, [o.label for o in path] + [op.label])
                if st not in seen:
                    seen[st] = path + [op]
                    queue.append(path + [op])
                    if len(seen) > 12:
                        R.fail(key + ":unbounded", "the model keeps reaching new states: it accumulates history (%s)" % [o.label for o in path + [op]])
                        return
        for st in seen:
            R.state(m.name, st)
        R.count("reachable_states", len(seen))
        R.check(len(seen) >= 1, key, "")

    return scenario


def groups():
    """models whose uses are interleaved across objects: one-option families, and the whole zoo"""
    G = {f: L for f, L in families().items()}
    G["zoo"] = zoo()
    return G


def all_answers(m, args=None):
    """every request of a freshly converted model; args: argument objects kept and handed in again"""
    p = m.make()
    out = []
    for n, (label, meth, mk) in enumerate(requests(m)):
        if args is None:
            a = mk()
        else:
            a = mk()
            k = (n, repr(a))
            a = args.setdefault(k, a)
        out.append((label, canon_result(attempt(getattr(p, meth), a))))
    return out


def after(fam, before, j, shared):
    """run in a pristine process: use the models `before`, then answer with model j"""
    G = groups()[fam]
    args = {} if shared else None
    for i in before:
        all_answers(G[i], args)
    return all_answers(G[j], args)


_ALONE = {}


def alone(fam, j):
    if (fam, j) not in _ALONE:
        _ALONE[fam, j] = pristine.run("after", fam, (), j, False)
    return _ALONE[fam, j]


def crossing(fams):
    """what one model was asked must not show in the answers of another, in a process that has done nothing else"""

    def scenario(ch, R):
        fam = ch.choose("family", fams)
        L = groups()[fam]
        j = ch.choose("asked", range(len(L)))
        i = ch.choose("used before", range(len(L)))
        shared = ch.flag("same argument objects")
        want = alone(fam, j)
        got = pristine.run("after", fam, (i,), j, shared)
        R.trans(len(got))
        for (label, g), (_, w) in zip(got, want):
            R.check(g == w, "C19:%s:after another" % L[j].name, "%s of %s answers %s after %s was used, and %s in a process of its own" % (label, L[j].name, g, L[i].name, w))
        R.state(fam, i, j, shared)

    return scenario


def everything(Z):
    """all models of the zoo one after the other in one process, starting anywhere, in both directions"""

    def scenario(ch, R):
        j = ch.choose("asked", range(len(Z)))
        back = ch.flag("backwards")
        step = -1 if back else 1
        before = [(j + step * (k + 1)) % len(Z) for k in range(len(Z) - 1)]
        want = alone("zoo", j)
        got = pristine.run("after", "zoo", tuple(before), j, False)
        R.trans(len(got))
        for (label, g), (_, w) in zip(got, want):
            R.check(g == w, "C19:%s:after everything" % Z[j].name, "%s of %s answers %s after every other model was used, and %s in a process of its own" % (label, Z[j].name, g, w))
        R.state(j, back)

    return scenario


def reworked(Z):
    """the same argument object with other contents is another question"""

    def scenario(ch, R):
        i = ch.choose("model", range(len(Z)))
        m, f, sib, s, base, ops, pub0 = setup(Z, i)
        rq = requests(m)
        label, meth, mk = ch.choose("request", rq)
        a = mk()
        if not isinstance(a, list) or len(a) < 2:
            return
        how = ch.choose("change", ["rotate", "first row becomes the last", "drop the last", "append the first", "row contents"])
        p = f()
        attempt(getattr(p, meth), a)
        if how == "rotate":
            a.append(a.pop(0))
        elif how == "first row becomes the last":
            a[0] = copy.deepcopy(a[-1])
        elif how == "drop the last":
            a.pop()
        elif how == "append the first":
            a.append(copy.deepcopy(a[0]))
        elif isinstance(a[0], list):
            b = copy.deepcopy(a)
            for k in range(len(a)):
                a[k][:] = b[k - 1]
        elif isinstance(a[0], dict):
            b = copy.deepcopy(a)
            for k in range(len(a)):
                a[k].clear()
                a[k].update(b[k - 1])
        else:
            return
        got = canon_result(attempt(getattr(p, meth), a))
        want = canon_result(attempt(getattr(f(), meth), copy.deepcopy(a)))
        R.trans(3)
        R.check(got == want, "C19:%s:reworked argument" % m.name, "%s, %s in the same object: %s instead of %s" % (label, how, got, want))
        R.state(m.name, label, how)

    return scenario


def numbers(o, _path=(), _seen=None):
    """paths to floating-point parts of a converted model: of every list the first, the middle and the last"""
    seen = set() if _seen is None else _seen
    if id(o) in seen or len(_path) > 12:
        return []
    if isinstance(o, float):
        return [_path]
    seen.add(id(o))
    out = []
    if isinstance(o, list):
        n = list.__len__(o)
        for k in sorted({0, n // 2, n - 1} & set(range(n))):
            out += numbers(list.__getitem__(o, k), _path + (k,), seen)
    elif isinstance(o, tuple):
        for k, v in enumerate(o):
            if not isinstance(v, float):  # not to be edited
                out += numbers(v, _path + (k,), seen)
    elif isinstance(o, dict):
        for k in list(o)[:1] + list(o)[1:][-1:]:
            out += numbers(o[k], _path + (k,), seen)
    elif type(o).__module__.split(".")[0].startswith("pure_"):
        for k, v in sorted(vars(o).items()):
            out += numbers(v, _path + (".", k), seen)
    return out


def edit(o, path):
    path = [k for k in path if k != "."]
    for k in path[:-1]:
        o = getattr(o, k) if isinstance(k, str) and hasattr(o, "__dict__") and not isinstance(o, (list, dict)) else o[k]
    k = path[-1]
    if isinstance(o, (list, dict)):
        o[k] = o[k] * 0.5 + 0.375
    else:
        setattr(o, k, getattr(o, k) * 0.5 + 0.375)


def lookalike(i, paths, first):
    """in a pristine process: the answers of models that differ from model i in one number each, asked after model i or alone"""
    warnings.simplefilter("ignore")
    m = zoo()[i]
    twins = []
    for path in paths:
        q = m.make()
        edit(q, path)
        twins.append(q)
    if first:
        all_answers(m)
    return [[(label, canon_result(attempt(getattr(q, meth), mk()))) for label, meth, mk in requests(m)] for q in twins]


def lookalikes(Z):
    """a model that shares all but one number with another one must not be taken for it"""

    def scenario(ch, R):
        i = ch.choose("model", range(len(Z)))
        paths = numbers(Z[i].make())
        if not paths:
            R.validated()
            return
        got = pristine.run("lookalike", i, paths, True)
        for path, g in zip(paths, got):
            want = pristine.run("lookalike", i, [path], False)[0]
            R.trans(2)
            R.state(Z[i].name, path)
            for (label, a), (_, w) in zip(g, want):
                R.check(a == w, "C19:%s:lookalike" % Z[i].name, "%s of a model with another %s than %s answers %s after that one was used, and %s in a process of its own" % (label, path, Z[i].name, a, w))

    return scenario


def own(tier):
    Z = zoo()
    th = tier == "thorough"
    G = groups()
    pristine.start({"after": after, "lookalike": lookalike})
    out = [("crossing", crossing([f for f in G if f != "zoo"])), ("everything", everything(Z)), ("lookalikes", lookalikes(Z)), ("reworked argument", reworked(Z)), ("state graph", reachable(Z)), ("histories, depth 2", histories(Z, 2, False)), ("histories, depth 3", histories(Z, 3, not th))]
    if th:
        out.append(("crossing the zoo", crossing(["zoo"])))
        out.append(("histories, depth 4", histories(Z, 4, True)))
    return out


def scenarios(tier):
    d = 2 if tier == "thorough" else 1
    return own(tier) + [("workloads", sweep.sweep(sweep.Repeat, d))]
