"""C20: threads sharing a model get the single-threaded answers."""

import pickle
import warnings

from .. import sweep
from ..sched import call, count_steps, run_plan
from ..state import GlobalsWatch, canon
from ..zoo import requests, zoo

BOUNDS = {
    "quick": "76 models x every one-row (and every sparse or list) request: real threads, the request pre-empted before every executed source line (its first, second and last execution), another thread runs a sequence of other requests on the same "
             "model and on a sibling model, then the first resumes (all schedules with 1 preemption); all schedules with 2 preemptions of two requests whose line counts "
             "multiply to <= 1000; shared state observed at the first three executions of every line of every request (a call that writes nothing shared commutes with everything); the workloads of C01-C14, C16 and C17 (every sequence of choices with at most one off the first option): the first two calls of every method and argument type of every model, if of at most 1500 line steps, pre-empted before the first and the last execution of every source line by a call with other data",
    "thorough": "1 preemption at every execution of every line and every bytecode instruction; 2 preemptions up to a product of 60000; 3 threads with 2 preemptions up to a product of 4000; workloads with at most two choices off the first option",
}
ASSUMPTIONS = ["switches happen between source lines (thorough: bytecode instructions) of the package; library calls made by one line are atomic",
               "the argument objects are not shared between the threads"]


def clone_of(z):
    if "XGB" in z.name or "Gradient" in z.name:
        blob = pickle.dumps(z.make())
        return lambda: pickle.loads(blob)
    return z.make


_C = {}


def setup(Z, i):
    if i not in _C:
        warnings.simplefilter("ignore")
        m = Z[i]
        same = [z for z in Z if type(z.native).__name__ == type(m.native).__name__ and z is not m and z.kind == m.kind]
        sib = same[0] if same else Z[(i + 1) % len(Z)]
        fresh, q = clone_of(m), sib.make()
        rq = requests(m)
        rq += [(label + " reversed", meth, lambda mk=mk: backwards(mk())) for label, meth, mk in rq if isinstance(mk(), list) and len(mk()) > 1]
        count_steps(lambda: getattr(fresh(), rq[0][1])(rq[0][2]()), True)
        solo = {}
        for label, meth, mk in rq:
            p = fresh()
            solo[label] = canon(call(lambda: getattr(p, meth)(mk())))
        sq = requests(sib)[0]
        sib_want = canon(call(lambda: getattr(q, sq[1])(sq[2]())))
        _C[i] = (m, fresh, rq, solo, q, sq, sib_want, {})
    return _C[i]


def backwards(a):
    list.reverse(a)
    return a


def others(rq, i):
    """indices of the requests the other thread issues: of the same method, of another one, and of the same kind with another argument"""
    same = [j for j in range(len(rq)) if rq[j][1] == rq[i][1] and j != i][:1]
    same += [j for j in range(len(rq)) if rq[j][0] == rq[i][0] + " reversed"]
    diff = [j for j in range(len(rq)) if rq[j][1] != rq[i][1]]
    return same + diff[-1:] or [i]


def steps_of(cache, fresh, rq, i, opcodes):
    k = (i, opcodes)
    if k not in cache:
        p = fresh()
        a = rq[i][2]()
        cache[k] = count_steps(lambda: getattr(p, rq[i][1])(a), opcodes)[1]
    return cache[k]


def points_of(cache, fresh, rq, i, opcodes, every):
    """the steps to pre-empt: all of them, or each source line's first, second and last execution"""
    k = (i, opcodes, every)
    if k not in cache:
        p = fresh()
        a = rq[i][2]()
        visits = {}
        n = count_steps(lambda: getattr(p, rq[i][1])(a), opcodes, lambda n, f: visits.setdefault((f.f_code, f.f_lineno), []).append(n))[1]
        cache[k] = list(range(1, n + 1)) if every else sorted({s for v in visits.values() for s in v[:2] + v[-1:]})
    return cache[k]


def after_of(cache, fresh, rq, idx):
    """state of the model after the same requests one after the other"""
    k = ("after", tuple(idx))
    if k not in cache:
        s = fresh()
        for j in idx:
            call(lambda: getattr(s, rq[j][1])(rq[j][2]()))
        cache[k] = canon(s)
    return cache[k]


def one_preemption(Z, opcodes, every):
    def scenario(ch, R):
        warnings.simplefilter("ignore")
        zi = ch.choose("model", range(len(Z)))
        m, fresh, rq, solo, q, sq, sib_want, cache = setup(Z, zi)
        i = ch.choose("request", asked(rq, every))
        k = ch.choose("preempt before", points_of(cache, fresh, rq, i, opcodes, every) or [0])
        p = fresh()
        args = [rq[i][2]()] + [rq[j][2]() for j in others(rq, i)] + [sq[2]()]
        idx = [i] + others(rq, i)

        def second():
            return [call(lambda j=j, a=a: getattr(p, rq[j][1])(a)) for j, a in zip(idx[1:], args[1:])] + [call(lambda: getattr(q, sq[1])(args[-1]))]

        out, taken = run_plan([lambda: getattr(p, rq[i][1])(args[0]), second], [(0, k, 1)], 0, opcodes)
        R.trans(2 + len(idx))
        R.state(m.name, i, k, opcodes)
        key = "C20:" + m.name
        R.check(canon(out[0]) == solo[rq[i][0]], key, "%s, interrupted at step %d by %s, answers %s instead of %s" % (
            rq[i][0], k, [rq[j][0] for j in idx[1:]], out[0], solo[rq[i][0]]))
        for j, r in zip(idx[1:], out[1][1][:-1]):
            R.check(canon(r) == solo[rq[j][0]], key, "%s, run while %s is at step %d, answers %s instead of %s" % (rq[j][0], rq[i][0], k, r, solo[rq[j][0]]))
        R.check(canon(out[1][1][-1]) == sib_want, key + ":sibling", "a request on another model, run while %s is at step %d, answers %s" % (rq[i][0], k, out[1][1][-1]))
        R.check(canon(p) == after_of(cache, fresh, rq, idx), key + ":state", "the model is left in another state than by sequential use")

    return scenario


def pairs_of(Z, zi, limit):
    m, fresh, rq, solo, q, sq, sib_want, cache = setup(Z, zi)
    out = []
    for i in range(len(rq)):
        for j in [i] + others(rq, i):
            if steps_of(cache, fresh, rq, i, False) * steps_of(cache, fresh, rq, j, False) <= limit and steps_of(cache, fresh, rq, j, False):
                out.append((i, j))
    return out


def two_preemptions(Z, limit, threads=2):
    def scenario(ch, R):
        warnings.simplefilter("ignore")
        zi = ch.choose("model", range(len(Z)))
        m, fresh, rq, solo, q, sq, sib_want, cache = setup(Z, zi)
        ps = pairs_of(Z, zi, limit)
        if not ps:
            R.count("too_long")
            return
        i, j = ch.choose("requests", ps)
        k1 = ch.choose("preempt first before", range(1, steps_of(cache, fresh, rq, i, False) + 1))
        key = "C20:" + m.name
        for k2 in range(1, steps_of(cache, fresh, rq, j, False) + 1):
            p = fresh()
            a, b = rq[i][2](), rq[j][2]()
            fns = [lambda: getattr(p, rq[i][1])(a), lambda: getattr(p, rq[j][1])(b)]
            want = [solo[rq[i][0]], solo[rq[j][0]]]
            if threads == 3:
                c = rq[i][2]()
                fns.append(lambda: getattr(p, rq[i][1])(c))
                want.append(solo[rq[i][0]])
                plan = [(0, k1, 1), (1, k2, 2)]
            else:
                plan = [(0, k1, 1), (1, k2, 0)]
            out, taken = run_plan(fns, plan, 0)
            R.trans(len(fns))
            R.state(m.name, i, j, k1, k2, threads)
            for t, (o, w) in enumerate(zip(out, want)):
                R.check(canon(o) == w, key, "thread %d under the schedule %s answers %s instead of %s" % (t, taken, o, w), requests=(rq[i][0], rq[j][0]))

    return scenario


def asked(rq, every):
    """the requests that get pre-empted or observed: in the quick tier the short ones"""
    return [i for i in range(len(rq)) if every or not rq[i][0].endswith((" batch", " reversed"))]


def observed(Z, most, every):
    """shared state looked at before every line of every request"""

    def scenario(ch, R):
        warnings.simplefilter("ignore")
        zi = ch.choose("model", range(len(Z)))
        m, fresh, rq, solo, q, sq, sib_want, cache = setup(Z, zi)
        i = ch.choose("request", asked(rq, every))
        for warm in (False, True):
            p = fresh()
            if warm:
                call(lambda: getattr(p, rq[i][1])(rq[i][2]()))
            watch = GlobalsWatch()
            pub0, last = canon(p, public=True), [canon(p), watch.value()]
            writes = []

            visits = {}

            def at(n, frame):
                v = visits[frame.f_lineno, frame.f_code] = visits.get((frame.f_lineno, frame.f_code), 0) + 1
                if v > most:
                    return
                s = [canon(p), watch.value()]
                R.state(m.name, zi, i, n)
                R.trans()
                if s != last:
                    writes.append((n, frame.f_code.co_name, frame.f_lineno))
                    last[:] = s

            a = rq[i][2]()
            r, n = count_steps(lambda: getattr(p, rq[i][1])(a), False, at)
            R.check(canon(r) == solo[rq[i][0]], "C20:%s:solo" % m.name, "%s is not deterministic" % rq[i][0])
            R.check(canon(p, public=True) == pub0, "C20:%s:public" % m.name, "%s changed the public state of the model" % rq[i][0])
            R.count("steps", n)
            if writes:
                # these calls do not commute by construction: their schedules are decided by the other scenarios
                R.count("shared_writes", len(writes))

    return scenario


def own(tier):
    Z = zoo()
    if tier == "thorough":
        return [("independence", observed(Z, 50, True)), ("one preemption, lines", one_preemption(Z, False, True)), ("one preemption, instructions", one_preemption(Z, True, True)),
                ("two preemptions", two_preemptions(Z, 60000)), ("three threads", two_preemptions(Z, 4000, 3))]
    return [("independence", observed(Z, 3, False)), ("one preemption", one_preemption(Z, False, False)), ("two preemptions", two_preemptions(Z, 1000))]


def scenarios(tier):
    d = 2 if tier == "thorough" else 1
    return own(tier) + [("workloads", sweep.sweep(sweep.Threads, d))]
