"""C21: an interrupted call leaves the model as good as new."""

import warnings

from .. import sweep
from ..sched import Cut, call, interrupted
from ..state import GlobalsWatch, canon
from ..zoo import requests, zoo
from .c20 import clone_of, points_of

BOUNDS = {
    "quick": "76 models x every request (batch, row, sparse, list; first use and repeated use of the model): an exception nobody handles raised before every executed source line (its first, second and last execution), "
             "a MemoryError before the first execution of every line; afterwards the argument, the public state of the model and of the package are compared and every request is asked again; the workloads of C01-C14, C16 and C17 (every sequence of choices with at most one off the first option): the first two calls of every method and argument type of every model, if of at most 1500 line steps, cut short before the first and the last execution of every source line, then asked again",
    "thorough": "every execution of every line and every bytecode instruction, both exceptions, and every pair of interruptions of the short requests; workloads with at most two choices off the first option",
}
ASSUMPTIONS = ["interruptions strike between source lines (thorough: bytecode instructions) of the package, not inside a library call",
               "private attributes (leading underscore) may change as long as every later answer is right"]

_C = {}


def setup(Z, i):
    if i not in _C:
        m = Z[i]
        fresh = clone_of(m)
        rq = requests(m)
        solo = {}
        for label, meth, mk in rq:
            p = fresh()
            solo[label] = canon(call(lambda: getattr(p, meth)(mk())))
        _C[i] = (m, fresh, rq, solo, canon(fresh(), public=True), {})
    return _C[i]


def aftermath(R, key, what, p, rq, solo, pub0):
    R.check(canon(p, public=True) == pub0, key + ":state", "after %s the public state of the model is different" % what)
    for label, meth, mk in rq:
        r = call(lambda: getattr(p, meth)(mk()))
        R.trans()
        R.check(canon(r) == solo[label], key + ":later", "after %s, %s answers %s" % (what, label, r), expected=solo[label])


def single(Z, opcodes, every, exc, warm, rows_only=False):
    def scenario(ch, R):
        warnings.simplefilter("ignore")
        zi = ch.choose("model", range(len(Z)))
        m, fresh, rq, solo, pub0, cache = setup(Z, zi)
        i = ch.choose("request", [j for j in range(len(rq)) if not rows_only or not rq[j][0].endswith(" batch")])
        key = "C21:" + m.name
        watch = GlobalsWatch()
        g0 = watch.value()
        for k in points_of(cache, fresh, rq, i, opcodes, every):
            p = fresh()
            if warm:
                call(lambda: getattr(p, rq[i][1])(rq[i][2]()))
            a = rq[i][2]()
            a0 = canon(a)
            r, reached = interrupted(lambda: getattr(p, rq[i][1])(a), k, exc, opcodes)
            R.trans()
            R.state(m.name, zi, i, k)
            what = "%s interrupted before step %d" % (rq[i][0], k)
            R.check(canon(a) == a0, key + ":argument", "%s changed its argument to %r" % (what, a), was=a0)
            if r[0] == "ok" and reached:
                # the interruption was absorbed: then nothing may have been lost
                R.count("absorbed")
                R.check(canon(r) == solo[rq[i][0]], key + ":absorbed", "%s absorbed the exception and answered %s" % (what, r))
            aftermath(R, key, what, p, rq, solo, pub0)
        R.check(watch.value() == g0, key + ":globals", "interruptions of %s changed the state of the package" % rq[i][0])

    return scenario


def pairs(Z):
    def scenario(ch, R):
        warnings.simplefilter("ignore")
        zi = ch.choose("model", range(len(Z)))
        m, fresh, rq, solo, pub0, cache = setup(Z, zi)
        rows = [j for j in range(len(rq)) if not rq[j][0].endswith(" batch")]
        i = ch.choose("request", rows)
        j = ch.choose("second", rows)
        key = "C21:" + m.name
        for k1 in points_of(cache, fresh, rq, i, False, False):
            for k2 in points_of(cache, fresh, rq, j, False, False):
                p = fresh()
                interrupted(lambda: getattr(p, rq[i][1])(rq[i][2]()), k1, Cut)
                interrupted(lambda: getattr(p, rq[j][1])(rq[j][2]()), k2, Cut)
                R.trans(2)
                R.state(m.name, zi, i, j, k1, k2)
                aftermath(R, key, "%s and %s interrupted before steps %d and %d" % (rq[i][0], rq[j][0], k1, k2), p, [rq[i], rq[j]], solo, pub0)

    return scenario


def own(tier):
    Z = zoo()
    if tier == "thorough":
        return [("every line, interrupt", single(Z, False, True, Cut, False)), ("every line, used model", single(Z, False, True, Cut, True)),
                ("every line, memory error", single(Z, False, True, MemoryError, False)),
                ("every instruction, interrupt", single(Z, True, True, Cut, False, True)), ("two interruptions", pairs(Z))]
    return [("interrupt", single(Z, False, False, Cut, False)), ("interrupt, used model", single(Z, False, False, Cut, True, True)),
            ("memory error", single(Z, False, False, MemoryError, False, True))]


def scenarios(tier):
    d = 2 if tier == "thorough" else 1
    return own(tier) + [("workloads", sweep.sweep(sweep.Interrupts, d))]
