"""
Bounded exhaustive explorer.

A *scenario* is a deterministic function ``scenario(ch, R)``.  Every source of
nondeterminism (which model, which hyper-parameter, which input, which next
operation, which thread runs next, where a fault strikes) is a call to
``ch.choose(label, options)``.  The explorer enumerates *every* sequence of
choices (stateless depth-first search: replay a prefix, then take the next
alternative), so a completed run is an exhaustive enumeration of the bounded
space the scenario describes; there is no sampling and no random number.

``R`` records what was covered: canonical states (hashed), transitions (calls
made on the implementation), traces validated against the reference, and the
individual comparisons made.
"""

import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
EXEC_LIMIT_S = float(os.environ.get("MC_EXEC_LIMIT", "90"))
MAX_VIOLATIONS_PER_TASK = 4
DEADLINE = float("inf")


class Cut(Exception):
    """prefix enumeration reached its depth"""


class Hang(BaseException):
    """one execution exceeded its time limit (treated as non-termination)"""


class Skip(Exception):
    """the scenario prunes this branch (documented reason, counted)"""


class HarnessError(Exception):
    pass


class Chooser:
    def __init__(self, prefix=(), limit=None, expect=None):
        self.prefix = list(prefix)
        self.limit = limit
        self.choices = []
        self.arity = []
        self.labels = []
        self.expect = expect

    def choose(self, label, options):
        options = options if isinstance(options, (list, tuple, range)) else list(options)
        n = len(options)
        if n == 0:
            raise HarnessError("empty option list at %r" % (label,))
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise HarnessError(
                "replay diverged: choice %d of %r out of range %d" % (c, label, n)
            )
        self.choices.append(c)
        self.arity.append(n)
        opt = options[c]
        self.labels.append((label, _short(opt)))
        if self.limit is not None and i + 1 >= self.limit:
            raise Cut()
        return opt

    def flag(self, label):
        return self.choose(label, [False, True])


def _short(o, n=160):
    try:
        s = o if isinstance(o, str) else repr(o)
    except Exception:
        s = "<unrepr>"
    return s if len(s) <= n else s[: n - 3] + "..."


def digest(*parts):
    return hashlib.blake2b(repr(parts).encode("utf-8", "backslashreplace"), digest_size=8).digest()


class Recorder:
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.executions = 0
        self.comparisons = 0
        self.skipped = 0
        self.violations = []
        self.errors = []
        self.stop = False
        self.samples = []
        self.extra = {}
        self._fresh()

    def _fresh(self):
        self._pending = []
        self._validated = False

    # -- coverage ---------------------------------------------------------
    def state(self, *parts):
        self.states.add(digest(*parts))

    def trans(self, n=1):
        self.transitions += n

    def validated(self, n=1):
        self.comparisons += n
        self._validated = True

    def outcome(self, *parts):
        if len(self.outcomes) < 200000:
            self.outcomes.add(digest(*parts))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # -- failures ---------------------------------------------------------
    def fail(self, key, msg, **detail):
        """key identifies the failing input/call site (for known findings)"""
        self._pending.append((key, msg, detail))

    def check(self, cond, key, msg, **detail):
        self.validated()
        if not cond:
            self.fail(key, msg, **detail)
        return cond


def _on_alarm(signum, frame):
    raise Hang()


def run_one(fn, prefix, R, scen_name, limit=None):
    """one execution; returns the Chooser"""
    ch = Chooser(prefix, limit=limit)
    R._fresh()
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, EXEC_LIMIT_S)
    try:
        try:
            fn(ch, R)
        except Skip:
            R.skipped += 1
        except Hang:
            R.stop = True  # further executions of this task would hang likewise
            R.fail(
                "hang:" + scen_name,
                "execution did not terminate within %gs" % EXEC_LIMIT_S,
            )
        except (Cut, HarnessError, KeyboardInterrupt):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            in_repo = [f for f in tb if f.filename.startswith(REPO + "/")]
            if in_repo:
                R.fail(
                    "crash:%s:%s" % (type(e).__name__, os.path.relpath(in_repo[-1].filename, REPO)),
                    "unexpected %s from the implementation: %s" % (type(e).__name__, e),
                    traceback=traceback.format_exc()[-2000:],
                )
            elif R._pending:
                pass  # the answer is already known to be wrong; the judge stumbled over it
            elif isinstance(e, (AttributeError, ImportError, OSError)):
                raise
            else:
                R.fail(
                    "malformed:%s:%s" % (scen_name, type(e).__name__),
                    "the implementation's answer could not be interpreted: %r" % (e,),
                    traceback=traceback.format_exc()[-2000:],
                )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    R.executions += 1
    if R._validated:
        R.traces += 1
    if len(R.samples) < 2 or R.executions % 997 == 0 and len(R.samples) < 6:
        R.samples.append({"scenario": scen_name, "choices": [list(x) for x in ch.labels]})
    for key, msg, detail in R._pending:
        if len(R.violations) < MAX_VIOLATIONS_PER_TASK or key not in {
            v["key"] for v in R.violations
        }:
            R.violations.append(
                {
                    "key": key,
                    "message": msg,
                    "scenario": scen_name,
                    "choices": list(ch.choices),
                    "labels": [list(x) for x in ch.labels],
                    "detail": {k: _short(v, 4000) for k, v in detail.items()},
                }
            )
    return ch


def _next_prefix(ch, floor):
    """advance like an odometer; None when the subtree below floor is done"""
    ch_choices, ar = ch.choices, ch.arity
    i = len(ch_choices) - 1
    while i >= floor:
        if ch_choices[i] + 1 < ar[i]:
            return ch_choices[:i] + [ch_choices[i] + 1]
        i -= 1
    return None


def explore_subtree(fn, prefix, scen_name, R=None):
    R = R or Recorder()
    floor = len(prefix)
    p = list(prefix)
    while p is not None and not R.stop:
        ch = run_one(fn, p, R, scen_name)
        p = _next_prefix(ch, floor)
        if time.time() > DEADLINE:
            R.stop = True
            R.errors.append("the time limit of the run passed before the space was exhausted")
    return R


def enum_prefixes(fn, scen_name, want):
    """all choice prefixes at the smallest depth giving >= want tasks"""
    depth, last, t0 = 1, [[]], time.time()
    while True:
        out, complete, p = [], True, []
        R = Recorder()
        while p is not None:
            ch = Chooser(p, limit=depth)
            R._fresh()
            try:
                try:
                    fn(ch, R)
                except Cut:
                    complete = False
                except Skip:
                    pass
                except HarnessError:
                    raise
                except Exception:
                    pass
            finally:
                pass
            out.append(list(ch.choices))
            p = _next_prefix(ch, 0)
            if time.time() - t0 > 2:
                return last  # executions are expensive: a coarser partition will do
        if complete or len(out) >= want or depth >= 8:
            return out
        last = out
        depth += 1


_SCEN = {}


def _task(args):
    name, prefixes = args
    R = Recorder()
    try:
        for p in prefixes:
            explore_subtree(_SCEN[name], p, name, R)
            if R.stop:
                break
    except (Exception, Hang):
        R.errors.append(traceback.format_exc())
    return name, R


def _quiet():
    """the native libraries print from C: silence the workers"""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


def explore_all(scenarios, workers):
    """scenarios: list of (name, fn). Returns {name: Recorder-merged}"""
    global _SCEN
    _SCEN = dict(scenarios)
    results = {n: Recorder() for n, _ in scenarios}
    tasks = []
    for n, fn in scenarios:
        serial = getattr(fn, "serial", False)
        if workers <= 1 or serial:
            tasks.append((n, [[]]))
        else:
            pre = enum_prefixes(fn, n, workers * 6)
            # keep neighbouring prefixes together but make enough tasks
            k = max(1, len(pre) // (workers * 12))
            for i in range(0, len(pre), k):
                tasks.append((n, pre[i : i + k]))
    if os.environ.get("MC_STOP"):
        random.Random(1).shuffle(tasks)
    if workers <= 1:
        for t in tasks:
            name, R = _task(t)
            _merge(results[name], R)
    else:
        ctx = mp.get_context("fork")
        with ProcessPoolExecutor(workers, mp_context=ctx, initializer=_quiet) as ex:
            futs = [ex.submit(_task, t) for t in tasks]
            for f in as_completed(futs):
                try:
                    name, R = f.result()
                except Exception as e:  # a worker died
                    results[scenarios[0][0]].errors.append("worker: %r" % (e,))
                    continue
                _merge(results[name], R)
                if R.violations and os.environ.get("MC_STOP"):  # for experiments only: a verdict is enough
                    for g in futs:
                        g.cancel()
                    for q in list(ex._processes.values()):
                        q.kill()
                    break
    return results


def _merge(a, b):
    a.states |= b.states
    a.outcomes |= b.outcomes
    for k in ("transitions", "traces", "executions", "comparisons", "skipped"):
        setattr(a, k, getattr(a, k) + getattr(b, k))
    a.violations += b.violations
    a.errors += b.errors
    if len(a.samples) < 4:
        a.samples += b.samples[: 4 - len(a.samples)]
    for k, v in b.extra.items():
        a.extra[k] = a.extra.get(k, 0) + v


# ------------------------------------------------------------------ findings
def load_findings(pid):
    """known_findings.txt: 'finding: property=<id> key=<key> <what>'"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path, encoding="utf-8"):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        toks = line[len("finding:") :].strip().split(None, 2)
        if len(toks) < 2 or toks[0] != "property=" + pid or not toks[1].startswith("key="):
            continue
        out[toks[1][4:]] = toks[2] if len(toks) > 2 else ""
    return out


def run_check(pid, scenarios, tier, seed, level="model_checking", assumptions=(), bounds=None, workers=None):
    global DEADLINE
    t0 = time.time()
    DEADLINE = t0 + float(os.environ.get("MC_DEADLINE", "800" if tier == "quick" else "86400"))
    sys.stdout.flush()
    workers = workers or int(os.environ.get("MC_WORKERS", str(min(8, os.cpu_count() or 1))))
    res = explore_all(scenarios, workers)
    tot = Recorder()
    per = {}
    for n, R in res.items():
        per[n] = {
            "executions": R.executions,
            "states": len(R.states),
            "calls": R.transitions,
            "comparisons": R.comparisons,
            "distinct_outcomes": len(R.outcomes),
        }
        if R.skipped:
            per[n]["pruned"] = R.skipped
        if R.extra:
            per[n]["counters"] = R.extra
        _merge(tot, R)
    samples = []
    for n, R in res.items():
        samples += R.samples[:2]
    findings = load_findings(pid)
    seen_known, new = {}, {}
    for v in tot.violations:
        if v["key"] in findings:
            seen_known[v["key"]] = v
        else:
            new.setdefault(v["key"], v)
    for k in findings:
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s [key=%s]" % (pid, findings[k], k))
    vio = []
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for i, (k, v) in enumerate(sorted(new.items(), key=lambda kv: len(kv[1]["choices"]))[: int(os.environ.get("MC_MAXV", "12"))]):
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (pid, i))
        v = dict(v, property=pid, tier=tier)
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        vio.append(path)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   key=%s scenario=%s: %s" % (k, v["scenario"], v["message"][:300]))
        for kk, vv in list(v["detail"].items())[: int(os.environ.get("MC_VERBOSE", "3"))]:
            print("     %s: %s" % (kk, vv[:200]))
    wall = time.time() - t0
    vac = [n for n, R in res.items() if R.comparisons == 0]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "states": len(tot.states),
            "transitions": tot.transitions,
            "traces_validated_against_impl": tot.traces,
            "comparisons_with_reference": tot.comparisons,
            "distinct_observed_outcomes": len(tot.outcomes),
            "scenarios": per,
            "bounds": bounds or {},
            "exhaustive": not tot.errors,
            "samples": samples[:12] or [{"scenario": "none"}],
        },
        "assumptions": list(assumptions),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        "%s [%s] states=%d transitions=%d traces=%d comparisons=%d outcomes=%d violations=%d known=%d %.1fs"
        % (pid, tier, len(tot.states), tot.transitions, tot.traces, tot.comparisons,
           len(tot.outcomes), len(new), len(seen_known), wall)
    )
    for e in tot.errors[:3]:
        print("HARNESS ERROR: %s" % e[-1500:])
    if new:
        return 1
    if tot.errors:
        return 3
    if vac:
        print("HARNESS: vacuous scenarios %s" % vac)
        return 3
    return 0


def replay(pid, scenarios, path):
    v = json.load(open(path))
    fn = dict(scenarios)[v["scenario"]]
    R = Recorder()
    ch = run_one(fn, v["choices"], R, v["scenario"])
    R2 = Recorder()
    ch2 = run_one(fn, v["choices"], R2, v["scenario"])
    if ch.choices != ch2.choices or [x["key"] for x in R.violations] != [x["key"] for x in R2.violations]:
        print("REPLAY DIVERGED")
        return 2
    for lab in ch.labels:
        print("  %-28s %s" % lab)
    for x in R.violations:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   %s: %s" % (x["key"], x["message"]))
        for kk, vv in x["detail"].items():
            print("     %s: %s" % (kk, vv))
    if not R.violations:
        print("no violation on this tree for %s" % path)
    return 1 if R.violations else 0
