"""Controlled execution of real threads: one runs at a time, switched only where the plan says.

A step is a source line (or a bytecode instruction) of the checked tree about to be
executed.  plan = [(thread, step, next thread), ...]: when `thread` is about to execute
its step number `step`, the baton goes to `next thread`.  A thread that ends passes the
baton to the lowest-numbered unfinished one.
"""

import sys
import threading

from .engine import REPO

_PREFIX = REPO + "/pure_"


def _traced(filename, _cache={}):
    r = _cache.get(filename)
    if r is None:
        r = _cache[filename] = filename.startswith(_PREFIX)
    return r


class Deadlock(Exception):
    pass


def call(fn):
    try:
        return ("ok", fn())
    except Exception as e:
        return ("raised", type(e).__name__, str(e))


def count_steps(fn, opcodes=False, at=None):
    """(outcome, number of steps) of a call alone; at(step, frame) is called at every step"""
    n = [0]
    want = "opcode" if opcodes else "line"

    def local(frame, event, arg):
        if event == want:
            n[0] += 1
            if at is not None:
                at(n[0], frame)
        return local

    def tracer(frame, event, arg):
        if _traced(frame.f_code.co_filename):
            if opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        r = call(fn)
    finally:
        sys.settrace(old)
    return r, n[0]


def run_plan(fns, plan, first=0, opcodes=False, timeout=60):
    """outcomes of the calls under the given schedule"""
    n = len(fns)
    sems = [threading.Semaphore(0) for _ in range(n)]
    done = [False] * n
    out = [None] * n
    plan = list(plan)
    want = "opcode" if opcodes else "line"
    main = threading.Semaphore(0)
    taken = []

    def handover(t):
        for i in range(n):
            if not done[i]:
                sems[i].release()
                return
        main.release()

    def body(t):
        if not sems[t].acquire(timeout=timeout):
            return
        steps = [0]

        def local(frame, event, arg):
            if event == want:
                steps[0] += 1
                if plan and plan[0][0] == t and plan[0][1] == steps[0]:
                    nxt = plan.pop(0)[2]
                    taken.append((t, steps[0], nxt))
                    if not any(p[0] == t for p in plan):
                        sys.settrace(None)
                    if not done[nxt]:
                        sems[nxt].release()
                        sems[t].acquire(timeout=timeout)
                    if not any(p[0] == t for p in plan):
                        frame.f_trace = None
                        return None
            return local

        def tracer(frame, event, arg):
            if _traced(frame.f_code.co_filename):
                if opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        if any(p[0] == t for p in plan):
            sys.settrace(tracer)
        try:
            out[t] = call(fns[t])
        finally:
            sys.settrace(None)
            done[t] = True
            handover(t)

    threads = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
    for th in threads:
        th.start()
    sems[first].release()
    if not main.acquire(timeout=timeout):
        raise Deadlock("schedule did not complete")
    for th in threads:
        th.join()
    return out, taken


class Cut(BaseException):
    """an interruption nobody handles, such as KeyboardInterrupt"""


def interrupted(fn, k, exc, opcodes=False):
    """run a call and raise exc just before its step number k; (outcome, was it reached)"""
    want = "opcode" if opcodes else "line"
    n = [0]

    def local(frame, event, arg):
        if event == want and n[0] < k:
            n[0] += 1
            if n[0] == k:
                raise exc()
        return local if n[0] < k else None

    def tracer(frame, event, arg):
        if n[0] < k and _traced(frame.f_code.co_filename):
            if opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        r = ("ok", fn())
    except Cut:
        r = ("cut",)
    except Exception as e:
        r = ("raised", type(e).__name__, str(e))
    finally:
        sys.settrace(old)
    return r, n[0] >= k
