"""Controlled interleavings of two calls at line (or bytecode) granularity.

A schedule with one preemption runs A up to its k-th step, then all of B,
then the rest of A.  A schedule with two preemptions runs A up to step k, B up
to step j, the rest of A, and the rest of B; it uses two threads that hand
over a baton, so only one of them ever runs.
"""
import os
import sys
import threading

WAIT = 100


def is_code(frame):
    return (os.sep + "solidspy" + os.sep) in frame.f_code.co_filename


class Tracer:
    """Calls act() at step k of the code under test in this thread"""

    def __init__(self, k, act, opcodes=False):
        self.k, self.act, self.opcodes = k, act, opcodes
        self.steps = 0

    def __call__(self, frame, event, arg):
        if not is_code(frame):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.steps += 1
            if self.steps == self.k:
                self.act()
        return self.local


def run(tracer, fun):
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return fun()
    finally:
        sys.settrace(old)


def count(fun, opcodes=False):
    tr = Tracer(-1, None, opcodes)
    run(tr, fun)
    return tr.steps


def one_preemption(a, b, k, opcodes=False):
    """A until step k, all of B, rest of A"""
    box = {}

    def act():
        box["b"] = b()
    res = run(Tracer(k, act, opcodes), a)
    if "b" not in box:
        box["b"] = b()
    return res, box["b"]


def two_preemptions(a, b, k, j):
    """A until k, B until j, rest of A, rest of B"""
    turn = {"a": threading.Event(), "b": threading.Event()}
    out, err = {}, {}
    trail = []

    def handover(me, other):
        trail.append(me)
        turn[other].set()
        if not turn[me].wait(WAIT):
            raise RuntimeError("baton lost")

    def body(me, other, fun, step):
        try:
            if not turn[me].wait(WAIT):
                raise RuntimeError("baton lost")
            turn[me].clear()

            def act():
                turn[me].clear()
                handover(me, other)
            out[me] = run(Tracer(step, act), fun)
        except BaseException as exc:
            err[me] = exc
        finally:
            turn[other].set()
    ta = threading.Thread(target=body, args=("a", "b", a, k))
    tb = threading.Thread(target=body, args=("b", "a", b, j))
    ta.start()
    tb.start()
    turn["a"].set()
    ta.join(WAIT)
    tb.join(WAIT)
    if ta.is_alive() or tb.is_alive():
        raise RuntimeError("a thread did not end")
    for exc in err.values():
        raise exc
    return out["a"], out["b"], trail
