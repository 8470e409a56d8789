"""Exhaustive explorer used by every check.

A *harness* is a Python function ``h(ctx)`` that drives the real code of
/repo.  Everything the harness may decide (an input, the next operation, the
place of a preemption, the answer of the environment) is decided through
``ctx.choose``; the explorer replays the harness once for every complete
sequence of choices (depth first, stateless, no sampling and no cap), so the
explored space is the full choice tree.  ``ctx.check``/``ctx.close`` compare
the observation with the oracle.

A run is partitioned over the CPU cores by enumerating all choice prefixes of
a given depth first; every prefix is then explored completely by one worker.
"""
import contextlib
import hashlib
import io
import json
import multiprocessing
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

EXEC_TIMEOUT = 150     # s, per execution: a run that does not end is a failure


class Prune(Exception):
    """The chosen input is outside of the domain of the property"""


class Cut(Exception):
    """Partition depth reached"""


class Violated(Exception):
    def __init__(self, msg, key=None, detail=None):
        super().__init__(msg)
        self.msg, self.key, self.detail = msg, key, detail


class Divergence(Exception):
    """A replayed prefix offered other choices: harness not deterministic"""


class Timeout(Exception):
    pass


def canon(obj, digits=None):
    """Bytes that identify an observation or an input"""
    if isinstance(obj, np.ndarray):
        if digits is not None and obj.dtype.kind in "fc":
            scale = np.nanmax(np.abs(obj)) if obj.size else 0
            if scale and np.isfinite(scale):
                obj = np.round(obj/scale, digits) + 0.0
                return (b"a" + str(obj.shape).encode() + b"%.5e" % scale
                        + obj.tobytes())
        return b"a" + str((obj.shape, obj.dtype.str)).encode() + obj.tobytes()
    if isinstance(obj, dict):
        return b"d" + b"|".join(canon(k, digits) + b":" + canon(v, digits)
                                for k, v in sorted(obj.items(), key=repr))
    if isinstance(obj, (list, tuple)):
        return b"l(" + b",".join(canon(x, digits) for x in obj) + b")"
    if isinstance(obj, (float, np.floating)) and digits is not None:
        return b"f%.*e" % (digits, float(obj))
    return repr(obj).encode()


def digest(obj, digits=None):
    return hashlib.blake2b(canon(obj, digits), digest_size=8).digest()


def show(obj, limit=400):
    if isinstance(obj, np.ndarray):
        txt = np.array2string(obj, threshold=60, precision=8,
                              separator=", ").replace("\n", " ")
    else:
        txt = repr(obj)
    return txt if len(txt) <= limit else txt[:limit] + "..."


class Ctx:
    def __init__(self, prefix, cut=None, stats=None):
        self.prefix, self.cut = prefix, cut
        self.trail = []           # (name, index, number of options, option)
        self.stats = stats
        self.states = set()
        self.outcomes = set()
        self.extra = {}

    # -- nondeterminism ----------------------------------------------------
    def choose(self, name, options):
        k = len(self.trail)
        if self.cut is not None and k >= self.cut:
            raise Cut()
        if isinstance(options, int):
            options = range(options)
        n = len(options)
        if n == 0:
            raise Prune("no option for " + name)
        idx = self.prefix[k] if k < len(self.prefix) else 0
        if idx >= n:
            raise Divergence("%s: choice %d of %d" % (name, idx, n))
        self.trail.append((name, idx, n, options[idx]))
        return options[idx]

    def require(self, cond, why="outside of the domain"):
        if not cond:
            raise Prune(why)

    # -- bookkeeping -------------------------------------------------------
    def visit(self, *model):
        """A state of the model under exploration was reached"""
        self.states.add(digest(model))

    def outcome(self, *obs):
        self.outcomes.add(digest(obs, digits=6))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # -- oracle ------------------------------------------------------------
    def fail(self, msg, key=None, **detail):
        raise Violated(msg, key, {k: show(v) for k, v in detail.items()})

    def check(self, cond, msg, key=None, **detail):
        if not bool(cond):
            self.fail(msg, key, **detail)

    def close(self, got, want, msg, tol=1e-8, scale=None, key=None, **detail):
        """max|got - want| <= tol*scale, scale defaults to max|want|"""
        if hasattr(got, "toarray"):
            got = got.toarray()
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.fail(msg + " (shape)", key, got=got.shape, want=want.shape,
                      **detail)
        if not want.size:
            return
        if got.dtype.kind not in "iufcb":
            self.fail(msg + " (dtype)", key, got=str(got.dtype), **detail)
        if scale is None:
            scale = np.max(np.abs(want))
        err = np.max(np.abs(got - want))
        if not err <= tol*scale + 1e-300:
            self.fail(msg, key, got=got, want=want, error=float(err),
                      allowed=float(tol*scale), **detail)

    def same(self, got, want, msg, key=None, **detail):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape or not np.array_equal(got, want):
            self.fail(msg, key, got=got, want=want, **detail)

    def raises(self, excs, fun, msg, key=None, **detail):
        try:
            res = fun()
        except excs as exc:
            return exc
        except (Timeout, Prune, Cut, Divergence):
            raise
        except BaseException as exc:
            self.fail(msg + " (raised %s: %s)" % (type(exc).__name__, exc),
                      key, **detail)
        self.fail(msg + " (nothing raised)", key, result=res, **detail)


class Harness:
    def __init__(self, name, fun, bounds):
        self.name, self.fun, self.bounds = name, fun, bounds


def _alarm(signum, frame):
    raise Timeout("execution exceeded %d s" % EXEC_TIMEOUT)


@contextlib.contextmanager
def _quiet():
    out = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(out):
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            yield out


def execute(harness, prefix, cut=None):
    """One execution.  Returns (ctx, verdict); verdict is None, 'pruned',
    'cut' or a dict describing the violation"""
    ctx = Ctx(prefix, cut)
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(EXEC_TIMEOUT)
        with _quiet():
            harness.fun(ctx)
        return ctx, None
    except Prune:
        return ctx, "pruned"
    except Cut:
        return ctx, "cut"
    except Divergence:
        raise
    except Violated as exc:
        return ctx, dict(msg=exc.msg, key=exc.key, detail=exc.detail)
    except Timeout as exc:
        return ctx, dict(msg=str(exc), key=None, detail={})
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as exc:
        # An input of the domain must be processed: an exception of the code
        # under test (or an unusable return value) is a failure of the
        # property, not of the check.
        return ctx, dict(msg="unexpected %s: %s" % (type(exc).__name__, exc),
                         key="exception",
                         detail=dict(traceback=traceback.format_exc()[-1500:]))
    finally:
        signal.alarm(0)


def advance(trail, base):
    """Next prefix in depth-first order, None at the end"""
    k = len(trail) - 1
    while k >= base:
        name, idx, n, _ = trail[k]
        if idx + 1 < n:
            return [t[1] for t in trail[:k]] + [idx + 1]
        k -= 1
    return None


def describe(trail):
    return [[t[0], t[1], t[2], show(t[3], 200)] for t in trail]


def record(harness, ctx, verdict):
    verdict["harness"] = harness.name
    verdict["choices"] = [t[1] for t in ctx.trail]
    verdict["trail"] = describe(ctx.trail)
    return verdict


def explore_prefix(harness, prefix, known=()):
    res = dict(execs=0, pruned=0, transitions=0, violations=[], known=[],
               states=set(), outcomes=set(), extra={}, maxdepth=0,
               samples=[])
    base = len(prefix)
    cur, shared = list(prefix), base
    last = None
    while cur is not None:
        ctx, verdict = execute(harness, cur)
        trail = ctx.trail
        failed = isinstance(verdict, dict) and verdict["key"] not in known
        if not failed and last is not None and [(t[0], t[2]) for t in trail[:len(cur)]] != \
                [(t[0], t[2]) for t in last[:len(cur)]]:
            raise Divergence("harness %s" % harness.name)
        last = trail
        res["transitions"] += len(trail) - shared
        res["maxdepth"] = max(res["maxdepth"], len(trail))
        if verdict == "pruned":
            res["pruned"] += 1
        else:
            res["execs"] += 1
            res["states"] |= ctx.states
            res["outcomes"] |= ctx.outcomes
            if len(res["samples"]) < 1:
                res["samples"].append(describe(trail))
            for k, v in ctx.extra.items():
                res["extra"][k] = res["extra"].get(k, 0) + v
            if verdict is not None:
                record(harness, ctx, verdict)
                if verdict["key"] in known:
                    res["known"].append(verdict["key"])
                else:
                    res["violations"].append(verdict)
                    return res
        cur = advance(trail, base)
        if cur is not None:
            shared = len(cur) - 1
    return res


_WORK = {}


def _worker(conn):
    """Explores the prefixes of the chunks that the parent sends"""
    harness, known = _WORK["harness"], _WORK["known"]
    while True:
        job = conn.recv()
        if job is None:
            break
        num, chunk = job
        out = []
        try:
            for prefix in chunk:
                out.append(explore_prefix(harness, prefix, known))
                if out[-1]["violations"]:
                    break
        except BaseException:
            conn.send((num, None, traceback.format_exc()))
            break
        conn.send((num, out, None))
    conn.close()
    os._exit(0)


def _distribute(chunks, jobs, merge):
    """Every worker has a pipe of its own and shares no lock with the others,
    so that it can be killed at any time.  Results are merged in the order of
    the chunks; nothing is started behind a violation."""
    mp = multiprocessing.get_context("fork")
    workers = {}
    done, sent, merged, stop = {}, 0, 0, len(chunks)
    try:
        for _ in range(min(jobs, len(chunks))):
            here, there = mp.Pipe()
            proc = mp.Process(target=_worker, args=(there,), daemon=True)
            proc.start()
            there.close()
            workers[here] = proc
        for conn in workers:
            conn.send((sent, chunks[sent]))
            sent += 1
        while merged < stop:
            for conn in multiprocessing.connection.wait(list(workers)):
                try:
                    num, out, err = conn.recv()
                except EOFError:
                    raise RuntimeError("a worker process died")
                if err:
                    raise RuntimeError("worker failed:\n" + err)
                done[num] = out
                if out[-1]["violations"]:
                    stop = min(stop, num + 1)
                if sent < stop:
                    conn.send((sent, chunks[sent]))
                    sent += 1
            while merged < stop and merged in done:
                for res in done.pop(merged):
                    merge(res)
                merged += 1
    finally:
        for conn, proc in workers.items():
            proc.kill()
            conn.close()
        for proc in workers.values():
            proc.join()


def split_prefixes(harness, wanted, known=()):
    """Prefixes that partition the tree, at the first depth with enough of
    them.  An execution that fails on the way to that depth is the only
    prefix: its failure may depend on what this process did before"""
    depth = 1
    while True:
        out, cur, cuts = [], [], 0
        while cur is not None:
            ctx, verdict = execute(harness, cur, cut=depth)
            if isinstance(verdict, dict) and verdict["key"] not in known:
                return record(harness, ctx, verdict), 0
            cuts += verdict == "cut"
            out.append([t[1] for t in ctx.trail])
            cur = advance(ctx.trail, 0)
        if len(out) >= wanted or not cuts:
            break
        depth += 1
    # number of tree edges above (and including) the partition depth
    edges = len({tuple(p[:i + 1]) for p in out for i in range(len(p))})
    return out, edges


def explore(harness, known=(), jobs=None):
    """Explore the complete choice tree of a harness"""
    t0 = time.time()
    jobs = jobs or min(8, os.cpu_count() or 1)
    prefixes, edges = split_prefixes(harness, jobs*8 if jobs > 1 else 1,
                                     known)
    _WORK.update(harness=harness, known=known)
    tot = dict(harness=harness.name, bounds=harness.bounds, execs=0, pruned=0,
               transitions=edges, violations=[], known=[], states=set(),
               outcomes=set(), extra={}, maxdepth=0, samples=[])

    def merge(res):
        for k in ("execs", "pruned", "transitions"):
            tot[k] += res[k]
        for k in ("violations", "known", "samples"):
            tot[k] += res[k]
        for k in ("states", "outcomes"):
            tot[k] |= res[k]
        for k, v in res["extra"].items():
            tot["extra"][k] = tot["extra"].get(k, 0) + v
        tot["maxdepth"] = max(tot["maxdepth"], res["maxdepth"])

    if isinstance(prefixes, dict):
        tot["violations"].append(prefixes)
    elif len(prefixes) == 1 or jobs == 1:
        for p in prefixes:
            res = explore_prefix(harness, p, known)
            merge(res)
            if res["violations"]:
                break
    else:
        size = max(1, min(16, len(prefixes)//(jobs*16)))
        _distribute([prefixes[k:k + size]
                     for k in range(0, len(prefixes), size)], jobs, merge)
    tot["wall_s"] = round(time.time() - t0, 2)
    return tot


def replay(harness, choices):
    try:
        return execute(harness, choices)
    except Divergence as exc:
        return Ctx([], None), "not reproduced: %s" % exc
