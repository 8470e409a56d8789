"""C16: results do not depend on the history of the session"""
import contextlib
import io

import numpy as np

from mc import session
from mc.core import Harness

TITLE = "Results depend on the arguments only, never on earlier calls"
STATEMENT = (
    "Every numerical function returns, bit for bit, what it returns as the "
    "first call in a new session, whatever was called before, whatever the "
    "caller did with earlier results and even if the same arrays are reused "
    "for other values. No function modifies the arrays or tables it is given "
    "(except the nodal table that boundary_conditions is asked to modify), "
    "earlier results, or global state. The memory layout and the "
    "writability of the inputs do not change the results.")
QUANTIFIER = dict(
    over=["histories", "inputs"],
    text="all sequences of calls up to a depth from a catalogue of all "
         "numerical functions with two sets of values, with and without "
         "overwriting of earlier results and inputs")
WHY = ("Each test calls a function once or twice; caches, shared buffers and "
       "in-place changes only show for particular sequences of calls.")
ANCHORS = dict(
    files=["solidspy/assemutil.py", "solidspy/femutil.py",
           "solidspy/uelutil.py", "solidspy/gaussutil.py",
           "solidspy/postprocesor.py", "solidspy/solutil.py",
           "solidspy/blochutil.py", "solidspy/preprocesor.py"],
    mechanism=[dict(name="all numerical functions", where="solidspy/*.py")],
    observe_at=["return values and arguments of the public functions"])
TECHNIQUE = ("explicit-state enumeration of all call sequences up to a depth, "
             "each executed on a freshly imported package")
LEVEL_NOTE = ("Exhaustive over sequences of the catalogue within the depth; "
              "plotting functions are not part of the catalogue (see C30).")
ASSUMPTIONS = ["a new import of the package stands for a new session"]

CAT = session.catalogue()
_BASE = {}


def baseline(name, v):
    if (name, v) not in _BASE:
        m = session.fresh()
        inputs, call = CAT[name]
        with contextlib.redirect_stdout(io.StringIO()):
            _BASE[name, v] = session.freeze(call(m, *inputs(v)))
    return _BASE[name, v]


def run_one(ctx, m, name, v, args=None):
    inputs, call = CAT[name]
    if args is None:
        args = inputs(v)
    keep = session.freeze(args)
    with session.unusual() as env:
        res = call(m, *args)
        same = session.environment() == env
    ctx.check(session.freeze(args) == keep, "inputs were modified",
              function=name)
    ctx.check(same, "global state was changed", function=name)
    frozen = session.freeze(res)
    ctx.check(frozen == baseline(name, v), "result differs from the one in a "
              "new session", function=name, values=v, got=res)
    return args, res, frozen


def sequences(names, depth, interference):
    ops = [(n, v) for n in names for v in (0, 1)]
    for n, v in ops:
        baseline(n, v)

    def run(ctx):
        seq = [ctx.choose("call %d" % k, ops) for k in range(depth)]
        how = ctx.choose("meanwhile", interference)
        ctx.visit(seq, how)
        m = session.fresh()
        past = []
        for name, v in seq:
            args, res, frozen = run_one(ctx, m, name, v)
            if how == "overwrite":
                session.scribble(res)
                session.scribble(args)
            past.append((name, res, frozen))
        if how != "overwrite":
            for name, res, frozen in past:
                ctx.check(session.freeze(res) == frozen, "an earlier result "
                          "was changed by a later call", function=name)
    return run


def reuse(ctx):
    """The caller keeps its arrays and writes other values in them"""
    name = ctx.choose("function", list(CAT))
    order = ctx.choose("values", [(0, 1), (1, 0), (0, 1, 0), (1, 0, 1)])
    inputs, call = CAT[name]
    m = session.fresh()
    args = inputs(order[0])
    ctx.visit(name, order)
    results = []
    for v in order:
        new = inputs(v)
        mine, other = session.arrays(args), session.arrays(new)
        shapes = [a.shape for a in mine] == [a.shape for a in other]
        ctx.require(shapes)
        for a, b in zip(mine, other):
            a[...] = b
        # what is not an array cannot be overwritten
        def merge(x, y):
            if isinstance(x, np.ndarray):
                return x
            if isinstance(x, dict):
                return {k: merge(x[k], y[k]) for k in y}
            if isinstance(x, list) and any(isinstance(e, (np.ndarray, dict))
                                           for e in x):
                return [merge(p, q) for p, q in zip(x, y)]
            return y
        args = merge(args, new)
        _, res, frozen = run_one(ctx, m, name, v, args)
        results.append((res, frozen))
    for res, frozen in results:
        ctx.check(session.freeze(res) == frozen, "an earlier result was "
                  "changed by a later call", function=name)


def layouts(ctx):
    name = ctx.choose("function", list(CAT))
    v = ctx.choose("values", [0, 1])
    how = ctx.choose("layout", ["read only", "Fortran", "strided", "reversed",
                                "big endian"])
    inputs, call = CAT[name]

    def conv(x):
        if isinstance(x, np.ndarray):
            if how == "read only":
                x.flags.writeable = False
                return x
            if how == "Fortran":
                return np.asfortranarray(x)
            if how == "big endian":
                return x.astype(x.dtype.newbyteorder(">"))
            if how == "reversed":
                idx = (slice(None, None, -1),)*x.ndim
                return x[idx].copy()[idx]
            big = np.full([2*s + 1 for s in x.shape], 5, dtype=x.dtype)
            view = big[tuple(slice(0, 2*s, 2) for s in x.shape)]
            view[...] = x
            return view
        if isinstance(x, dict):
            return {k: conv(y) for k, y in x.items()}
        if isinstance(x, list) and any(isinstance(e, (np.ndarray, dict))
                                       for e in x):
            return [conv(y) for y in x]
        return x
    m = session.fresh()
    args = conv(inputs(v))
    if how == "big endian":      # sparse solvers need native numbers
        ctx.require(name != "solve sparse")
    keep = session.freeze(args)
    res = call(m, *args)
    ctx.check(session.freeze(args) == keep, "inputs were modified",
              function=name)
    want = CAT[name][1](session.fresh(), *inputs(v))
    ctx.visit(name, v, how)
    a, b = session.arrays(res), session.arrays(want)
    ctx.check(len(a) == len(b), "results")
    for x, y in zip(a, b):
        y = np.asarray(y)
        ctx.check(np.array_equal(np.isnan(x), np.isnan(y)), "nan")
        ctx.close(np.nan_to_num(x), np.nan_to_num(y), "result depends on "
                  "the memory layout", tol=1e-12, function=name)


def attempt(call, m, args):
    try:
        return session.freeze(call(m, *args))
    except Exception as exc:
        return type(exc).__name__


def neighbours(ctx):
    """Inputs that are nearly equal, or equal up to the order, are not
    confused with each other"""
    name = ctx.choose("function", list(CAT))
    how = ctx.choose("change", ["1e-9 everywhere", "1e-9 first", "1e-9 last",
                                "1e-4 everywhere", "swap rows",
                                "negative zero", "other type"])
    inputs, call = CAT[name]

    def change():
        args = inputs(0)
        found = False
        for k, a in enumerate(session.arrays(args)):
            if a.dtype.kind == "i":
                if how == "swap rows" and a.ndim == 2 and len(a) > 1:
                    a[[0, 1]] = a[[1, 0]]
                    found = True
                continue
            if a.dtype.kind != "f" or not a.size:
                continue
            if how.endswith("everywhere"):
                a *= 1 + float(how.split()[0])
            elif how == "1e-9 first":
                a.flat[0] += 1e-9
            elif how == "1e-9 last":
                a.flat[-1] += 1e-9
            elif how == "swap rows":
                if a.ndim == 2 and len(a) > 1:
                    a[[0, 1]] = a[[1, 0]]
                else:
                    continue
            else:
                continue
            found = True
        args = [x + 1e-9 if isinstance(x, float) and how.startswith("1e")
                else x for x in args]
        found = found or any(isinstance(x, float) for x in args)
        if how == "negative zero":
            args = [-x if isinstance(x, float) else x for x in args]
        if how == "other type":
            args = [np.float32(x) if isinstance(x, float) else
                    (x.astype(np.float32) if isinstance(x, np.ndarray) and
                     x.dtype.kind == "f" else x) for x in args]
        return args, found
    other, found = change()
    ctx.require(found or how == "other type")
    want = attempt(call, session.fresh(), change()[0])
    base = attempt(call, session.fresh(), inputs(0))
    ctx.visit(name, how)
    m = session.fresh()
    ctx.check(attempt(call, m, inputs(0)) == base, "not reproducible",
              function=name)
    ctx.check(attempt(call, m, other) == want, "result for similar inputs",
              function=name)
    ctx.check(attempt(call, m, inputs(0)) == base, "first result again",
              function=name)


WRONG = ["type", "material", "node", "turned", "collapsed", "order",
         "matrix"]


def spoil(args, how):
    """The inputs of a request that has to be refused"""
    done = False
    args = list(args)
    for k, a in enumerate(args):
        table = isinstance(a, np.ndarray) and a.ndim == 2
        if table and a.dtype.kind == "i" and a.shape[1] > 4:
            if how == "type":
                a[-1, 1] = 77
            elif how == "material":
                a[-1, 2] = 99
            elif how == "node":
                a[-1, -1] = 9999
            elif how == "turned":
                a[-1, 3:] = a[-1, :2:-1]
            else:
                continue
            done = True
        elif isinstance(a, dict) and "elements" in a:
            sub, ok = spoil([a["elements"]], how)
            a["elements"] = sub[0]
            done = done or ok
        elif table and a.dtype.kind == "f" and a.shape[1] in (2, 3) and \
                how in ("turned", "collapsed"):
            a[:] = a[::-1].copy() if how == "turned" else 1.
            done = True
        elif isinstance(a, int) and how == "order":
            args[k] = 99
            done = True
        elif how == "matrix" and (table or hasattr(a, "tocsr")):
            args[k] = "matrix"
            done = True
    return args, done


def failures(ctx):
    """A request that is refused leaves nothing behind"""
    bad = ctx.choose("refused", list(CAT))
    how = ctx.choose("because of", WRONG)
    good = ctx.choose("then", [bad] + [n for n in HEAVY + SMALL if n != bad])
    inputs, call = CAT[bad]
    m = session.fresh()
    args, done = spoil(inputs(1), how)
    ctx.require(done)
    keep = session.freeze(args)
    with session.unusual() as env:
        try:
            call(m, *args)
            refused = False
        except Exception:
            refused = True
        same = session.environment() == env
    ctx.require(refused)
    ctx.visit(bad, how, good)
    ctx.check(same, "global state was changed", function=bad)
    ctx.check(session.freeze(args) == keep, "inputs were modified",
              function=bad)
    run_one(ctx, m, good, 0)


def repetition(ctx):
    name = ctx.choose("function", list(CAT))
    n = ctx.choose("calls", [3, 20, 140])
    m = session.fresh()
    ctx.visit(name, n)
    for k in range(n):
        run_one(ctx, m, name, 0)
    run_one(ctx, m, name, 1)
    run_one(ctx, m, name, 0)


HEAVY = ["auto quad4", "auto tri3", "auto tri6", "auto quad9", "auto truss",
         "assemble quad4 sparse", "assemble tri6 dense",
         "assemble frame sparse", "numbering", "numbering frame", "loads",
         "strains quad4", "strains tri6", "member stresses", "principal"]
SMALL = ["elast_quad4", "elast_quad9", "elast_tri6", "elast_axi_quad9",
         "elast_hex8", "elast_tet4", "truss2D", "beam2D", "beam2DU",
         "shape_quad4", "shape_quad8", "str_el4", "gauss_nd", "gauss_tri",
         "elast_diff_2d", "elast_mat", "umat", "bloch matrix"]


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("reuse", reuse, "every function, reused arrays"),
        Harness("layouts", layouts, "every function, 5 memory layouts"),
        Harness("neighbours", neighbours, "every function, similar inputs"),
        Harness("repetition", repetition, "every function, up to 140 calls"),
        Harness("failures", failures, "every function, 7 kinds of requests "
                "that are refused, followed by a valid call of each of %d "
                "functions" % len(HEAVY + SMALL)),
        Harness("pairs", sequences(list(CAT), 2, ["keep", "overwrite"]),
                "all sequences of 2 calls of the whole catalogue (%d "
                "functions x 2 values)" % len(CAT)),
        Harness("workflows", sequences(HEAVY if deep else HEAVY[::2], 3,
                                       ["keep", "overwrite"]),
                "all sequences of 3 workflow calls"),
        Harness("elements", sequences(SMALL if deep else SMALL[::2], 3,
                                      ["keep", "overwrite"]),
                "all sequences of 3 element-level calls"),
    ]
