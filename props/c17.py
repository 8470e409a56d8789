"""C17: interleaved analyses do not influence each other"""
import os
import tempfile

from mc import files, sched, session
from mc.core import Harness

TITLE = "Analyses running at the same time do not disturb each other"
STATEMENT = (
    "Whatever the interleaving of two calls of the numerical functions (two "
    "threads, or a callback that starts another analysis), each returns bit "
    "for bit what it returns when it runs alone. This also holds for two "
    "assemblies of the same or of different models and for element routines "
    "supplied by the user that call the package again.")
QUANTIFIER = dict(
    over=["schedules", "inputs"],
    text="all interleavings with one preemption at every executed line for "
         "pairs of workflows, all interleavings with two preemptions for "
         "pairs of element-level functions")
WHY = ("A shared buffer or cache is only observable under particular "
       "interleavings, which no sequential test produces.")
ANCHORS = dict(
    files=["solidspy/assemutil.py", "solidspy/femutil.py",
           "solidspy/uelutil.py", "solidspy/gaussutil.py",
           "solidspy/postprocesor.py", "solidspy/solutil.py"],
    mechanism=[dict(name="all numerical functions", where="solidspy/*.py")],
    observe_at=["return values of the interleaved calls"])
TECHNIQUE = ("stateless exploration of all schedules of two calls up to two "
             "preemptions with a controlled line-level scheduler")
LEVEL_NOTE = ("Preemption bound 1 (workflows) and 2 (element-level); lines "
              "(thorough: bytecodes) are atomic steps.")
ASSUMPTIONS = ["NumPy and SciPy calls are atomic steps"]

CAT = session.catalogue()
_STEPS = {}
_BASE = {}


def base():
    """Two folders with models for this process; removed with the scratch
    folder of the run"""
    me = os.getpid()
    if me not in _BASE:
        _BASE[me] = tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH"))
        for v in (0, 1):
            d = session._model(("quad4", "truss")[v], v)
            job = os.path.join(_BASE[me], "job%d" % v)
            os.mkdir(job)
            files.folder(job, d["nodes"], d["cons"], d["elements"],
                         d["mats"], d["loads"], "plain")
    return _BASE[me]


def _echo(m, v):
    d = session._model("truss", v)
    name = "echo%d" % v
    os.makedirs(name, exist_ok=True)
    m.preprocesor.echomod(d["nodes"], d["mats"], d["elements"], d["loads"],
                          folder=name)
    out = []
    for f in ("KNODES", "KMATES", "KELEMS", "KLOADS"):
        with open(os.path.join(name, f + ".txt")) as h:
            out.append(h.read())
    return out


def _supports(m, c, d):
    nodes = session.np.zeros((20, 5))
    return m.preprocesor.boundary_conditions(c, d, 1, nodes, -1, 0)


# calls that have files, or change their arguments on purpose
CAT.update({
    "boundary_conditions": (CAT["loading"][0], _supports),
    "readin": (lambda v: ["job%d" % v],
               lambda m, f: m.preprocesor.readin(f)),
    "echo": (lambda v: [v], _echo),
    "files": (lambda v: ["job%d" % v],
              lambda m, f: m.solids_GUI.solids_GUI(False, False, f)),
})


def call(m, name, v):
    inputs, fun = CAT[name]
    args = inputs(v)
    return lambda: session.freeze(fun(m, *args))


def alone(name, v, opcodes=False):
    """Number of steps and result, on a fresh package"""
    key = name, v, opcodes
    os.chdir(base())
    if key not in _STEPS:
        n = sched.count(call(session.fresh(), name, v), opcodes)
        _STEPS[key] = n, call(session.fresh(), name, v)()
    return _STEPS[key]


def judge(ctx, got, want, who, name):
    ctx.check(got == want, "result of an interleaved call differs",
              which=who, function=name)


def single(names, others, opcodes=False, deep=True):
    """others: all of them (deep), or the function itself and the first;
    None is the function itself"""
    ops = [(n, v) for n in names for v in ((0, 1) if deep else (0,))]

    def run(ctx):
        a = ctx.choose("first", ops)
        b = ctx.choose("second", [(n or a[0], 1) for n in (
            others if deep else [a[0], others[0]])])
        n, want_a = alone(*a, opcodes)
        _, want_b = alone(*b)
        k = 1 + ctx.choose("preempted at step", n)
        warm = ctx.choose("used before", [False, True] if deep else [True])
        m = session.fresh()
        if warm:
            call(m, *a)()
        res = sched.one_preemption(call(m, *a), call(m, *b), k, opcodes)
        ctx.visit(a, b, k, warm)
        judge(ctx, res[0], want_a, "preempted", a)
        judge(ctx, res[1], want_b, "preempting", b)
    return run


def double(pairs):
    def run(ctx):
        na, nb = ctx.choose("functions", pairs)
        a, b = (na, 0), (nb, 1)
        n, want_a = alone(*a)
        p, want_b = alone(*b)
        k = 1 + ctx.choose("first preempted at", n)
        j = 1 + ctx.choose("second preempted at", p)
        m = session.fresh()
        fa, fb = call(m, *a), call(m, *b)
        ra, rb, trail = sched.two_preemptions(fa, fb, k, j)
        ctx.visit(a, b, k, j)
        # the second call may have less steps after the first one started
        # (tables computed once), it then ends before its preemption
        ctx.check(trail in (["a", "b"], ["a"]), "schedule was not followed",
                  trail=trail)
        ctx.extra["second ended first"] = int(trail == ["a"])
        judge(ctx, ra, want_a, "first", a)
        judge(ctx, rb, want_b, "second", b)
    return run


def nested(ctx):
    """A user element that runs other functions of the package"""
    import numpy as np
    outer = ctx.choose("outer", ["sparse", "dense"])
    kind = ctx.choose("elements", ["quad4", "tri6"])
    inner = ctx.choose("called by the element", sorted(CAT))
    v = ctx.choose("values", [0, 1])
    inputs, _ = CAT["assemble %s sparse" % kind]
    elements, mats, nodes, neq, op = inputs(0)
    _, want = alone(inner, v)
    m = session.fresh()
    base = getattr(m.uelutil, "elast_" + kind)

    def uel(coord, params):
        keep = coord.copy(), np.array(params)
        got = call(m, inner, v)()
        judge(ctx, got, want, "inner", inner)
        ctx.check(np.array_equal(coord, keep[0]) and
                  np.array_equal(params, keep[1]),
                  "data of the element changed during the call")
        return base(coord, params)
    K, M = m.assemutil.assembler(elements, mats, nodes, neq, op,
                                 sparse=outer == "sparse", uel=uel)
    p = session.fresh()
    Kr, Mr = p.assemutil.assembler(elements, mats, nodes, neq, op,
                                   sparse=outer == "sparse")
    ctx.visit(outer, kind, inner, v)
    judge(ctx, session.freeze([K, M]), session.freeze([Kr, Mr]), "outer",
          outer)


FLOWS = ["assemble quad4 sparse", "assemble tri6 dense",
         "assemble truss sparse", "assemble frame dense", "auto tri3",
         "strains quad4", "strains tri6", "member stresses", "numbering",
         "loads", "complete", "principal", "bloch matrix", "retriever",
         "solve dense", "solve sparse", "rect_grid"]
ELEMENTS = ["elast_tri3", "elast_tri6", "elast_quad4", "elast_quad9",
            "elast_quad8", "elast_axi_quad9", "elast_tet4", "elast_hex8",
            "spring", "truss2D", "beam2DU", "beam2D", "str_el3", "str_el4",
            "str_el6", "str_el9", "elast_diff_2d", "elast_diff_axi",
            "elast_diff_3d", "jacoper", "elast_mat_2d", "elast_mat",
            "gauss_nd", "gauss_tri", "shape_quad4", "shape_quad8",
            "eigvals"]
REST = ["boundary_conditions", "loading", "ele_writer", "node_writer",
        "bloch numbers", "equations", "numbering frame", "energy",
        "triangulation", "readin", "echo", "files", "eletype", "gauss_1d",
        "gauss_tet", "shape_tri3", "shape_tri6", "shape_quad9",
        "shape_tet4", "shape_hex8", "elast_mat_axi", "umat"]
LONG = ["auto quad4", "auto tri6", "auto quad9", "auto truss", "auto spring",
        "assemble quad4 dense", "assemble tri6 sparse",
        "assemble truss dense", "assemble frame sparse", "strains tri3",
        "strains quad9"]
TWO = ["elast_tri3", "elast_quad4", "truss2D", "beam2D", "str_el3",
       "elast_diff_2d", "elast_diff_axi", "elast_mat_2d", "shape_quad4",
       "gauss_tri", "loads", "complete", "eigvals", "bloch matrix"]


def harnesses(tier):
    deep = tier == "thorough"
    out = [
        Harness("nested", nested, "user elements calling every function"),
        Harness("elements", single(
            ELEMENTS, ["elast_quad4", "elast_axi_quad9", "elast_hex8",
                       "beam2D", "str_el6", "elast_tri3", "gauss_nd",
                       "elast_diff_2d", None],
            deep=deep),
                "one preemption at every line of the element-level calls"),
        Harness("workflows", single(FLOWS, ["auto tri3"] + FLOWS[:5] + [None],
                                    deep=deep),
                "one preemption at every line of the workflow calls"),
        Harness("rest", single(REST + (LONG if deep else []),
                               [None] + FLOWS[:1]),
                "one preemption at every line of the other calls, files "
                "and relative folders"),
        Harness("same", double([(n, n) for n in (
            TWO if deep else [n for n in TWO[1:] if n != "elast_quad4"])]),
                "two preemptions, a function with itself"),
        Harness("two", double([(a, b) for a in TWO for b in TWO if a != b]
                              if deep else
                              [("str_el3", "elast_diff_2d"),
                               ("truss2D", "beam2D"), ("loads", "complete"),
                               ("elast_diff_2d", "elast_diff_axi")]),
                "two preemptions, different functions"),
    ]
    if deep:
        out.append(Harness("bytecodes", single(
            ["elast_tri3", "elast_quad4", "truss2D", "beam2D", "str_el3",
             "elast_diff_axi", "gauss_tri", "shape_quad9", "elast_mat_2d"],
            ["elast_quad4", "elast_tri3", "beam2D"], True),
            "one preemption at every bytecode"))
    return out
