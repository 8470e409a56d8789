"""C14: invalid requests are refused"""
import os
import shutil
import tempfile

import numpy as np
from scipy import sparse

import solidspy.assemutil as ass
import solidspy.femutil as fem
import solidspy.gaussutil as gau
import solidspy.postprocesor as pos
import solidspy.preprocesor as pre
import solidspy.solutil as sol
from solidspy.solids_GUI import solids_auto, solids_GUI
from mc import models, ref
from mc.core import Harness

TITLE = "Invalid requests are refused with an error, not answered"
STATEMENT = (
    "Unknown element types, quadrature orders outside of the tables, "
    "unsupported matrix types, missing input files, and nodes or materials "
    "after the end of their tables are refused with the "
    "documented exception (ValueError, TypeError, IndexError, or the error "
    "of the file system) in every entry point, never answered with a "
    "default. All requests inside of the documented ranges are answered, "
    "also after any number of refused ones.")
QUANTIFIER = dict(
    over=["inputs", "histories"],
    text="all element types and orders from -5 to 400 and values of other "
         "types, all matrix types, places of the bad row in a table, "
         "missing files, and sequences of refused and valid requests")
WHY = ("Tests try one invalid value per routine, if any; a table lookup "
       "that wraps around, a default or a partial match answers others.")
ANCHORS = dict(
    files=["solidspy/femutil.py", "solidspy/assemutil.py",
           "solidspy/gaussutil.py", "solidspy/solutil.py",
           "solidspy/preprocesor.py"],
    mechanism=[dict(name="eletype", where="femutil.py"),
               dict(name="ele_fun", where="assemutil.py"),
               dict(name="gauss_1d, gauss_tri, gauss_tet",
                    where="gaussutil.py"),
               dict(name="static_sol", where="solutil.py")],
    observe_at=["exceptions of the public functions"])
TECHNIQUE = ("exhaustive enumeration of requests and of short histories of "
             "requests on the real code")
LEVEL_NOTE = "Exhaustive over the stated values and histories."

NODES = {1: (8, 4, 4), 2: (12, 6, 7), 3: (6, 3, 3), 4: (18, 9, 9),
         5: (4, 2, 3), 6: (4, 2, 3), 7: (6, 2, 3), 8: (6, 2, 3)}
ODD = [None, "1", "quad4", 2.5, -0.5, (1,), np.nan, float("inf"), 1.5]


def types(limit):
    vals = list(range(-5, limit)) + ODD

    def run(ctx):
        et = ctx.choose("element type", vals)
        how = ctx.choose("number", ["int", "numpy int64", "numpy int32"])
        if isinstance(et, int):
            val = {"int": int, "numpy int64": np.int64,
                   "numpy int32": np.int32}[how](et)
        else:
            ctx.require(how == "int")
            val = et
        ctx.visit(repr(et), how)
        if isinstance(et, int) and et in NODES:
            got = fem.eletype(val)
            ctx.check(tuple(got) == NODES[et], "element data", got=got)
            nd, nn, _ = NODES[et]
            coord = (ref.nat_nodes(ref.NAMES[et]) if et <= 4 else
                     np.array([[0., 0], [3, 4]]))
            params = np.array([5., .3, 2., 4.][:3 if et <= 4 else 4])
            K, M = ass.ele_fun(val)(coord, params)
            Kr, Mr = ref.element(et, coord, params)
            ctx.close(K, Kr, "routine for the type")
            ctx.close(M, Mr, "routine for the type", scale=max(
                np.abs(Mr).max(), 1e-30))
        else:
            ctx.raises(ValueError, lambda: fem.eletype(val),
                       "unknown element type accepted", type=val)
            ctx.raises(ValueError, lambda: ass.ele_fun(val),
                       "unknown element type accepted", type=val)
        ctx.outcome(isinstance(et, int) and et in NODES)
    return run


def orders(ctx):
    vals = list(range(-12, 40)) + [100, 200] + ODD + [3.5, "2", "three"]
    rule = ctx.choose("rule", ["gauss_1d", "gauss_nd", "gauss_tri",
                               "gauss_tet"])
    n = ctx.choose("value", vals)
    lo, hi = {"gauss_1d": (2, 10), "gauss_nd": (2, 10),
              "gauss_tri": (1, 7), "gauss_tet": (1, 10)}[rule]
    ctx.visit(rule, repr(n))
    if isinstance(n, int) and lo <= n <= hi:
        p, w = getattr(gau, rule)(n)
        ctx.check(len(p) == len(w) > 0, "rule")
        measure = {"gauss_1d": 2., "gauss_nd": 4.}.get(rule, 1.)
        ctx.close(np.sum(w), measure, "weights", tol=1e-11)
    else:
        if rule == "gauss_nd" and ctx.choose("dimensions", [2, 3]) == 3:
            ctx.raises(ValueError, lambda: gau.gauss_nd(n, ndim=3),
                       "order outside of the table accepted")
        ctx.raises(ValueError, lambda: getattr(gau, rule)(n),
                   "order outside of the table accepted", value=n)


def tables(ctx):
    """An unknown type in any row of a table, in every workflow"""
    kind = ctx.choose("element", ["quad4", "tri3", "truss"])
    if kind == "truss":
        pts, conn = models.truss_square()
        et = 6
    else:
        pts, conn = models.grid(kind, 3, 2)
        et = models.ETYPE[kind]
    row = ctx.choose("bad row", range(-1, len(conn)))
    bad = ctx.choose("type", [0, -1, 9, 10, 55, 256 + et, 100000])
    flow = ctx.choose("workflow", ["DME", "sparse", "dense", "retriever",
                                   "automatic"])
    nodes, elements = models.tables(pts, conn, et)
    cons = np.zeros((len(pts), 2), dtype=int)
    cons[:2] = -1
    mats = np.array([[3., .3]])
    loads = np.array([[len(pts) - 1, 1., 1.]])
    op, bc, neq = ass.DME(cons, elements)
    if row >= 0:
        elements[row, 1] = bad
    fun = {"DME": lambda: ass.DME(cons, elements),
           "sparse": lambda: ass.assembler(elements, mats, nodes, neq, op),
           "dense": lambda: ass.assembler(elements, mats, nodes, neq, op,
                                          sparse=False),
           "retriever": lambda: ass.retriever(elements, mats, nodes,
                                              max(row, 0)),
           "automatic": lambda: solids_auto(
               dict(nodes=nodes, cons=cons, elements=elements, mats=mats,
                    loads=loads), plot_contours=False)}[flow]
    ctx.visit(kind, row, bad, flow)
    if row < 0:
        fun()
    else:
        ctx.raises(ValueError, fun, "unknown element type accepted")


MATS = {
    "ndarray": lambda A: A,
    "csr_matrix": sparse.csr_matrix,
    "list": lambda A: A.tolist(),
    "tuple": lambda A: tuple(map(tuple, A)),
    "csc_matrix": sparse.csc_matrix,
    "coo_matrix": sparse.coo_matrix,
    "lil_matrix": sparse.lil_matrix,
    "dok_matrix": sparse.dok_matrix,
    "dia_matrix": sparse.dia_matrix,
    "bsr_matrix": sparse.bsr_matrix,
    "scalar": lambda A: 3.0,
    "int": lambda A: 3,
    "None": lambda A: None,
    "string": lambda A: "matrix",
    "dict": lambda A: {0: A},
    "function": lambda A: (lambda x: A @ x),
}


def matrices(ctx):
    kind = ctx.choose("matrix type", list(MATS))
    n = ctx.choose("size", [1, 2, 5])
    hist = ctx.choose("refused before", [0, 1, 3])
    A = 3*np.eye(n) + np.diag(np.ones(n - 1), 1)
    b = np.arange(1., n + 1)
    for _ in range(hist):
        ctx.raises(TypeError, lambda: sol.static_sol(A.tolist(), b),
                   "unsupported matrix accepted")
    ctx.visit(kind, n, hist)
    if kind in ("ndarray", "csr_matrix"):
        x = sol.static_sol(MATS[kind](A), b)
        ctx.close(A @ x, b, "solution")
    else:
        ctx.raises(TypeError, lambda: sol.static_sol(MATS[kind](A), b),
                   "unsupported matrix accepted")


FILES = ["nodes.txt", "mater.txt", "eles.txt", "loads.txt"]


def files(ctx):
    """Every set of missing input files"""
    bits = ctx.choose("missing files", 16)
    flow = ctx.choose("workflow", ["readin", "solids_GUI"])
    folder = tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH"))
    try:
        text = {"nodes.txt": "0 0 0 -1 -1\n1 1 0 0 -1\n",
                "mater.txt": "2.0 1.0\n", "eles.txt": "0 6 0 0 1\n",
                "loads.txt": "1 4.0 0\n"}
        for k, f in enumerate(FILES):
            if not bits >> k & 1:
                with open(os.path.join(folder, f), "w") as out:
                    out.write(text[f])
        fun = {"readin": lambda: pre.readin(folder),
               "solids_GUI": lambda: solids_GUI(
                   plot_contours=False, folder=folder)}[flow]
        ctx.visit(bits, flow)
        if bits:
            ctx.raises(OSError, fun, "missing file not reported")
        else:
            res = fun()
            if flow == "solids_GUI":
                ctx.close(res, np.array([[0, 0], [2., 0]]), "solution")
    finally:
        shutil.rmtree(folder)


def references(ctx):
    """Nodes and materials that are not in their tables"""
    kind = ctx.choose("element", ["quad4", "tri3", "tri6", "quad9", "truss"])
    if kind == "truss":
        pts, conn = models.truss_square()
        et = 6
    else:
        pts, conn = models.grid(kind, 2, 2)
        et = models.ETYPE[kind]
    n = len(pts)
    nmat = ctx.choose("materials", [1, 2, 12])
    what = ctx.choose("missing", ["nothing", "material", "node",
                                  "loaded node"])
    row = ctx.choose("row", range(len(conn)) if what in (
        "material", "node") else [0])
    place = ctx.choose("place", range(len(conn[0])) if what == "node"
                       else [0])
    by = ctx.choose("beyond", [0, 1, 250, 70000] if what != "nothing"
                    else [0])
    nodes, elements = models.tables(pts, conn, et, [
        (k + nmat - 1) % nmat for k in range(len(conn))])
    cons = np.zeros((n, 2), dtype=int)
    cons[:2] = -1
    mats = np.column_stack([np.arange(3., 3 + nmat), np.full(nmat, .25)])
    loads = np.array([[n - 1, 1., 1.], [n - 2, 1., 0.]])
    op, bc, neq = ass.DME(cons, elements)
    u = np.cos(np.arange(2.*n)).reshape(n, 2)
    if what == "material":
        elements[row, 2] = nmat + by
    elif what == "node":
        elements[row, 3 + place] = n + by
    elif what == "loaded node":
        loads[by % 2, 0] = n + by
    ctx.visit(kind, nmat, what, row, place, by)
    flows = {
        "sparse": lambda: ass.assembler(elements, mats, nodes, neq, op),
        "dense": lambda: ass.assembler(elements, mats, nodes, neq, op,
                                       sparse=False),
        "retriever": lambda: ass.retriever(elements, mats, nodes, row),
        "automatic": lambda: solids_auto(
            dict(nodes=nodes, cons=cons, elements=elements, mats=mats,
                 loads=loads), plot_contours=False),
        "DME": lambda: ass.DME(cons, elements),
        "loads": lambda: ass.loadasem(loads, bc, neq)}
    if kind == "truss":
        flows["stresses"] = lambda: pos.stress_truss(nodes, elements, mats,
                                                     u)
    else:
        flows["strains"] = lambda: pos.strain_nodes(nodes, elements, mats, u)
    known = {"nothing": list(flows), "material": ["DME", "loads"],
             "node": ["loads"],
             "loaded node": [f for f in flows if f not in ("automatic",
                                                           "loads")]}[what]
    for name, fun in flows.items():
        if name in known:
            fun()
        else:
            ctx.raises((IndexError, ValueError), fun, "answered", entry=name)


def histories(depth):
    """Refused requests leave nothing behind"""
    pts, conn = models.grid("quad4", 2, 1)
    nodes, elements = models.tables(pts, conn, 1)
    cons = np.zeros((6, 2), dtype=int)
    cons[0] = cons[3] = -1
    mats = np.array([[3., .3]])
    loads = np.array([[2, 1., 1.]])
    wrong = elements.copy()
    wrong[1, 1] = 44
    turned = elements.copy()
    turned[1, 3:] = turned[1, :2:-1]
    want = ref.solve(nodes, cons, elements, mats, loads)[0]

    def auto(el):
        return solids_auto(dict(nodes=nodes, cons=cons, elements=el,
                                mats=mats, loads=loads),
                           plot_contours=False)
    refused = {
        "type": lambda: auto(wrong), "inverted": lambda: auto(turned),
        "order": lambda: gau.gauss_tri(9), "points": lambda: gau.gauss_nd(1),
        "eletype": lambda: fem.eletype(0),
        "matrix": lambda: sol.static_sol([[1.]], np.ones(1)),
        "strains": lambda: pos.strain_nodes(nodes, wrong[::-1], mats,
                                            np.zeros((6, 2)))}

    def run(ctx):
        ops = [ctx.choose("operation %d" % k, list(refused) + ["valid"])
               for k in range(depth)]
        ctx.visit(ops)
        for op in ops + ["valid"]:
            if op == "valid":
                ctx.close(auto(elements), want, "valid analysis", tol=1e-9)
            else:
                ctx.raises((ValueError, TypeError), refused[op], op)
    return run


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("types", types(5000 if deep else 400),
                "element types -5..%d, values of other types" % (
                    5000 if deep else 400)),
        Harness("orders", orders, "orders -12..39 and other values, 4 rules"),
        Harness("tables", tables, "unknown type in any row, 5 workflows"),
        Harness("matrices", matrices, "16 matrix types"),
        Harness("files", files, "all sets of missing files, 2 workflows"),
        Harness("references", references, "every place of a missing node, "
                "every element of a missing material, up to 8 entry points"),
        Harness("histories", histories(4 if deep else 3),
                "all sequences of %d requests (7 refused kinds)" % (
                    4 if deep else 3)),
    ]
