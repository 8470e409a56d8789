"""C15: file-driven analyses"""
import os
import pathlib
import re

import numpy as np

import solidspy.assemutil as ass
import solidspy.preprocesor as pre
from solidspy.solids_GUI import solids_GUI, solids_auto
from mc import files, models, ref
from mc.core import Harness

TITLE = "Analyses from files give the same results as from data in memory"
STATEMENT = (
    "Reading a folder of input files returns exactly the tables written in "
    "them (also those of a single row or column of values), in any of the "
    "usual layouts: integers, decimals, exponents, tabs, comments, blank "
    "lines. The file workflow and the in-memory workflow report the true "
    "size of the model and return the same displacements, and the same "
    "nodal strains and stresses when requested, "
    "which are those of the reference model. Neither changes the files nor "
    "the data given, and plotting does not change the results.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="models of every two-dimensional element type, text layouts, ways "
         "to name the folder, flags of the workflow, shapes of the tables")
WHY = ("No test runs solids_GUI at all; equality of the two workflows is a "
       "relation over all models and layouts.")
ANCHORS = dict(
    files=["solidspy/solids_GUI.py", "solidspy/preprocesor.py"],
    mechanism=[dict(name="readin", where="preprocesor.py"),
               dict(name="solids_GUI, solids_auto", where="solids_GUI.py")],
    observe_at=["readin()", "solids_GUI()", "solids_auto()"])
TECHNIQUE = ("explicit-state enumeration of models, file layouts, paths and "
             "flags, each executed through both workflows")
LEVEL_NOTE = ("Exhaustive over the stated product; bit-for-bit equality of "
              "the tables read and of the two workflows (to 1e-12).")

MATS = np.array([[2.1e11, .3], [7.5e10, .25]])
LINE = np.array([[2.1e11, 3e-4], [7.5e10, 1.5e-4]])


def model(name):
    if name in ("truss", "springs", "one bar", "no free first"):
        pts, conn = models.truss_square()
        pts = pts*[3.25, 1.5]
        cons = np.zeros((4, 2), dtype=int)
        cons[0] = -1
        cons[1, 1] = -1
        et = 6
        mat = [k % 2 for k in range(6)]
        if name == "springs":
            et = 5
        if name == "one bar":
            pts, conn, mat = pts[:2], [[0, 1]], [0]
            cons = np.array([[-1, -1], [0, -1]])
        loads = np.array([[len(pts) - 1, 1234.5, -.125]])
        mats = LINE if name != "one bar" else LINE[:1]
        nodes, elements = models.tables(pts, conn, et, mat)
        return nodes, cons, elements, mats, loads
    if name == "labels":    # identifiers that are not the rows
        nodes, cons, elements, mats, loads = model("triangles")
        nodes[:, 0] = 20000 - 7*np.arange(len(nodes))
        elements[:, 0] = (3*np.arange(len(elements)) + 2) % len(elements)
        return nodes, cons, elements, mats, loads
    if name == "small quads":
        nodes, cons, elements, mats, loads = model("quads")
        nodes[:, 1:] *= 1.23456789e-7
        mats = mats*[1.7e-19, 1.0123456789]
        return nodes, cons, elements, mats, loads*[1, 1e-23, 1e-23]
    if name == "overlaid":  # two layers of the same elements
        nodes, cons, elements, mats, loads = model("quads")
        elements = np.vstack([elements, elements])
        elements[len(elements)//2:, 2] = 1
        elements[:, 0] = np.arange(len(elements))
        return nodes, cons, elements, mats, loads
    kind, nx, ny = {"one quad": ("quad4", 1, 1), "quads": ("quad4", 3, 2),
                    "one triangle": ("tri3", 1, 1), "triangles":
                    ("tri3", 2, 2), "one tri6": ("tri6", 1, 1),
                    "tri6": ("tri6", 2, 1), "quad9": ("quad9", 2, 1)}[name]
    pts, conn = models.grid(kind, nx, ny, 2.5, 1.0, -1.0, 3.0)
    if name == "one triangle":
        conn = conn[:1]
        pts = pts[[0, 1, 2]]
        conn = [[0, 1, 2]]
    flat = pts[:, 0] == -1
    pts = models.smooth(pts, .01)
    cons = np.zeros((len(pts), 2), dtype=int)
    cons[flat, 0] = -1
    cons[np.flatnonzero(flat)[0], 1] = -1
    loads = np.array([[k, 1e3*k, -500. + 3*k] for k in
                      np.flatnonzero(~flat)])
    nodes, elements = models.tables(pts, conn, models.ETYPE[kind],
                                    [k % 2 for k in range(len(conn))])
    mats = MATS
    if name == "tri6":
        mats = np.column_stack([MATS, [7850., 2700.]])
    if name == "triangles":     # equal lines, and lines that add up
        loads = np.vstack([loads, loads[1:2], loads[:1]*[1, -1, 2],
                           loads[1:2], loads[-1:], loads[-1:]*0])
        mats = np.vstack([MATS, MATS[:1], MATS])
        elements[:, 2] = np.arange(len(elements)) % 5
    return nodes, cons, elements, mats, loads


NAMES = ["one quad", "quads", "one triangle", "triangles", "one tri6",
         "tri6", "quad9", "truss", "springs", "one bar", "labels",
         "small quads", "overlaid"]


def paths(base, sub, how):
    if how == "plain":
        return sub
    if how == "trailing slash":
        return sub + "/"
    if how == "relative":
        os.chdir(base)
        return os.path.basename(sub)
    if how == "relative slash":
        os.chdir(base)
        return "./" + os.path.basename(sub) + "/"
    if how == "pathlib":
        return pathlib.Path(sub)
    os.chdir(sub)
    return ""


HOW = ["plain", "trailing slash", "relative", "relative slash", "pathlib",
       "current folder"]


def contents(folder):
    out = {}
    for name in sorted(os.listdir(folder)):
        with open(os.path.join(folder, name), "rb") as f:
            out[name] = f.read()
    return out


def reading(ctx):
    """readin returns the tables that were written"""
    fmt = ctx.choose("layout", list(files.FORMATS))
    how = ctx.choose("folder", HOW)
    name = ctx.choose("folder name", ["job", "my job.v2", "a-b_c"])
    shape = ctx.choose("rows", [(1, 1, 1, 1), (3, 1, 2, 1), (2, 3, 1, 4),
                                (1500, 2, 1200, 300),
                                "equal lines", "tiny values",
                                "whole values", "labels"])
    ncols = ctx.choose("columns", [1, 2, 3, 4])
    special, shape = shape, (6, 4, 5, 7) if isinstance(shape, str) else shape
    nn, nm, ne, nl = shape
    k = np.arange(nn)
    nodes = np.column_stack([k, np.sin(k + 1)*10.0**(k % 13 - 6),
                             -np.cos(k)/3])
    cons = np.column_stack([-(k % 2), -(k//2 % 2)])
    mats = 1e11/np.arange(1, nm*ncols + 1).reshape(nm, ncols)
    elements = np.arange(ne*7).reshape(ne, 7)
    loads = np.column_stack([np.arange(nl), 1e-7*np.arange(nl)**3,
                             -np.pi*np.arange(1, nl + 1)])
    if ncols == 2:          # frames, with bars at the end of the table
        cons = np.column_stack([cons, -(k//4 % 2)])
        loads = np.column_stack([loads, 1.5 - loads[:, 0]])
        elements = elements[:, :5]
    elif ncols == 3:        # one degree of freedom, many nodes
        cons = cons[:, :1]
        loads = loads[:, :2]
        elements = np.hstack([elements]*4)
    elif ncols == 4:        # solids
        nodes = np.column_stack([nodes, 7. - k])
        cons = np.column_stack([cons, -(k//4 % 2)])
        loads = np.column_stack([loads, -loads[:, 0]/7])
        elements = np.hstack([elements, elements[:, 3:]])
    if special == "equal lines":
        loads = loads[[0, 0, 2, 3, 2, 0, 0]]
        mats = mats[[1, 1, 0, 1]]
        elements[:, 1:] = elements[0, 1:]
        nodes[:, 1:] = nodes[0, 1:]
    elif special == "tiny values":
        nodes[:, 1:] *= 1e-12
        mats *= 1e-25
        loads[:, 1:] *= 1e-15
    elif special == "labels":
        nodes[:, 0] = [40, 5, 5, 17, 0, 2**24 + 1]
        elements[:, 0] = [3, 3, 2**24 + 1, 0, 2**31 + 7]
        loads = loads[[6, 2, 0, 5, 5, 1, 3]]
    elif special == "whole values":
        nodes = np.round(nodes[:, :]*3)
        mats = np.round(mats)
        loads = np.round(loads)
    with files.scratch() as base:
        sub = os.path.join(base, name)
        os.mkdir(sub)
        files.folder(sub, nodes, cons, elements, mats, loads, fmt)
        before = contents(sub)
        got = pre.readin(paths(base, sub, how))
        got2 = (pre.readin() if how == "current folder"
                else pre.readin(folder=paths(base, sub, how)))
        ctx.visit(fmt, how, name, special, ncols)
        want = (np.column_stack([nodes, cons]), mats, elements, loads)
        for what, a, b, c in zip(("nodes", "materials", "elements", "loads"),
                                 got, got2, want):
            ctx.same(a, c, what)
            ctx.same(b, c, what + " (second time)")
        ctx.check(got[2].dtype.kind == "i", "element table is not integer")
        ctx.check(all(got[i].dtype == float for i in (0, 1, 3)),
                  "tables of floats")
        ctx.check(contents(sub) == before, "the files were modified")
    ctx.outcome(nodes)


def workflows(formats, hows):
    def run(ctx):
        name = ctx.choose("model", NAMES)
        fmt = ctx.choose("layout", formats)
        how = ctx.choose("folder", hows)
        cont = np.max(model(name)[2][:, 1]) <= 4
        strains = ctx.choose("compute_strains",
                             [False, True] if cont else [False])
        nodes, cons, elements, mats, loads = model(name)
        want = ref.solve(nodes, cons, elements, mats, loads)[0]
        data = dict(nodes=nodes, cons=cons, elements=elements, mats=mats,
                    loads=loads)
        keep = {k: v.copy() for k, v in data.items()}
        with files.scratch() as base:
            sub = os.path.join(base, "job")
            os.mkdir(sub)
            files.folder(sub, nodes, cons, elements, mats, loads, fmt)
            before = contents(sub)
            a = solids_GUI(plot_contours=False, compute_strains=strains,
                           folder=paths(base, sub, how))
            ctx.check(contents(sub) == before, "the files were modified")
        b = solids_auto(data, plot_contours=False, compute_strains=strains)
        ctx.visit(name, fmt, how, strains)
        ctx.check(set(data) == set(keep), "keys of the data")
        for k, v in keep.items():
            ctx.same(data[k], v, "the data were modified: " + k)
        if strains:
            ctx.check(isinstance(a, tuple) and isinstance(b, tuple) and
                      len(a) == len(b) == 3, "results")
            eps, sig = ref.nodal_fields(nodes, elements, mats, want)
            full = [want, eps, sig]
        else:
            ctx.check(isinstance(a, np.ndarray) and
                      isinstance(b, np.ndarray), "results")
            a, b, full = [a], [b], [want]
        for what, x, y, z in zip(("displacements", "strains", "stresses"),
                                 a, b, full):
            ctx.close(x, y, what + " differ between workflows", tol=1e-12)
            ctx.close(x, z, what, tol=1e-8)
        ctx.outcome(a[0])
    return run


def plotting(ctx):
    """The flags, positional or by keyword, do not change the results"""
    import matplotlib.pyplot as plt
    name = ctx.choose("model", ["one quad", "triangles", "tri6", "quad9",
                                "truss"])
    flow = ctx.choose("workflow", ["files", "memory"])
    strains = ctx.choose("compute_strains", [False, True, "default"])
    plot = ctx.choose("plot_contours", [False, True, "default"])
    ctx.require(name != "truss" or strains is not True)
    nodes, cons, elements, mats, loads = model(name)
    want = ref.solve(nodes, cons, elements, mats, loads)[0]
    opt = {}
    if strains != "default":
        opt["compute_strains"] = strains
    if plot != "default":
        opt["plot_contours"] = plot
    plt.close("all")
    try:
        with files.scratch() as base:
            files.folder(base, nodes, cons, elements, mats, loads, "plain")
            before = contents(base)
            os.chdir(base)
            if flow == "files":
                res = solids_GUI(folder=base, **opt)
            else:
                res = solids_auto(dict(nodes=nodes, cons=cons, mats=mats,
                                       elements=elements, loads=loads), **opt)
            ctx.check(contents(base) == before, "files were written")
        nfig = len(plt.get_fignums())
    finally:
        plt.close("all")
    drawn = plot is not False and name != "truss"
    expect = (8 if strains is True else 2) if drawn else 0
    ctx.visit(name, flow, strains, plot)
    ctx.check(nfig == expect, "number of figures", got=nfig, want=expect)
    if strains is True:
        ctx.check(isinstance(res, tuple) and len(res) == 3, "results")
        eps, sig = ref.nodal_fields(nodes, elements, mats, want)
        ctx.close(res[1], eps, "strains", tol=1e-8)
        ctx.close(res[2], sig, "stresses", tol=1e-8)
        res = res[0]
    ctx.check(isinstance(res, np.ndarray), "result is not an array")
    ctx.close(res, want, "displacements", tol=1e-8)


def messages(ctx):
    """Number of nodes, elements and equations are those of the model and a
    solved system is never reported out of equilibrium"""
    import contextlib
    import io
    name = ctx.choose("model", NAMES)
    flow = ctx.choose("workflow", ["files", "memory"])
    scale = ctx.choose("load factor", [1e-9, 1.0, 1e9])
    nodes, cons, elements, mats, loads = model(name)
    loads = loads*np.array([1., scale, scale])
    out = io.StringIO()
    with files.scratch() as base, contextlib.redirect_stdout(out):
        files.folder(base, nodes, cons, elements, mats, loads, "plain")
        if flow == "files":
            solids_GUI(False, False, base)
        else:
            solids_auto(dict(nodes=nodes, cons=cons, mats=mats,
                             elements=elements, loads=loads), False, False)
    text = out.getvalue()
    ctx.visit(name, flow, scale)
    ctx.check("not in equilibrium" not in text, "reported out of equilibrium")
    for what, n in (("nodes", len(nodes)), ("elements", len(elements)),
                    ("equations", int(np.sum(cons == 0)))):
        m = re.search(r"%s\D*(\d+)" % what, text)
        ctx.check(m and int(m.group(1)) == n, "number of " + what, text=text)


def long(sizes):
    """Tables of many rows, written in each layout"""
    def run(ctx):
        which = ctx.choose("long table", ["nodes", "mater", "eles", "loads",
                                          "all"])
        n = ctx.choose("rows", sizes)
        fmt = ctx.choose("layout", ["plain", "scientific", "comments",
                                    "no final newline"])
        rows = {f: n if which in (f, "all") else 2 for f in
                ("nodes", "mater", "eles", "loads")}
        a = np.arange(rows["nodes"])
        nodes = np.column_stack([a, np.sin(a), np.cos(2.3*a)])
        cons = np.column_stack([-(a % 3 == 0).astype(int), -(a % 7 == 0).astype(int)])
        b = np.arange(rows["mater"])
        mats = np.column_stack([1e9 + b/3., b/(3.*len(b)), 7. + b % 5])
        c = np.arange(rows["eles"])
        elements = np.column_stack([c, 0*c + 6, c % len(b), c % len(a),
                                    (c + 1) % len(a)])
        d = np.arange(rows["loads"])
        loads = np.column_stack([d % len(a), np.exp(-d % 50), -d/7.])
        ctx.visit(which, n, fmt)
        with files.scratch() as base:
            files.folder(base, nodes, cons, elements, mats, loads, fmt)
            got = pre.readin(base)
        for g, w, what in zip(got, (np.column_stack([nodes, cons]), mats,
                                    elements, loads),
                              ("nodes", "materials", "elements", "loads")):
            ctx.check(np.shape(g) == w.shape, "shape of the table of " + what,
                      got=np.shape(g), want=w.shape)
            ctx.same(np.array(g, dtype=float), np.array(w, dtype=float),
                     what)
    return run


def order(n):
    """Sequences of analyses of different folders in one session"""
    def run(ctx):
        seq = [ctx.choose("analysis %d" % k, [
            ("one quad", "files"), ("truss", "files"), ("quads", "memory"),
            ("one bar", "memory"), ("tri6", "files")]) for k in range(n)]
        ctx.visit(seq)
        for name, flow in seq:
            nodes, cons, elements, mats, loads = model(name)
            want = ref.solve(nodes, cons, elements, mats, loads)[0]
            with files.scratch() as base:
                files.folder(base, nodes, cons, elements, mats, loads,
                             "plain")
                if flow == "files":
                    res = solids_GUI(False, False, base)
                else:
                    res = solids_auto(dict(
                        nodes=nodes, cons=cons, mats=mats,
                        elements=elements, loads=loads), False, False)
            ctx.close(res, want, "displacements", tol=1e-8, model=name)
    return run


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("reading", reading, "10 layouts x 6 folders x 3 names x 8 "
                "tables x 4 widths of the tables"),
        Harness("workflows", workflows(
            list(files.FORMATS) if deep else ["plain", "scientific",
                                              "comments"],
            HOW if deep else ["plain", "trailing slash", "current folder"]),
            "13 models x layouts x folders x flags"),
        Harness("messages", messages, "13 models x 2 workflows x 3 loads"),
        Harness("long tables", long([50, 1100, 5000, 70000] +
                                    ([300000] if deep else [])),
                "tables of up to %d rows x 4 layouts" % (
                    300000 if deep else 70000)),
        Harness("order", order(4 if deep else 3),
                "all sequences of analyses"),
        Harness("plotting", plotting, "5 models x 2 workflows x 9 flags"),
    ]
