"""C22: structured rectangular meshes"""
import numpy as np

import solidspy.preprocesor as pre
from solidspy.solids_GUI import solids_auto
from mc import ref
from mc.core import Harness

TITLE = "Structured grids mesh the rectangle exactly once, in order"
STATEMENT = (
    "For every size and number of divisions, rect_grid returns "
    "(nx+1)(ny+1) nodes equally spaced over the centred rectangle, row by "
    "row from the lower left corner, and nx*ny counterclockwise 4-noded "
    "elements numbered row by row that tile the rectangle: each element is "
    "the cell of its row and column, and neighbours share exactly their "
    "common side. The mesh can be analysed as it is.")
QUANTIFIER = dict(
    over=["inputs"],
    text="all divisions up to 9 x 9 (20 x 20) and some long ones, sizes and "
         "aspect ratios over many orders of magnitude")
WHY = ("Tests and doctest use one or two grids with nx = ny or fixed sizes; "
       "row/column confusions vanish there.")
ANCHORS = dict(
    files=["solidspy/preprocesor.py"],
    mechanism=[dict(name="rect_grid", where="preprocesor.py")],
    observe_at=["rect_grid()"])
TECHNIQUE = ("explicit-state enumeration of grid sizes against a cell by "
             "cell specification")
LEVEL_NOTE = "Exhaustive over the stated sizes."


def judge(ctx, L, H, nx, ny, res):
    x, y, els = res
    n = (nx + 1)*(ny + 1)
    ctx.check(np.shape(x) == (n,) and np.shape(y) == (n,), "nodes",
              got=np.shape(x))
    ctx.check(els.shape == (nx*ny, 7) and els.dtype.kind == "i", "elements",
              got=els.shape)
    k = np.arange(n)
    i, j = k % (nx + 1), k//(nx + 1)
    ctx.close(x, -L/2 + L*i/nx, "x", tol=1e-13, scale=L)
    ctx.close(y, -H/2 + H*j/ny, "y", tol=1e-13, scale=H)
    e = np.arange(nx*ny)
    c, r = e % nx, e//nx
    low = r*(nx + 1) + c
    want = np.column_stack([e, np.ones_like(e), np.zeros_like(e), low,
                            low + 1, low + nx + 2, low + nx + 1])
    ctx.same(els, want, "element table")
    # geometry, independent of the numbering above
    P = np.stack([x[els[:, 3:]], y[els[:, 3:]]], axis=2)
    Q = np.roll(P, -1, axis=1)
    area = .5*np.sum(P[:, :, 0]*Q[:, :, 1] - Q[:, :, 0]*P[:, :, 1], axis=1)
    ctx.close(area, np.full(nx*ny, L*H/nx/ny), "areas", tol=1e-9)


def grids(top):
    def run(ctx):
        nx = ctx.choose("nx", range(1, top + 1))
        ny = ctx.choose("ny", range(1, top + 1))
        L, H = ctx.choose("size", [(1., 1.), (2, 3), (7.3, .2), (1e-6, 5e-7),
                                   (3e5, 1e6), (.1, 40)])
        eletype = ctx.choose("eletype", ["omitted", None, 1])
        kw = {} if eletype == "omitted" else dict(eletype=eletype)
        res = pre.rect_grid(L, H, nx, ny, **kw)
        ctx.visit(nx, ny, L, H)
        judge(ctx, L, H, nx, ny, res)
        ctx.outcome(res[0])
    return run


def long_grids(ctx):
    nx, ny = ctx.choose("divisions", [(500, 1), (1, 500), (101, 2), (3, 128),
                                      (255, 256), (64, 33), (1000, 7),
                                      (181, 181), (256, 255), (257, 256),
                                      (40000, 1), (1, 70000)])
    L, H = ctx.choose("size", [(1., 1.), (100., 3.), (.7, 9.)])
    typ = ctx.choose("numbers", [int, np.int64, np.int32])
    ctx.visit(nx, ny, L, H)
    judge(ctx, L, H, nx, ny, pre.rect_grid(L, H, typ(nx), typ(ny)))


def analysis(ctx):
    nx = ctx.choose("nx", [1, 2, 4])
    ny = ctx.choose("ny", [1, 3])
    L, H = ctx.choose("size", [(1., 1.), (3., 2.)])
    x, y, els = pre.rect_grid(L, H, nx, ny)
    nodes = np.column_stack([np.arange(len(x)), x, y])
    cons = np.zeros((len(x), 2), dtype=int)
    cons[x == -L/2] = -1
    loads = np.array([[v, 1., 2.] for v in np.flatnonzero(x == L/2)])
    mats = np.array([[10., .3]])
    got = solids_auto(dict(nodes=nodes, cons=cons, elements=els, mats=mats,
                           loads=loads), plot_contours=False)
    ctx.visit(nx, ny, L, H)
    ctx.close(got, ref.solve(nodes, cons, els, mats, loads)[0],
              "displacements", tol=1e-9)


def harnesses(tier):
    deep = tier == "thorough"
    top = 20 if deep else 9
    return [
        Harness("grids", grids(top), "all grids up to %d x %d x 6 sizes" %
                (top, top)),
        Harness("long", long_grids, "long and large grids"),
        Harness("analysis", analysis, "static analyses of the grids"),
    ]
