"""C21: restraints and loads of physical lines"""
import os

import numpy as np

import solidspy.preprocesor as pre
from solidspy.solids_GUI import solids_auto
from mc import files, gmsh, models, ref
from mc.core import Harness

TITLE = "Line supports and loads act on exactly the nodes of their line"
STATEMENT = (
    "Imposing boundary conditions on a physical line sets the two flags of "
    "exactly the nodes of that line and leaves all other nodes and all "
    "coordinates as they were, for any sequence of calls (the last call for "
    "a node wins). A load on a physical line is divided equally among its "
    "nodes, each listed once, so that the total is the load given, in each "
    "direction, and the mesh is not modified.")
QUANTIFIER = dict(
    over=["inputs", "histories"],
    text="all assignments of tags to the edges of small meshes, flags, "
         "loads, sequences of calls, meshes read from files")
WHY = ("There is no test of either function; corner nodes shared by lines "
       "and nodes listed by several edges only matter for some meshes.")
ANCHORS = dict(
    files=["solidspy/preprocesor.py"],
    mechanism=[dict(name="boundary_conditions, loading",
                    where="preprocesor.py")],
    observe_at=["boundary_conditions()", "loading()"])
TECHNIQUE = ("explicit-state enumeration of tagged line meshes and sequences "
             "of calls against a set-based model")
LEVEL_NOTE = "Exhaustive over the stated meshes and sequences."

# small line meshes: (number of nodes, edges)
MESHES = {
    "one": (3, [[0, 2]]),
    "path": (6, [[4, 1], [1, 3], [3, 0]]),
    "square": (5, [[0, 1], [1, 2], [2, 3], [3, 0]]),
    "repeated edge": (4, [[0, 1], [1, 0], [1, 2], [1, 2]]),
    "star": (6, [[5, 0], [5, 1], [2, 5], [3, 5]]),
    "two parts": (8, [[7, 6], [0, 1], [3, 2], [6, 5], [1, 2]]),
}


def table(n):
    out = np.zeros((n, 5))
    out[:, 0] = np.arange(n)
    out[:, 1] = np.cos(np.arange(n))*3
    out[:, 2] = np.arange(n)**2/7 - 1
    return out


def line_nodes(edges, tags, tag):
    return sorted({v for e, t in zip(edges, tags) if t == tag for v in e})


def conditions(depth, flags):
    def run(ctx):
        name = ctx.choose("mesh", list(MESHES))
        n, edges = MESHES[name]
        tags = [ctx.choose("tag %d" % k, [11, 22]) for k in
                range(len(edges))]
        cells, data = gmsh.dictionaries([
            ("line", edges, tags), ("quad", [[0, 1, 2, 3]], [11])])
        nodes = table(n)
        want = nodes.copy()
        ctx.visit(name, tags)
        for k in range(depth):
            tag = ctx.choose("line %d" % k, [11, 22, 33])
            bx, by = ctx.choose("flags %d" % k, flags)
            nodes = pre.boundary_conditions(cells, data, tag, nodes, bx, by)
            for v in line_nodes(edges, tags, tag):
                want[v, 3:] = bx, by
            ctx.same(nodes, want, "table after call %d" % (k + 1))
            ctx.visit(name, tags, want)
        ctx.same(cells["line"], edges, "mesh was modified")
        ctx.same(data["line"]["gmsh:physical"], tags, "tags were modified")
        ctx.outcome(nodes)
    return run


def loads(ctx):
    name = ctx.choose("mesh", list(MESHES))
    n, edges = MESHES[name]
    tags = [ctx.choose("tag %d" % k, [11, 22, 0]) for k in
            range(len(edges))]
    Px, Py = ctx.choose("load", [(1.0, 0.0), (-2.5, 1e6), (3, -7), (0, 0), (0, 41),
                                 (1e-9, 2e9)])
    cells, data = gmsh.dictionaries([("quad", [[0, 1, 2, 0]], [11]),
                                     ("line", edges, tags)])
    ctx.visit(name, tags, Px, Py)
    for tag in (11, 22, 0):
        want = line_nodes(edges, tags, tag)
        if not want:
            continue
        got = pre.loading(cells, data, tag, Px, Py)
        ctx.check(got.shape == (len(want), 3), "shape", got=got)
        ctx.check(sorted(got[:, 0].tolist()) == want, "loaded nodes",
                  got=got, want=want)
        ctx.close(got[:, 1], np.full(len(want), Px/len(want)),
                  "horizontal loads", tol=1e-13)
        ctx.close(got[:, 2], np.full(len(want), Py/len(want)),
                  "vertical loads", tol=1e-13)
        ctx.close(got[:, 1:].sum(axis=0), [Px, Py], "total load", tol=1e-12)
    ctx.same(cells["line"], edges, "mesh was modified")


def large(ctx):
    n = ctx.choose("edges", [200, 5000])
    shape = ctx.choose("lines", ["straight", "closed", "shuffled"])
    k = np.arange(n)
    edges = np.column_stack([k, k + 1])
    if shape == "closed":
        edges[-1, 1] = 0
    if shape == "shuffled":
        edges = edges[np.argsort(np.sin(3.*k))][:, ::-1]
    tags = np.where(k % 50 < 25, 3, 70000)
    total = edges.max() + 1
    cells, data = gmsh.dictionaries([("line", edges, tags)])
    nodes = pre.boundary_conditions(cells, data, 70000, table(total), -1, 0)
    mine = line_nodes(edges.tolist(), tags, 70000)
    want = table(total)
    want[mine, 3] = -1
    ctx.visit(n, shape)
    ctx.same(nodes, want, "restraints")
    got = pre.loading(cells, data, 3, 12.0, -9.0)
    mine = line_nodes(edges.tolist(), tags, 3)
    ctx.check(sorted(got[:, 0].tolist()) == mine, "loaded nodes")
    ctx.close(got[:, 1:].sum(axis=0), [12., -9.], "total load", tol=1e-10)
    ctx.close(got[:, 1:], np.tile([12./len(mine), -9./len(mine)],
                                  (len(mine), 1)), "equal parts", tol=1e-12)


def pipeline(ctx):
    """From a Gmsh file to the displacements"""
    import meshio
    kind, cell = ctx.choose("cells", [("tri3", "triangle"),
                                      ("quad4", "quad")])
    nx, ny = ctx.choose("mesh", [(1, 1), (3, 2), (6, 5)])
    left = ctx.choose("support", [(-1, -1), (-1, 0)])
    load = ctx.choose("load", [(1e3, 0.), (2., -5e3)])
    two = ctx.choose("materials", [1, 2])
    pts, conn = models.grid(kind, nx, ny, 4.0, 3.0)
    side = {"left": 100, "right": 200, "bottom": 300, "top": 400}
    ledge, ltag = [], []
    for e in models.boundary(kind, conn):
        p = pts[list(e)]
        tag = (side["left"] if np.all(p[:, 0] == 0) else
               side["right"] if np.all(p[:, 0] == 4) else
               side["bottom"] if np.all(p[:, 1] == 0) else side["top"])
        ledge.append(e)
        ltag.append(tag)
    surf = [1000 + (k % two) for k in range(len(conn))]
    with files.scratch() as base:
        path = os.path.join(base, "mesh.msh")
        gmsh.write(path, pts, [("line", ledge, ltag), (cell, conn, surf)])
        mesh = meshio.read(path)
    nodes = pre.node_writer(mesh.points, mesh.point_data)
    els, nini = [], 0
    for m in range(two):
        nini, part = pre.ele_writer(mesh.cells, mesh.cell_data, cell,
                                    1000 + m, models.ETYPE[kind], m, nini)
        els.append(part)
    els = np.vstack(els)
    nodes = pre.boundary_conditions(mesh.cells, mesh.cell_data, 300, nodes,
                                    0, -1)
    nodes = pre.boundary_conditions(mesh.cells, mesh.cell_data, 100, nodes,
                                    *left)
    if left[1] == 0:
        nodes[0, 4] = -1
    lo = pre.loading(mesh.cells, mesh.cell_data, 200, *load)
    mats = np.array([[1e6, .3], [3e6, .2]])
    disp = solids_auto(dict(nodes=nodes[:, :3], cons=nodes[:, 3:],
                            elements=els, mats=mats, loads=lo),
                       plot_contours=False)
    # the same model, built without the package
    cons = np.zeros((len(pts), 2), dtype=int)
    cons[pts[:, 1] == 0, 1] = -1
    cons[pts[:, 0] == 0] = left
    if left[1] == 0:
        cons[0, 1] = -1
    right = np.flatnonzero(pts[:, 0] == 4)
    mine = np.array([[v, load[0]/len(right), load[1]/len(right)]
                     for v in right])
    rn, re = models.tables(pts, conn, models.ETYPE[kind],
                           [k % two for k in range(len(conn))])
    want = ref.solve(rn, cons, re, mats, mine)[0]
    ctx.visit(kind, nx, ny, left, load, two)
    ctx.close(disp, want, "displacements", tol=1e-8)


def harnesses(tier):
    flags = [(-1, 0), (0, -1), (-1, -1), (0, 0)]
    return [
        Harness("conditions", conditions(3, flags),
                "6 line meshes x all tags x sequences of 3 calls"),
        Harness("loads", loads, "6 line meshes x all tags x 6 loads"),
        Harness("large", large, "long lines"),
        Harness("pipeline", pipeline, "from the mesh file to the solution"),
    ]
