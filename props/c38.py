"""C38: from a mesh to the results"""
import os

import numpy as np

import solidspy.preprocesor as pre
from solidspy.solids_GUI import solids_GUI, solids_auto
from mc import files, gmsh, models, ref
from mc.core import Harness

TITLE = "Models prepared from a mesh are analysed as that mesh says"
STATEMENT = (
    "The documented route from a mesh to the results keeps the model: nodes, "
    "elements of each physical surface with its material, supports and loads "
    "of physical lines (in the order in which they are imposed), taken from "
    "a mesh of Gmsh or from rect_grid, analysed in memory or written to the "
    "input files and read back, give the displacements, strains and stresses "
    "of the mesh, whatever the numbering of its nodes, the order of its "
    "surfaces and lines, extra points and the third coordinate. The tables "
    "and the mesh can be used again for another model.")
QUANTIFIER = dict(
    over=["inputs", "histories"],
    text="element families, sizes, numberings, surfaces, all sequences of "
         "supports up to a length, loads, ways of writing the files, "
         "sequences of models from one mesh")
WHY = ("Tests call functions one by one; the steps of the tutorials have to "
       "fit together: numbers of nodes, of elements and of materials, flags "
       "and formats.")
ANCHORS = dict(
    files=["solidspy/preprocesor.py", "solidspy/solids_GUI.py",
           "solidspy/assemutil.py", "docs/tutorials"],
    mechanism=[dict(name="node_writer, ele_writer, boundary_conditions, "
                         "loading, rect_grid, readin",
                    where="preprocesor.py"),
               dict(name="solids_GUI, solids_auto", where="solids_GUI.py")],
    observe_at=["solids_GUI()", "solids_auto()"])
TECHNIQUE = ("explicit-state exploration of sequences of preprocessing steps "
             "on enumerated meshes against an analysis of the mesh itself")
LEVEL_NOTE = ("Exhaustive over the stated meshes and sequences; tolerance "
              "1e-8.")

CELL = {"tri3": "triangle", "quad4": "quad", "tri6": "triangle6",
        "quad9": "quad9"}
SIDES = ["left", "bottom", "right", "top"]
TAG = {"left": 300, "bottom": 400, "right": 500, "top": 17}
# supports: sequences of (side, flags)
SUPPORTS = {
    "clamped": [("left", (-1, -1))],
    "rollers": [("left", (-1, 0)), ("bottom", (0, -1))],
    "rollers, bottom first": [("bottom", (0, -1)), ("left", (-1, 0))],
    "released": [("left", (-1, -1)), ("bottom", (-1, -1)),
                 ("bottom", (0, -1))],
    "three sides": [("top", (0, -1)), ("left", (-1, -1)),
                    ("bottom", (-1, -1))],
    "two clamped": [("right", (-1, -1)), ("left", (-1, -1))],
}
LOADS = {
    "one line": [("right", 3., 0.)],
    "two lines": [("top", 0., -2.), ("right", 1., .5)],
    "one line twice": [("top", 1., 0.), ("top", 0., -4.)],
}
MATS = np.array([[50., .25, 1.], [400., .3, 2.], [7., 0., 1.]])


def number(n, how):
    """New number of each node"""
    if how == "reversed":
        return np.arange(n)[::-1]
    if how == "shuffled":
        step = next(s for s in (7, 11, 13, 17, 19, 23) if np.gcd(s, n) == 1)
        return (3 + step*np.arange(n)) % n
    return np.arange(n)


def mesh_of(kind, nx, ny, how, extra):
    """Points, cells, and edges (with middle nodes) of each side"""
    pts, conn = models.grid(kind, nx, ny, 1.5*nx, 1.*ny, -.5, .25)
    new = number(len(pts), how)
    points = np.zeros_like(pts)
    points[new] = pts
    conn = np.array([[new[k] for k in c] for c in conn])
    if extra:
        # points of the geometry that no element uses
        points = np.vstack([[[9., 9.]], points, [[-9., 0.]]])
        conn = conn + 1
    lo, hi = pts.min(axis=0), pts.max(axis=0)
    edges = {s: [] for s in SIDES}
    for e in models.boundary(kind, conn.tolist()):
        mid = points[[e[0], e[-1]]].mean(axis=0)
        side = SIDES[int(np.argmin([abs(mid[0] - lo[0]), abs(mid[1] - lo[1]),
                                    abs(mid[0] - hi[0]),
                                    abs(mid[1] - hi[1])]))]
        edges[side].append([e[0], e[-1]] + ([e[1]] if len(e) == 3 else []))
    return points, conn, edges


def surfaces(conn, points, nsurf, where):
    """Physical tag of each element"""
    if nsurf == 1:
        return [4]*len(conn)
    if where == "alternate":
        return [(100, 4, 200)[k % nsurf] for k in range(len(conn))]
    mid = points[conn[:, 0], 0]
    cut = np.quantile(mid, np.arange(1, nsurf)/nsurf)
    return [(100, 4, 200)[int(np.sum(m > cut))] for m in mid]


def source(kind, points, conn, tags, edges, order, how):
    """cells, cell data, points as the user gets them"""
    line = "line" if kind in ("tri3", "quad4") else "line3"
    lines = [e for s in order for e in edges[s]]
    ltags = [TAG[s] for s in order for e in edges[s]]
    blocks = [(line, lines, ltags), (CELL[kind], conn, tags)]
    if how == "file":
        import meshio
        with files.scratch() as base:
            path = os.path.join(base, "mesh.msh")
            gmsh.write(path, points, blocks)
            mesh = meshio.read(path)
        pts, cells, data = mesh.points, dict(mesh.cells), dict(mesh.cell_data)
    else:
        cells, data = gmsh.dictionaries(blocks)
        pts = np.column_stack([points, .5*points[:, 0] - 3])
    cells["line"], data["line"] = cells[line], data[line]
    return pts, cells, data


def prepare(pts, cells, data, kind, order, supports, loads):
    """The steps of the tutorials"""
    nodes = pre.node_writer(pts, {})
    tables, start = [], 0
    for tag, mat in order:
        start, els = pre.ele_writer(cells, data, CELL[kind], tag,
                                    models.ETYPE[kind], mat, start)
        tables.append(els)
    for side, (bx, by) in supports:
        nodes = pre.boundary_conditions(cells, data, TAG[side], nodes, bx,
                                        by)
    forces = [pre.loading(cells, data, TAG[s], px, py) for s, px, py in loads]
    return nodes, np.vstack(tables), np.vstack(forces)


def intended(points, conn, tags, edges, kind, order, supports, loads):
    """The same model straight from the mesh"""
    nodes = np.column_stack([np.arange(len(points)), points])
    elements = []
    for tag, mat in order:
        for c, t in zip(conn, tags):
            if t == tag:
                elements.append([len(elements), models.ETYPE[kind], mat, *c])
    cons = np.zeros((len(points), 2), dtype=int)
    for side, flags in supports:
        for e in edges[side]:
            for n in e:
                cons[n] = flags
    force = np.zeros((len(points), 2))
    for side, px, py in loads:
        on = sorted({n for e in edges[side] for n in e})
        force[on] += np.array([px, py])/len(on)
    rows = np.column_stack([np.arange(len(points)), force])
    return nodes, cons, np.array(elements), rows


FORMATS = {
    "default": (None, "%d", None, None),
    "tutorial": (("%d", "%.4f", "%.4f", "%d", "%d"), "%d",
                 ("%d", "%.6f", "%.6f"), "%.6f"),
    "general": ("%.12g", "%d", "%.15g", "%g"),
}


def analyse(nodes, elements, loads, mats, how, strains):
    if how == "memory":
        data = dict(nodes=nodes[:, :3], cons=nodes[:, 3:], elements=elements,
                    mats=mats, loads=loads)
        return solids_auto(data, plot_contours=False, compute_strains=strains)
    with files.scratch() as base:
        for name, table, fmt in zip(("nodes", "eles", "loads", "mater"),
                                    (nodes, elements, loads, mats),
                                    FORMATS[how]):
            kw = {} if fmt is None else dict(fmt=fmt)
            np.savetxt(os.path.join(base, name + ".txt"), table, **kw)
        return solids_GUI(plot_contours=False, compute_strains=strains,
                          folder=base)


def compare(ctx, got, model, used, how, strains):
    nodes, cons, elements, loads = model
    tol = 1e-8 if how != "tutorial" else 2e-3
    want = ref.solve(nodes, cons, elements, MATS, loads)[0]
    disp = got[0] if strains else got
    ctx.close(disp, want, "displacements", tol=tol)
    if strains:
        eps, sig = ref.nodal_fields(nodes, elements, MATS, want)
        ctx.close(got[1][used], eps[used], "strains", tol=tol)
        ctx.close(got[2][used], sig[used], "stresses", tol=tol)


def pipelines(sizes, hows):
    def run(ctx):
        kind = ctx.choose("family", list(CELL))
        nx, ny = ctx.choose("divisions", sizes)
        numbering = ctx.choose("numbering", ["rows", "reversed", "shuffled"])
        nsurf = ctx.choose("surfaces", [1, 2, 3])
        where = ctx.choose("surfaces lie", ["beside", "alternate"]
                           if nsurf > 1 else ["beside"])
        src = ctx.choose("mesh", ["file", "dictionaries"])
        sup = ctx.choose("supports", list(SUPPORTS))
        load = ctx.choose("loads", list(LOADS))
        how = ctx.choose("analysis", hows)
        extra = ctx.choose("extra points", [False, True])
        points, conn, edges = mesh_of(kind, nx, ny, numbering, extra)
        ctx.require(len(conn) >= nsurf)
        tags = surfaces(conn, points, nsurf, where)
        # the materials are not in the order of the tags
        order = [(t, (2, 0, 1)[k]) for k, t in
                 enumerate(sorted(set(tags), reverse=nx % 2 == 0))]
        pts, cells, data = source(kind, points, conn, tags, edges,
                                  ["top", "left", "right", "bottom"], src)
        keep = {k: np.array(v) for k, v in cells.items()}
        steps = SUPPORTS[sup] + []
        nodes, elements, loads = prepare(pts, cells, data, kind, order,
                                         steps, LOADS[load])
        model = intended(points, conn, tags, edges, kind, order, steps,
                         LOADS[load])
        if extra:
            # the tutorials fix such points by hand
            nodes[[0, -1], 3:] = -1
            model[1][[0, -1]] = -1
        ctx.require(np.any(model[1] == 0))
        got = analyse(nodes, elements, loads, MATS, how, True)
        ctx.visit(kind, nx, ny, numbering, nsurf, where, src, sup, load, how,
                  extra)
        used = np.unique(conn)
        compare(ctx, got, model, used, how, True)
        for k, v in keep.items():
            ctx.same(np.array(cells[k]), v, "the mesh was modified")
        ctx.outcome(got[0])
    return run


def sequences(depth):
    """All sequences of supports; a second model from the same mesh"""
    def run(ctx):
        kind = ctx.choose("family", ["tri3", "quad4"])
        points, conn, edges = mesh_of(kind, 2, 2, "shuffled", False)
        tags = surfaces(conn, points, 2, "alternate")
        pts, cells, data = source(kind, points, conn, tags, edges, SIDES,
                                  "dictionaries")
        order = [(100, 1), (4, 0)]
        steps = []
        for k in range(depth):
            side = ctx.choose("side %d" % k, SIDES + ["enough"])
            if side == "enough":
                break
            steps.append((side, ctx.choose("flags %d" % k, [
                (-1, -1), (-1, 0), (0, -1), (0, 0)])))
        again = ctx.choose("second model", [False, True])
        for sup in [steps] + ([steps[::-1]] if again else []):
            nodes, elements, loads = prepare(pts, cells, data, kind, order,
                                             sup, LOADS["two lines"])
            model = intended(points, conn, tags, edges, kind, order, sup,
                             LOADS["two lines"])
            # supports that hold the body
            cons = model[1]
            held = all(np.any(cons[:, d] == -1) for d in (0, 1))
            rows = [[1 - d, d, points[n, 0] if d else -points[n, 1]]
                    for n in range(len(points)) for d in (0, 1)
                    if cons[n, d] == -1]
            ctx.require(held and np.linalg.matrix_rank(rows) == 3
                        and np.any(cons == 0))
            got = analyse(nodes, elements, loads, MATS, "memory", False)
            ctx.visit(kind, tuple(sup), again)
            compare(ctx, got, model, None, "memory", False)
    return run


def grids(ctx):
    """Models over rect_grid"""
    L, H = ctx.choose("size", [(2., 1.), (1e-3, 4e-3), (30., 30.)])
    nx, ny = ctx.choose("divisions", [(1, 1), (1, 4), (3, 2), (5, 5),
                                      (14, 9)])
    sup = ctx.choose("supports", ["left", "bottom", "left and bottom"])
    how = ctx.choose("analysis", ["memory", "default", "general"])
    nmat = ctx.choose("materials", ["one", "columns", "by centre"])
    x, y, els = pre.rect_grid(L, H, nx, ny)
    nodes = np.zeros((len(x), 5))
    nodes[:, 0], nodes[:, 1], nodes[:, 2] = range(len(x)), x, y
    tol = 1e-9*max(L, H)
    if "left" in sup:
        nodes[abs(x + L/2) < tol, 3] = -1
    if "bottom" in sup:
        nodes[abs(y + H/2) < tol, 4] = -1
    if sup == "left":
        nodes[(abs(x + L/2) < tol), 4] = -1
    elif sup == "bottom":
        nodes[(abs(y + H/2) < tol), 3] = -1
    if nmat == "columns":
        els[:, 2] = np.arange(len(els)) % nx % 2
    elif nmat == "by centre":
        els[:, 2] = y[els[:, 3:]].mean(axis=1) > 0
    on = np.where(abs(y - H/2) < tol)[0]
    loads = np.column_stack([on, np.full(len(on), 1/len(on)),
                             np.full(len(on), -2/len(on))])
    got = analyse(nodes, els, loads, MATS, how, True)
    ctx.visit(L, H, nx, ny, sup, how, nmat)
    # the same model over another mesh of the rectangle
    pts, conn = models.grid("quad4", nx, ny, L, H, -L/2, -H/2)
    mat = np.zeros(len(conn), dtype=int)
    if nmat == "columns":
        mat = np.arange(len(conn)) % nx % 2
    elif nmat == "by centre":
        mat = (pts[np.array(conn)][:, :, 1].mean(axis=1) > 0)*1
    ctx.require(nmat != "by centre" or ny % 2 == 0)
    lo = np.isclose(pts, [-L/2, -H/2], rtol=1e-9, atol=tol)
    cons = np.zeros((len(pts), 2), dtype=int)
    cons[lo[:, 0] if "left" in sup else lo[:, 1]] = -1
    if sup == "left and bottom":
        cons[:] = -1*lo
    top = abs(pts[:, 1] - H/2) < tol
    force = np.where(top[:, None], [1/top.sum(), -2/top.sum()], 0)
    nod, ele = models.tables(pts, conn, 1)
    ele[:, 2] = mat
    want = ref.solve(nod, cons, ele, MATS,
                     np.column_stack([nod[:, 0], force]))[0]
    eps, sig = ref.nodal_fields(nod, ele, MATS, want)
    near = np.array([int(np.argmin(np.hypot(*(pts - p).T)))
                     for p in nodes[:, 1:3]])
    ctx.check(sorted(near) == list(range(len(pts))), "nodes of the grid")
    for what, a, b in zip(("displacements", "strains", "stresses"), got,
                          (want, eps, sig)):
        ctx.close(a, b[near], what, tol=1e-7)


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("pipelines", pipelines(
            [(2, 1), (3, 2)] + ([(1, 1), (4, 3)] if deep else []),
            ["memory", "tutorial"] + (["default", "general"] if deep else [])
            ), "4 families x sizes x 3 numberings x surfaces x sources x 6 "
            "supports x 3 loads x analyses x extra points"),
        Harness("sequences", sequences(3 if deep else 2),
                "all sequences of supports, two models from one mesh"),
        Harness("grids", grids, "models over rect_grid"),
    ]
