"""C20: extraction of nodes and elements of a mesh"""
import os
from itertools import product

import numpy as np

import solidspy.preprocesor as pre
from mc import files, gmsh, models
from mc.core import Harness

TITLE = "Extracted element and node tables contain exactly the mesh given"
STATEMENT = (
    "For every mesh and distribution of physical tags, the element table of "
    "a physical surface contains exactly its elements, in the order of the "
    "mesh, with their nodes, the given type and material, and consecutive "
    "numbers from the initial one; the number returned continues the "
    "numbering in the next call, so the surfaces of a mesh together give "
    "each element once. The node table has every point once, in order, with "
    "its number and coordinates and no restraints, and the mesh is not "
    "modified.")
QUANTIFIER = dict(
    over=["inputs", "histories"],
    text="all distributions of tags over small meshes, all cell kinds, "
         "sequences of extractions, meshes read from Gmsh files")
WHY = ("There is no test of ele_writer; whether no element is lost, repeated "
       "or renumbered depends on every distribution of tags.")
ANCHORS = dict(
    files=["solidspy/preprocesor.py"],
    mechanism=[dict(name="ele_writer, node_writer", where="preprocesor.py")],
    observe_at=["ele_writer()", "node_writer()"])
TECHNIQUE = ("explicit-state enumeration of tag distributions and sequences "
             "of extractions against the mesh")
LEVEL_NOTE = "Exhaustive over the stated distributions and sequences."

KINDS = ["triangle", "quad", "triangle6", "quad8", "quad9", "line", "line3",
         "tetra", "hexahedron", "vertex"]


def conn_of(kind, n):
    m = gmsh.NODES[kind]
    return np.array([[(7*e + 3*k + e*k) % 97 for k in range(m)]
                     for e in range(n)])


def expected(conn, tags, tag, etype, mat, nini):
    ids = [e for e, t in enumerate(tags) if t == tag]
    return np.array([[nini + q, etype, mat] + list(conn[e])
                     for q, e in enumerate(ids)],
                    dtype=int).reshape(len(ids), 3 + conn.shape[1])


def tags(top):
    def run(ctx):
        kind = ctx.choose("cells", KINDS)
        n = ctx.choose("number", range(1, top + 1))
        conn = conn_of(kind, n)
        vals = [ctx.choose("tag %d" % e, [5, 6, 0]) for e in range(n)]
        nini = ctx.choose("first number", [0, 1, 12])
        etype, mat = ctx.choose("type, material", [(1, 0), (3, 2)])
        cells, data = gmsh.dictionaries([(kind, conn, vals),
                                         ("line" if kind != "line" else
                                          "quad", conn_of("line" if kind !=
                                                          "line" else "quad",
                                                          3), [5, 5, 6])])
        ctx.visit(kind, vals, nini, etype)
        start = nini
        seen = []
        for tag in (5, 6, 0, 4):
            nf, els = pre.ele_writer(cells, data, kind, tag, etype, mat,
                                     start)
            want = expected(conn, vals, tag, etype, mat, start)
            ctx.same(els, want, "element table", tag=tag)
            ctx.check(els.dtype.kind == "i", "integer table")
            ctx.check(nf == start + len(want), "next number", got=nf)
            start = nf
            seen += [tuple(r[3:]) for r in els.tolist()]
        ctx.check(sorted(seen) == sorted(map(tuple, conn.tolist())),
                  "every element once", got=seen)
        ctx.same(cells[kind], conn, "mesh was modified")
        ctx.same(data[kind]["gmsh:physical"], vals, "tags were modified")
        ctx.outcome(els)
    return run


def nodes(ctx):
    n = ctx.choose("points", [1, 2, 5, 300])
    dim = ctx.choose("columns", [2, 3])
    typ = ctx.choose("type", ["float", "int", "float32"])
    shift = ctx.choose("shift", [0, -50, 1e6])
    pts = np.array([[(3*k + j*j*5) % 11 - 4.0 + shift for j in range(dim)]
                    for k in range(n)])
    pts = pts.astype({"float": float, "int": int, "float32": np.float32}[typ])
    keep = pts.copy()
    data = ctx.choose("point data", [0, 1])
    got = pre.node_writer(pts, {"gmsh:dim_tags": np.ones((n, 2), dtype=int)}
                          if data else {})
    want = np.zeros((n, 5))
    want[:, 0] = np.arange(n)
    want[:, 1:3] = pts[:, :2]
    ctx.visit(n, dim, typ, shift)
    ctx.same(got, want, "node table")
    ctx.check(got.dtype == float, "float table")
    ctx.same(pts, keep, "points were modified")
    ctx.check(not np.shares_memory(got, pts), "aliases the points")


def meshfile(ctx):
    """Meshes written by Gmsh, read with meshio"""
    import meshio
    kind, cell = ctx.choose("cells", [("tri3", "triangle"),
                                      ("quad4", "quad"),
                                      ("tri6", "triangle6"),
                                      ("quad9", "quad9")])
    nx, ny = ctx.choose("mesh", [(1, 1), (2, 2), (12, 10)])
    mod = ctx.choose("tags", [1, 2, 3])
    lines_first = ctx.choose("lines", ["first", "last", "none"])
    pts, conn = models.grid(kind, nx, ny, 3.0, 2.0)
    vals = [10 + (k*k) % mod for k in range(len(conn))]
    blocks = [(cell, conn, vals)]
    if lines_first != "none":
        edge = [("line" if cell in ("triangle", "quad") else "line3",
                 [[e[0], e[-1]] + ([e[1]] if len(e) == 3 else [])
                  for e in models.boundary(kind, conn)], None)]
        edge = [(edge[0][0], edge[0][1], [1]*len(edge[0][1]))]
        blocks = edge + blocks if lines_first == "first" else blocks + edge
    with files.scratch() as base:
        path = os.path.join(base, "mesh.msh")
        gmsh.write(path, pts, blocks)
        mesh = meshio.read(path)
    table = pre.node_writer(mesh.points, mesh.point_data)
    ctx.visit(kind, nx, ny, mod, lines_first)
    ctx.close(table[:, 1:3], pts, "coordinates", tol=1e-15)
    ctx.same(table[:, 0], np.arange(len(pts)), "node numbers")
    ctx.same(table[:, 3:], np.zeros((len(pts), 2)), "no restraints")
    start = 0
    for t in range(mod):
        nf, els = pre.ele_writer(mesh.cells, mesh.cell_data, cell, 10 + t,
                                 models.ETYPE[kind], t, start)
        ctx.same(els, expected(np.array(conn), vals, 10 + t,
                               models.ETYPE[kind], t, start),
                 "element table", tag=t)
        start = nf
    ctx.check(start == len(conn), "all elements")


def sequence(depth):
    """Sequences of extractions over kinds and tags, tables concatenated"""
    blocks = [("triangle", conn_of("triangle", 4), [1, 2, 1, 3]),
              ("quad", conn_of("quad", 3), [2, 1, 2]),
              ("quad9", conn_of("quad9", 2), [1, 1])]
    ops = list(product(["triangle", "quad", "quad9"], [1, 2]))

    def run(ctx):
        seq = [ctx.choose("extraction %d" % k, ops) for k in range(depth)]
        cells, data = gmsh.dictionaries(blocks)
        ctx.visit(seq)
        start, done = 2, []
        for kind, tag in seq:
            nf, els = pre.ele_writer(cells, data, kind, tag, 1, 0, start)
            b = [x for x in blocks if x[0] == kind][0]
            want = expected(b[1], b[2], tag, 1, 0, start)
            ctx.same(els, want, "element table", kind=kind, tag=tag)
            done.append((els, els.copy()))
            start = nf
        for a, b in done:
            ctx.same(a, b, "an earlier table was changed")
    return run


def large(ctx):
    n = ctx.choose("elements", [256, 1000, 40000])
    kind = ctx.choose("cells", ["triangle", "quad9"])
    pattern = ctx.choose("tags", ["alternating", "blocks", "one at the end",
                                  "large numbers"])
    conn = conn_of(kind, n) + n
    k = np.arange(n)
    vals = {"alternating": k % 2, "blocks": (k > n//3).astype(int),
            "one at the end": (k == n - 1).astype(int),
            "large numbers": 100000 + k % 2 - 100000*(k % 2)}[pattern]
    tag = {"large numbers": 100000}.get(pattern, 1)
    cells, data = gmsh.dictionaries([(kind, conn, vals)])
    nf, els = pre.ele_writer(cells, data, kind, tag, 4, 3, 70000)
    ctx.visit(n, kind, pattern)
    ctx.same(els, expected(conn, vals, tag, 4, 3, 70000), "element table")
    ctx.check(nf == 70000 + len(els), "next number")


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("tags", tags(7 if deep else 5), "10 cell kinds, all "
                "distributions of 3 tags over up to %d cells" %
                (7 if deep else 5)),
        Harness("nodes", nodes, "points"),
        Harness("sequence", sequence(5 if deep else 4),
                "all sequences of extractions"),
        Harness("large", large, "large meshes"),
        Harness("meshfile", meshfile, "meshes read from files"),
    ]
