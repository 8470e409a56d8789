"""C25: triangulation of meshes for plotting"""
from collections import Counter
from itertools import permutations

import numpy as np

import solidspy.postprocesor as pos
from mc import models
from mc.core import Harness

TITLE = "The plotting triangulation tiles every element exactly once"
STATEMENT = (
    "For every mesh of continuum elements, of one or several types, the "
    "triangulation uses the nodes of the mesh with their coordinates, and "
    "the triangles of each element are counterclockwise, use only nodes of "
    "that element and all of them, and tile it without gaps or overlaps, so "
    "that the total area is that of the mesh and neighbouring elements are "
    "joined along their common sides. Every element is drawn, wherever it is "
    "in the table, and the tables are not modified.")
QUANTIFIER = dict(
    over=["inputs"],
    text="meshes of all continuum types, orders and orientations of their "
         "elements, curved sides, numberings of the nodes")
WHY = ("No test looks at mesh2tri; gaps and flipped triangles are invisible "
       "to tests that only run the plotting functions.")
ANCHORS = dict(
    files=["solidspy/postprocesor.py"],
    mechanism=[dict(name="mesh2tri", where="postprocesor.py")],
    observe_at=["mesh2tri()"])
TECHNIQUE = ("explicit-state enumeration of meshes and numberings; combined "
             "area, side-matching and node-set oracle")
LEVEL_NOTE = "Exhaustive over the stated meshes."

NNODES = {1: 4, 2: 6, 3: 3, 4: 9}
NTRI = {1: 2, 2: 4, 3: 1, 4: 8}
LOOP = {1: [0, 1, 2, 3], 2: [0, 3, 1, 4, 2, 5], 3: [0, 1, 2],
        4: [0, 4, 1, 5, 2, 6, 3, 7]}


def area(P):
    Q = np.roll(P, -1, axis=0)
    return .5*np.sum(P[:, 0]*Q[:, 1] - Q[:, 0]*P[:, 1])


def judge(ctx, nodes, elements, tri):
    T = np.asarray(tri.triangles)
    ctx.same(tri.x, nodes[:, 1], "x of the triangulation")
    ctx.same(tri.y, nodes[:, 2], "y of the triangulation")
    total = sum(NTRI[int(e[1])] for e in elements)
    ctx.check(T.shape == (total, 3), "number of triangles", got=T.shape)
    pts = nodes[:, 1:3]
    sides_all = Counter()
    left = [tuple(t) for t in T.tolist()]
    for e in elements:
        et = int(e[1])
        conn = [int(c) for c in e[3:3 + NNODES[et]]]
        mine, left = left[:NTRI[et]], left[NTRI[et]:]
        ctx.check(all(set(t) <= set(conn) for t in mine),
                  "triangle with nodes of another element", element=conn,
                  triangles=mine)
        ctx.check({v for t in mine for v in t} == set(conn),
                  "a node of the element is not used", element=conn,
                  triangles=mine)
        areas = [area(pts[list(t)]) for t in mine]
        loop = [conn[q] for q in LOOP[et]]
        want = area(pts[loop])
        ctx.check(min(areas) > 0, "clockwise triangle", element=conn,
                  triangles=mine)
        ctx.close(sum(areas), want, "area of the element", tol=1e-11,
                  element=conn)
        # directed sides: inner ones cancel, the outer ones are the loop
        sides = Counter()
        for t in mine:
            for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
                if sides[b, a]:
                    sides[b, a] -= 1
                else:
                    sides[a, b] += 1
        rest = sorted(k for k, v in sides.items() for _ in range(v))
        ctx.check(rest == sorted(zip(loop, loop[1:] + loop[:1])),
                  "boundary of the triangles of the element", element=conn,
                  triangles=mine)
        sides_all.update(rest)
    ctx.check(max(sides_all.values()) == 1, "a side is used twice in the "
              "same direction")


def table(pts, conn, et):
    nodes, elements = models.tables(pts, conn, et, 0)
    return nodes, elements


def meshes(sizes):
    def run(ctx):
        kind = ctx.choose("element", list(models.ETYPE))
        nx, ny = ctx.choose("mesh", sizes)
        shape = ctx.choose("shape", ["straight", "curved", "turned", "tiny",
                                     "huge and far"])
        first = ctx.choose("first node", range(4 if "quad" in kind else 3))
        num = ctx.choose("numbering", ["natural", "reversed", "shuffled"])
        elo = ctx.choose("element order", ["natural", "reversed"])
        pts, conn = models.grid(kind, nx, ny, 2.0, 1.5, flip=first % 2 == 1)
        if shape == "curved":
            pts = models.smooth(pts, .08)
        elif shape == "turned":
            pts = pts @ models.ROTATIONS[6].T
        elif shape == "tiny":
            pts = pts*1e-7
        elif shape == "huge and far":
            pts = pts*1e4 + 1e5
        nv = 4 if "quad" in kind else 3
        new = []
        for c in conn:
            parts = [c[:nv][first:] + c[:nv][:first]]
            if len(c) > nv:
                mids = c[nv:2*nv]
                parts.append(mids[first:] + mids[:first])
            parts.append(c[2*nv:])
            new.append([v for p in parts for v in p])
        n = len(pts)
        perm = {"natural": np.arange(n), "reversed": np.arange(n)[::-1],
                "shuffled": np.argsort(np.sin(5.*np.arange(n)))}[num]
        inv = np.argsort(perm)
        conn = [[int(inv[v]) for v in c] for c in new]
        pts = pts[perm]
        if elo == "reversed":
            conn = conn[::-1]
        nodes, elements = table(pts, conn, models.ETYPE[kind])
        keep = nodes.copy(), elements.copy()
        tri = pos.mesh2tri(nodes, elements)
        ctx.visit(kind, nx, ny, shape, first, num, elo)
        judge(ctx, nodes, elements, tri)
        ctx.same(nodes, keep[0], "nodes were modified")
        ctx.same(elements, keep[1], "elements were modified")
        ctx.outcome(tri.triangles)
    return run


def extra_columns(ctx):
    """Nodal tables with restraints, unused nodes, other materials"""
    kind = ctx.choose("element", list(models.ETYPE))
    cols = ctx.choose("columns", [3, 5, 6])
    unused = ctx.choose("unused nodes", [0, 1, 3])
    pts, conn = models.grid(kind, 2, 1)
    pts = np.vstack([[[9., 9. + k] for k in range(unused)] or
                     np.zeros((0, 2)), pts])
    conn = [[v + unused for v in c] for c in conn]
    nodes, elements = models.tables(pts, conn, models.ETYPE[kind],
                                    [5 - k % 4 for k in range(len(conn))])
    nodes = np.column_stack([nodes, -np.ones((len(pts), cols - 3))])
    ctx.visit(kind, cols, unused)
    judge(ctx, nodes, elements, pos.mesh2tri(nodes, elements))


def lonely(ctx):
    """One element with every assignment of numbers to its nodes (up to
    permutations of six numbers)"""
    kind = ctx.choose("element", list(models.ETYPE))
    pts, conn = models.grid(kind, 1, 1)
    conn = conn[0]
    own = sorted(set(conn))
    perms = list(permutations(range(min(len(own), 6))))
    perm = ctx.choose("numbers", perms)
    order = list(perm) + list(range(len(perm), len(own)))
    P = np.zeros((len(own), 2))
    ids = {}
    for k, v in enumerate(own):
        ids[v] = order[k]
        P[order[k]] = pts[v]
    nodes, elements = models.tables(P, [[ids[v] for v in conn]],
                                    models.ETYPE[kind])
    ctx.visit(kind, perm)
    judge(ctx, nodes, elements, pos.mesh2tri(nodes, elements))


def numbers(ctx):
    """Large node numbers in small tables"""
    kind = ctx.choose("element", list(models.ETYPE))
    far = ctx.choose("node numbers from", [100, 120, 250, 32760, 65530,
                                           100000])
    stride = ctx.choose("stride", [1, 3])
    pts, conn = models.grid(kind, 2, 2)
    conn = [[far + stride*v for v in c] for c in conn]
    n = far + stride*len(pts)
    P = np.column_stack([np.cos(np.arange(n)), np.sin(np.arange(n))])
    P[far:far + stride*len(pts):stride] = pts
    nodes, elements = table(P, conn, models.ETYPE[kind])
    ctx.visit(kind, far, stride)
    judge(ctx, nodes, elements, pos.mesh2tri(nodes, elements))


def mixed(ctx):
    """Tables with several types; rows of elements with fewer nodes are
    filled up"""
    n = ctx.choose("elements", [2, 3, 4])
    kinds = [ctx.choose("element %d" % k, list(models.ETYPE))
             for k in range(n)]
    fill = ctx.choose("filled with", ["zeros", "minus one", "last node"])
    order = ctx.choose("order", ["natural", "reversed"])
    pts, conn = [], []
    for k, kind in enumerate(kinds):
        p, c = models.grid(kind, 1, 1, 1., 1., 1.5*k, .2*k)
        c = c[k % len(c)]
        used = sorted(set(c))
        conn.append([len(pts) + used.index(v) for v in c])
        pts += [tuple(p[v]) for v in used]
    if order == "reversed":
        conn, kinds = conn[::-1], kinds[::-1]
    rows = []
    for k, (kind, c) in enumerate(zip(kinds, conn)):
        pad = {"zeros": 0, "minus one": -1, "last node": c[-1]}[fill]
        rows.append([k, models.ETYPE[kind], 0] + c + [pad]*(9 - len(c)))
    width = 3 + max(len(c) for c in conn)
    elements = np.array(rows)[:, :width]
    nodes = np.column_stack([np.arange(len(pts)), np.array(pts)])
    keep = elements.copy()
    ctx.visit(kinds, fill, order)
    judge(ctx, nodes, elements, pos.mesh2tri(nodes, elements))
    ctx.same(elements, keep, "elements were modified")


def harnesses(tier):
    deep = tier == "thorough"
    sizes = [(1, 1), (2, 1), (3, 2), (9, 8)] + ([(5, 7), (30, 20)] if deep
                                                else [])
    return [
        Harness("meshes", meshes(sizes), "4 types x sizes x shapes x "
                "orientations x numberings"),
        Harness("lonely", lonely, "single elements, all numberings"),
        Harness("mixed", mixed, "all sequences of 2 to 4 elements of the "
                "four types in one table"),
        Harness("numbers", numbers, "node numbers up to 100000 in small "
                "tables"),
        Harness("columns", extra_columns, "wider tables, unused nodes"),
    ]
