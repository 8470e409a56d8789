"""C07: patch tests"""
from itertools import product

import numpy as np

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol
import solidspy.uelutil as ue
from solidspy.solids_GUI import solids_auto
from mc import models, ref
from mc.core import Harness

TITLE = "Patch test: uniform stress states are reproduced exactly"
STATEMENT = (
    "For every mesh of continuum elements with straight sides, however "
    "distorted, every material and every uniform stress applied by "
    "consistent boundary loads, the computed displacements are the exact "
    "linear field and the recovered nodal strains and stresses are exactly "
    "uniform. Quadratic elements also reproduce pure bending exactly.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="positions of the interior node on a grid, element kinds, "
         "diagonals, stress states, materials, sizes and load order")
WHY = ("The existing patch test uses one mesh and one kind of element; "
       "convergence for all meshes depends on this property holding for "
       "each of them.")
ANCHORS = dict(
    files=["solidspy/uelutil.py", "solidspy/femutil.py",
           "solidspy/assemutil.py", "solidspy/postprocesor.py"],
    mechanism=[dict(name="elast_* element routines", where="uelutil.py"),
               dict(name="strain_nodes", where="postprocesor.py"),
               dict(name="str_el3, str_el4, str_el6, str_el9",
                    where="femutil.py")],
    observe_at=["solids_auto()", "strain_nodes()"])
TECHNIQUE = ("explicit-state enumeration of patch geometries and stress "
             "states, executed end to end against the closed-form field")
LEVEL_NOTE = ("Exhaustive on the stated grid of patches; tolerance 1e-8 of "
              "the largest value.")

KINDS = ["quad4", "tri3", "tri6", "quad9", "quad8"]
OUTER = [(0, 0), (2, 0), (2, 2), (0, 2), (1, 0), (2, 1), (1, 2), (0, 1)]
QCELLS = [(0, 4, 8, 7), (4, 1, 5, 8), (8, 5, 2, 6), (7, 8, 6, 3)]
STRAINS = [(1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (-1., 2., .5)]


def cells(kind, diag):
    if kind.startswith("quad"):
        return QCELLS
    out = []
    for a, b, c, d in QCELLS:
        out += [(a, b, c), (a, c, d)] if diag else [(a, b, d), (b, c, d)]
    return out


def solve(ctx, kind, pts, conn, cons, loads, params, auto):
    """Displacements, nodal strains and stresses (None for quad8)"""
    mats = np.array([[9., .1, 1.], list(params)])
    if kind == "quad8":
        nodes, elements = models.tables(pts, conn, 88, 1)
        op, bc, neq = ass.DME(cons, elements, ndof_el=lambda t: 16)
        K, _ = ass.assembler(elements, mats, nodes, neq, op,
                             uel=ue.elast_quad8)
        u = sol.static_sol(K, ass.loadasem(loads, bc, neq))
        return pos.complete_disp(bc, nodes, u), None, None
    nodes, elements = models.tables(pts, conn, models.ETYPE[kind], 1)
    if auto:
        return solids_auto(dict(nodes=nodes, cons=cons, elements=elements,
                                mats=mats, loads=loads),
                           plot_contours=False, compute_strains=True)
    u, _ = models.pipeline(ass, sol, pos, nodes, cons, elements, mats, loads,
                           sparse=False)
    return (u,) + tuple(pos.strain_nodes(nodes, elements, mats, u))


def uniform(grid, sizes, materials):
    def run(ctx):
        kind = ctx.choose("element", KINDS)
        diag = ctx.choose("diagonal", [0, 1]) if kind[0] == "t" else 0
        cx = ctx.choose("interior node x", grid)
        cy = ctx.choose("interior node y", grid)
        exx, eyy, gxy = ctx.choose("strain", STRAINS)
        E, nu = ctx.choose("material", materials)
        size = ctx.choose("size", sizes)
        auto = ctx.choose("workflow", ["automatic", "steps"])
        pts, conn = models.straight(kind, OUTER + [(cx, cy)],
                                    cells(kind, diag))
        for c in cells(kind, diag):         # valid (convex) elements only
            P = pts[list(c)]
            for a, b, d in zip(P, np.roll(P, -1, 0), np.roll(P, -2, 0)):
                ctx.require((b[0] - a[0])*(d[1] - b[1])
                            - (b[1] - a[1])*(d[0] - b[0]) > .05)
        pts = pts*size
        ctx.visit(kind, diag, cx, cy, exx, eyy, gxy, E, nu, size)
        sig = ref.plane_stress(E, nu) @ np.array([exx, eyy, gxy])
        f = models.traction_loads(kind, pts, conn, lambda x, y: sig)
        want = np.column_stack([exx*pts[:, 0] + gxy*pts[:, 1],
                                eyy*pts[:, 1]])
        cons = np.zeros((len(pts), 2), dtype=int)
        cons[0] = -1
        cons[1, 1] = -1
        loads = np.column_stack([np.arange(len(pts)), f])
        if auto == "steps":
            loads = loads[::-1][np.abs(loads[::-1, 1:]).max(axis=1) > 0]
        u, eps, s = solve(ctx, kind, pts, conn, cons, loads, (E, nu, 3.),
                          auto == "automatic")
        ctx.close(u, want, "displacements", tol=1e-8)
        if eps is not None:
            scale = max(abs(exx), abs(eyy), abs(gxy))
            ctx.close(eps, np.tile([exx, eyy, gxy], (len(pts), 1)),
                      "nodal strains", tol=1e-8, scale=scale)
            ctx.close(s, np.tile(sig, (len(pts), 1)), "nodal stresses",
                      tol=1e-8, scale=E*scale)
        ctx.outcome(u)
    return run


def bending(deep):
    """Pure bending of a strip with quadratic elements (straight sides)"""
    def run(ctx):
        kind = ctx.choose("element", ["tri6", "quad9", "quad8"])
        k1 = ctx.choose("bottom node", [1.0, 1.3, .7])
        k2 = ctx.choose("axis node", [1.0, .8, 1.25])
        k3 = ctx.choose("top node", [1.0, 1.3, .7])
        # the elements are parallelograms or trapezoids; the serendipity
        # element reproduces quadratic fields for parallelograms only
        ctx.require(kind == "tri6" or k1 == k2 == k3 or
                    (kind == "quad9"))
        E, nu = ctx.choose("material", [(1.0, .3), (2e5, 0.), (3., -.5)])
        kap = ctx.choose("curvature", [1e-3, -2.])
        corners = [(0, -1), (k1, -1), (2, -1), (0, 0), (k2, 0), (2, 0),
                   (0, 1), (k3, 1), (2, 1)]
        quads = [(0, 1, 4, 3), (1, 2, 5, 4), (3, 4, 7, 6), (4, 5, 8, 7)]
        if kind == "tri6":
            cls = [t for a, b, c, d in quads
                   for t in ((a, b, c), (a, c, d))]
        else:
            cls = quads
        pts, conn = models.straight(kind, corners, cls)
        x, y = pts.T
        want = np.column_stack([-kap*x*y, kap*x*x/2 + nu*kap*y*y/2])
        f = models.traction_loads(kind, pts, conn,
                                  lambda x, y: (-E*kap*y, 0., 0.))
        cons = np.zeros((len(pts), 2), dtype=int)
        cons[3] = -1
        cons[0, 0] = cons[6, 0] = -1
        loads = np.column_stack([np.arange(len(pts)), f])
        u, eps, s = solve(ctx, kind, pts, conn, cons, loads, (E, nu, 1.),
                          True)
        ctx.visit(kind, k1, k2, k3, E, nu, kap)
        if kind == "quad9" and not k1 == k2 == k3:
            # trapezoids: x*y and x^2 are in the space of biquadratic
            # elements with straight sides, too
            pass
        ctx.close(u, want, "displacements", tol=1e-8)
        ctx.outcome(u)
    return run


def meshes(ctx):
    """Rectangular and skew meshes of several sizes"""
    kind = ctx.choose("element", KINDS[:4])
    nx, ny = ctx.choose("mesh", [(1, 1), (3, 1), (2, 3), (5, 4)])
    skew = ctx.choose("skew", [0., .4, -.7])
    exx, eyy, gxy = ctx.choose("strain", STRAINS)
    flip = ctx.choose("flip", [False, True]) if kind[0] == "t" else False
    pts, conn = models.grid(kind, nx, ny, 3., 1., flip=flip)
    pts = np.column_stack([pts[:, 0] + skew*pts[:, 1], pts[:, 1]])
    E, nu = 50., .2
    sig = ref.plane_stress(E, nu) @ np.array([exx, eyy, gxy])
    f = models.traction_loads(kind, pts, conn, lambda x, y: sig)
    want = np.column_stack([exx*pts[:, 0] + gxy*pts[:, 1], eyy*pts[:, 1]])
    cons = np.zeros((len(pts), 2), dtype=int)
    cons[0] = -1
    right = int(np.argmax(np.where(pts[:, 1] == 0, pts[:, 0], -9)))
    cons[right, 1] = -1
    loads = np.column_stack([np.arange(len(pts)), f])
    u, eps, s = solve(ctx, kind, pts, conn, cons, loads, (E, nu, 3.), True)
    ctx.visit(kind, nx, ny, skew, exx, eyy, gxy)
    ctx.close(u, want, "displacements", tol=1e-8)
    ctx.close(eps, np.tile([exx, eyy, gxy], (len(pts), 1)), "nodal strains",
              tol=1e-8, scale=1)
    ctx.close(s, np.tile(sig, (len(pts), 1)), "nodal stresses", tol=1e-8,
              scale=E)


def slight(deep):
    """Slender patches and meshes that are almost regular, all Poisson
    ratios"""
    amounts = [0., 1e-6, 1e-5, 1e-4, 1e-3, 4e-3, .015, .05]

    def run(ctx):
        kind = ctx.choose("element", KINDS)
        eps = ctx.choose("distortion", amounts)
        way = ctx.choose("direction", [(1, 0), (-.3, .8), (.6, -.7)])
        thin = ctx.choose("slenderness", [1., .1, 10., 1e-2])
        rot = ctx.choose("rotation", [0., .4, 3.3])
        nu = ctx.choose("Poisson ratio", [-.9, -.2, 0., .3, .46, .49, .499]
                        if deep or eps == 4e-3 else [.3, .48])
        ctx.require(eps or way == (1, 0))
        strain = ctx.choose("strain", STRAINS if deep else STRAINS[2:])
        corners = np.array(OUTER + [(1., 1.)], dtype=float)
        corners[8] += eps*np.array(way)
        corners[5] += [0, eps*way[1]]
        pts, conn = models.straight(kind, corners, cells(kind, 0))
        c, s = np.cos(rot), np.sin(rot)
        Q = np.array([[c, -s], [s, c]])
        pts = pts*[1., thin] @ Q.T
        exx, eyy, gxy = strain
        sig = ref.plane_stress(70., nu) @ np.array(strain)
        f = models.traction_loads(kind, pts, conn, lambda x, y: sig)
        # three simple supports; the field is moved to fulfil them
        x0, x1 = pts[0], pts[1]
        G = np.array([[exx, gxy/2], [gxy/2, eyy]])
        t = (x1 - x0)/np.linalg.norm(x1 - x0)
        ax = 0 if abs(t[1]) > abs(t[0]) else 1
        g = G @ (x1 - x0)
        # rotation w with component ax of the motion of node 1 equal to zero
        w = g[0]/(x1 - x0)[1] if ax == 0 else -g[1]/(x1 - x0)[0]
        W = G + w*np.array([[0, -1], [1, 0]])
        want = (pts - x0) @ W.T
        cons = np.zeros((len(pts), 2), dtype=int)
        cons[0] = -1
        cons[1, ax] = -1
        loads = np.column_stack([np.arange(len(pts)), f])
        u, E, S = solve(ctx, kind, pts, conn, cons, loads, (70., nu, 3.),
                        True)
        ctx.visit(kind, eps, way, thin, rot, nu, strain)
        tol = 1e-6 if thin == 1e-2 else 1e-8
        ctx.close(u, want, "displacements", tol=tol)
        if E is not None:
            tol /= min(thin, 1)
            ctx.close(E, np.tile(strain, (len(pts), 1)), "nodal strains",
                      tol=tol, scale=2)
            ctx.close(S, np.tile(sig, (len(pts), 1)), "nodal stresses",
                      tol=tol, scale=max(140., np.abs(sig).max()))
    return run


def turned(deep):
    """Patches in every orientation, elements listed from every corner,
    whole-number coordinates, parameters and places"""
    def run(ctx):
        kind = ctx.choose("element", KINDS)
        turn = ctx.choose("rotation", list(range(8)) + [.7, 2.1, 4., 5.5])
        nv = 3 if kind[0] == "t" else 4
        start = ctx.choose("first corner", nv + 1)
        moved = ctx.choose("interior node", [(8, 8), (10, 7), (6, 9)])
        place = ctx.choose("place", [(0, 0), (-40, -60), (500, 100)])
        whole = ctx.choose("numbers", ["float", "whole"])
        ctx.require(whole == "float" or turn in (0, 1, 2, 3))
        strain = ctx.choose("strain", STRAINS if deep else STRAINS[2:])
        corners = np.array([[8*x, 8*y] for x, y in OUTER] + [moved])
        pts, conn = models.straight(kind, corners, cells(kind, 1))
        if isinstance(turn, int):
            Q = models.ROTATIONS[turn]
        else:
            Q = np.array([[np.cos(turn), -np.sin(turn)],
                          [np.sin(turn), np.cos(turn)]])
        pts = pts @ Q.T + np.array(place)
        new = []
        for k, c in enumerate(conn):
            s = start if start < nv else k % nv    # all different
            row = c[s:nv] + c[:s]
            if len(c) > nv:
                mid = c[nv:2*nv]
                row += mid[s:] + mid[:s] + c[2*nv:]
            new.append(row)
        exx, eyy, gxy = strain
        sig = ref.plane_stress(70., .3) @ np.array(strain)
        # half coordinates of the middle nodes may not be whole
        if whole == "whole":
            ctx.require(np.all(pts == np.round(pts)))
        f = models.traction_loads(kind, pts, new, lambda x, y: sig)
        G = np.array([[exx, gxy/2], [gxy/2, eyy]])
        x0, x1 = pts[0], pts[1]
        v = x1 - x0
        ax = 0 if abs(v[1]) > abs(v[0]) else 1
        g = G @ v
        w = g[0]/v[1] if ax == 0 else -g[1]/v[0]
        want = (pts - x0) @ (G + w*np.array([[0, -1], [1, 0]])).T
        cons = np.zeros((len(pts), 2), dtype=int)
        cons[0] = -1
        cons[1, ax] = -1
        loads = np.column_stack([np.arange(len(pts)), f])
        ctx.visit(kind, turn, start, moved, place, whole, strain)
        given = pts.astype(int) if whole == "whole" else pts
        u, E, S = solve(ctx, kind, given, new, cons, loads, (70., .3, 3.),
                        start % 2 == 0)
        ctx.close(u, want, "displacements", tol=1e-8)
        if E is not None:
            ctx.close(E, np.tile(strain, (len(pts), 1)), "nodal strains",
                      tol=1e-8, scale=2)
            ctx.close(S, np.tile(sig, (len(pts), 1)), "nodal stresses",
                      tol=1e-8, scale=max(140., np.abs(sig).max()))
    return run


def harnesses(tier):
    deep = tier == "thorough"
    grid = [.5, .75, 1.0, 1.4] if not deep else list(np.linspace(.4, 1.5, 12))
    mats = [(1.0, .3), (2e11, 0.)] + ([(1e-3, -.5), (5., .49)] if deep
                                      else [])
    return [
        Harness("uniform", uniform(grid, [1.0, 1e-3, 2e3], mats),
                "%dx%d positions of the interior node, 5 kinds of elements, "
                "4 strain states, %d materials, 3 sizes, 2 workflows" % (
                    len(grid), len(grid), len(mats))),
        Harness("slight", slight(deep), "5 kinds x almost regular patches x "
                "slenderness x rotations x Poisson ratios"),
        Harness("turned", turned(deep), "5 kinds x 12 rotations x all first "
                "corners x 3 patches x 3 places x whole numbers"),
        Harness("bending", bending(deep), "pure bending with tri6, quad9 "
                                          "and quad8"),
        Harness("meshes", meshes, "structured skew meshes"),
    ]
