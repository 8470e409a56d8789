"""C08: independence of the frame of reference"""
from itertools import combinations, permutations, product

import numpy as np

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol
from mc import elems, elforms, models, ref
from mc.core import Harness
from props.c04 import NAMES, case

TITLE = "Results do not depend on the position or orientation of the model"
STATEMENT = (
    "Rotating or translating a model (with its loads and supports) rotates "
    "the displacements and the nodal strains and stresses with it and leaves "
    "member stresses, principal values, energies and rotations unchanged, "
    "for every element type. Element stiffness and mass matrices transform "
    "accordingly.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="rotations (quarter turns and rational ones in every quadrant), "
         "translations, models of every element type, stable supports")
WHY = ("Tests use horizontal bars and axis-parallel squares; an element "
       "that is wrong in one quadrant or for inclined members passes all of "
       "them.")
ANCHORS = dict(
    files=["solidspy/uelutil.py", "solidspy/femutil.py",
           "solidspy/postprocesor.py"],
    mechanism=[dict(name="rotation to local axes in spring, truss2D, "
                         "beam2DU, beam2D", where="uelutil.py"),
               dict(name="elast_diff_2d, jacoper", where="femutil.py"),
               dict(name="stress_truss, strain_nodes",
                    where="postprocesor.py")],
    observe_at=["element routines", "displacements", "strain_nodes()",
                "stress_truss()"])
TECHNIQUE = ("explicit-state enumeration of pairs (model, moved model), both "
             "executed on the real code")
LEVEL_NOTE = "Exhaustive over the stated motions, models and supports."

SHIFTS = [(0., 0.), (11., -4.), (-250., 1e3)]


def block(R, nd, n):
    T = np.eye(nd)
    T[:2, :2] = R
    return np.kron(np.eye(n), T)


def elements(ctx):
    name = ctx.choose("element", list(elems.CONTINUUM) + list(elems.LINE))
    k = ctx.choose("rotation", len(models.ROTATIONS))
    shift = ctx.choose("shift", SHIFTS)
    shape = ctx.choose("shape", 6)
    R = models.ROTATIONS[k]
    if name in elems.CONTINUUM:
        fun = elems.CONTINUUM[name][0]
        kind = elems.CONTINUUM[name][1]
        d = elems.distortions(kind, False)
        coord = ref.nat_nodes(kind) + d[(shape*37 + 11) % len(d)]
        params, nd = (3., .3, 2.), 2
    else:
        fun = elems.LINE[name][0]
        ang = 1.1*shape + .2
        coord = np.array([[1., 2.], [1 + 2*np.cos(ang), 2 + 2*np.sin(ang)]])
        params = {"spring": (4.,), "truss": (4., 2., 3.),
                  "beamDU": (4., 2., 3., 5.), "beam": (4., 2., 3., 5.)}[name]
        nd = 2 if name in ("spring", "truss") else 3
    K, M = fun(coord, params)
    K2, M2 = fun(coord @ R.T + np.array(shift), params)
    T = block(R, nd, len(coord))
    ctx.visit(name, k, shift, shape)
    ctx.close(T @ K @ T.T, K2, "stiffness of the moved element", tol=1e-9)
    ctx.close(T @ M @ T.T, M2, "mass of the moved element", tol=1e-9,
              scale=np.abs(M).max() + 1e-30)


ANGLES = [1e-9, 1e-7, 1e-5, 1e-3, .1, .5, np.pi/4, np.pi/3, np.pi/2 - 1e-6,
          np.pi/2, np.pi/2 + 1e-4, 2., 3*np.pi/4, np.pi - 1e-8, np.pi,
          np.pi + 1e-3, 4., 5*np.pi/4, 1.5*np.pi, 1.5*np.pi + 1e-7, 5.5,
          7*np.pi/4, 2*np.pi - 1e-6]
ODD = {n: elems.odd_shapes(elems.CONTINUUM[n][1])[::9]
       for n in elems.CONTINUUM}


def turns(ctx):
    """Tiny and large turns of slender and distorted elements of any size"""
    name = ctx.choose("element", list(elems.CONTINUUM) + list(elems.LINE))
    size = ctx.choose("size", [1., 1e-6, 1e4])
    if name in elems.CONTINUUM:
        fun = elems.CONTINUUM[name][0]
        label, coord = ctx.choose("shape", ODD[name])
        nd, params = 2, (3., .3, 2.)
    else:
        fun = elems.LINE[name][0]
        label = ctx.choose("axis", [(1., 0), (0, 1.), (.6, .8), (-1., 0),
                                    (-.28, -.96), (1., 1e-6)])
        coord = np.array([[0, 0], label])
        nd = 2 if name in ("spring", "truss") else 3
        params = ctx.choose("parameters", {
            "spring": [(4.,)], "truss": [(4., 2., 3.)],
            "beamDU": [(4., 2., 3., 5.)],
            "beam": [(4., 2., 3., 5.), (2e11, 1e-8, 1e-4, 8e3)]}[name])
    a = ctx.choose("angle", ANGLES)
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    coord = coord*size
    K, M = fun(coord, params)
    K2, M2 = fun(coord @ R.T, params)
    n = len(coord)
    T = block(R, nd, n)
    if nd == 3:                # rotations times the length
        unit = np.tile([1., 1., 1/size], n)
        K, M, K2, M2 = (x*np.outer(unit, unit) for x in (K, M, K2, M2))
    ctx.visit(name, size, label, params, a)
    thin = 1.
    if name in elems.CONTINUUM:
        kind = elems.CONTINUUM[name][1]
        thin = max(np.linalg.cond(ref.shape(kind, p)[1] @ coord)
                   for p in ref.rule(kind)[0])
    tol = 1e-10*max(thin, 10)
    ctx.close(T @ K @ T.T, K2, "stiffness of the turned element", tol=tol)
    ctx.close(T @ M @ T.T, M2, "mass of the turned element", tol=tol,
              scale=np.abs(M).max() + 1e-300)


def axis_turns():
    """The 24 turns of a cube and some others"""
    out = []
    for p in permutations(range(3)):
        for s in product((1, -1), repeat=3):
            A = np.zeros((3, 3))
            A[range(3), p] = s
            if np.linalg.det(A) > 0:
                out.append(A)
    for k, a in enumerate([1e-7, 1e-4, .3, 1.1, 2.5, np.pi/4, 4., 5.9]):
        A = np.eye(3)
        i, j = [(0, 1), (1, 2), (2, 0)][k % 3]
        A[i, i] = A[j, j] = np.cos(a)
        A[i, j], A[j, i] = -np.sin(a), np.sin(a)
        out.append(A)
    out.append(out[-1] @ out[-2] @ out[-3])
    return out


TURNS3 = axis_turns()


def solids(ctx):
    """Turned and moved solid elements, axisymmetric elements moved along
    their axis"""
    name = ctx.choose("element", ["tet4", "hex8", "axi9"])
    size = ctx.choose("size", [1., 1e-5, 1e3])
    params = ctx.choose("material", [(3., .3, 2.), (2e11, .48, 7850.),
                                     (5., -.4, .1)])
    if name == "axi9":
        label, coord = ctx.choose("section", elforms.revolved())
        move = ctx.choose("shift along the axis", [-1e-3, 5., -24., 400.])
        coord = (coord + [30., 0])*size
        new, T = coord + [0, move*size], np.eye(18)
        k = move
    else:
        label, coord = ctx.choose("shape", elforms.shapes3d(name))
        coord = coord*size
        k = ctx.choose("turn", range(len(TURNS3)))
        shift = ctx.choose("shift", [(0, 0, 0), (30, -80, 50)])
        new = coord @ TURNS3[k].T + np.array(shift)*size
        T = np.kron(np.eye(len(coord)), TURNS3[k])
        k = (k, shift)
    fun = {**elems.AXI, **elems.SOLID}[name][0]
    K, M = fun(coord, params)
    K2, M2 = fun(new, params)
    ctx.visit(name, label, size, params, k)
    ctx.close(T @ K @ T.T, K2, "stiffness of the moved element", tol=1e-8)
    ctx.close(T @ M @ T.T, M2, "mass of the moved element", tol=1e-8)


def supports(nn, deep):
    return [c for n in ((1, 2, 3) if deep else (1, 2))
            for c in combinations(range(nn), n)]


def analysis(ctx, pts, conn, et, nd, mats, clamped, rollers, loads, sparse):
    cons = np.zeros((len(pts), nd), dtype=int)
    cons[list(clamped)] = -1
    for n, d in rollers:
        cons[n, d] = -1
    nodes, elements_ = models.tables(pts, conn, et,
                                     [k % 2 for k in range(len(conn))])
    u, info = models.pipeline(ass, sol, pos, nodes, cons, elements_, mats,
                              loads, nd, sparse)
    out = dict(u=u, energy=pos.energy(info["u"], info["K"]))
    if np.max(et) <= 4:
        out["E"], out["S"] = pos.strain_nodes(nodes, elements_, mats, u)
    if np.max(et) == np.min(et) == 6:
        out["N"] = pos.stress_truss(nodes, elements_, mats, u)
    return out


def stable(pts, conn, et, nd, mats, fixed):
    nodes, elements_ = models.tables(pts, conn, et,
                                     [k % 2 for k in range(len(conn))])
    K, _ = ref.full_matrices(nodes, elements_, mats, nd)
    free = [k for k in range(len(pts)*nd) if k not in fixed]
    K = K[np.ix_(free, free)]
    d = np.sqrt(np.abs(np.diag(K)))
    if np.any(d == 0):
        return False
    return np.linalg.eigvalsh(K/np.outer(d, d))[0] > 1e-4


def voigt(R, t, factor):
    """Rotate rows xx, yy, factor*xy"""
    out = np.empty_like(t)
    for k, (a, b, c) in enumerate(t):
        m = R @ np.array([[a, c/factor], [c/factor, b]]) @ R.T
        out[k] = m[0, 0], m[1, 1], factor*m[0, 1]
    return out


def judge(ctx, one, two, R, nd):
    T = np.eye(nd)
    T[:2, :2] = R
    ctx.close(two["u"], one["u"] @ T.T, "displacements of the moved model",
              tol=1e-7)
    ctx.close(two["energy"], one["energy"], "energy", tol=1e-7)
    if "E" in one:
        ctx.close(two["E"], voigt(R, one["E"], 2.), "nodal strains",
                  tol=1e-7, scale=np.abs(one["E"]).max())
        ctx.close(two["S"], voigt(R, one["S"], 1.), "nodal stresses",
                  tol=1e-7, scale=np.abs(one["S"]).max())
        for r in (one, two):
            a, b, _, _ = pos.principal_dirs(r["S"])
            r["p"] = np.sort(np.column_stack([a, b]), axis=1)
        ctx.close(two["p"], one["p"], "principal stresses", tol=1e-5,
                  scale=np.abs(one["S"]).max())
    if "N" in one:
        ctx.close(two["N"], one["N"], "member stresses", tol=1e-7,
                  scale=np.abs(one["N"]).max())


def moved(deep):
    def run(ctx):
        name = ctx.choose("model", NAMES)
        pts, conn, et, nd, mats = case(name)
        if name == "beam":        # no axial stiffness: only translations
            clamped = ()
            k = 0
            rollers = [(n, 0) for n in range(3)] + [(0, 1), (2, 1)]
        else:
            clamped = ctx.choose("clamped nodes", supports(len(pts), deep))
            k = ctx.choose("rotation", range(len(models.ROTATIONS)))
            rollers = []
        fixed = {n*nd + d for n in clamped for d in range(nd)} | {
            n*nd + d for n, d in rollers}
        ctx.require(len(clamped) < len(pts))
        ctx.require(stable(pts, conn, et, nd, mats, fixed))
        shift = ctx.choose("shift", SHIFTS)
        ctx.require(k or any(shift))
        R = models.ROTATIONS[k]
        T = np.eye(nd)
        T[:2, :2] = R
        f = np.array([[1. + n, 2. - n, .5*n][:nd] for n in range(len(pts))])
        one = analysis(ctx, pts, conn, et, nd, mats, clamped, rollers,
                       np.column_stack([np.arange(len(pts)), f]), True)
        two = analysis(ctx, pts @ R.T + np.array(shift), conn, et, nd, mats,
                       clamped, rollers,
                       np.column_stack([np.arange(len(pts)), f @ T.T]),
                       bool(len(clamped) % 2))
        ctx.visit(name, clamped, k, shift)
        judge(ctx, one, two, R, nd)
        ctx.outcome(one["u"])
    return run


def tilted(ctx):
    """Tiny and large turns of models of any size"""
    name = ctx.choose("model", [n for n in NAMES if n != "beam"])
    pts, conn, et, nd, mats = case(name)
    clamped = ctx.choose("clamped nodes", supports(len(pts), False)[::3])
    a = ctx.choose("angle", ANGLES)
    size = ctx.choose("size", [1., 1e-3, 200.])
    shift = ctx.choose("shift", [(0., 0.), (-20., -35.)])
    fixed = {n*nd + d for n in clamped for d in range(nd)}
    ctx.require(len(clamped) < len(pts))
    pts = pts*size
    if nd == 3:                  # keep the ratio of bending to stretching
        mats = mats.copy()
        mats[:, 1] *= size**2
    ctx.require(stable(pts, conn, et, nd, mats, fixed))
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    T = np.eye(nd)
    T[:2, :2] = R
    f = np.array([[1. + n, 2. - n, .5*n*size][:nd] for n in range(len(pts))])
    one = analysis(ctx, pts, conn, et, nd, mats, clamped, [],
                   np.column_stack([np.arange(len(pts)), f]), True)
    two = analysis(ctx, pts @ R.T + np.array(shift)*size, conn, et, nd, mats,
                   clamped, [],
                   np.column_stack([np.arange(len(pts)), f @ T.T]), False)
    ctx.visit(name, clamped, a, size, shift)
    if nd == 3:
        one["u"][:, 2] *= size
        two["u"][:, 2] *= size
    judge(ctx, one, two, R, nd)


def quarter(deep):
    """Quarter turns with roller supports: directions are exchanged"""
    def run(ctx):
        name = ctx.choose("model", [n for n in NAMES if n != "beam"])
        pts, conn, et, nd, mats = case(name)
        nn = len(pts)
        pin = ctx.choose("pin", nn)
        roll = ctx.choose("roller", [n for n in range(nn) if n != pin])
        d = ctx.choose("roller direction", 2)
        k = ctx.choose("quarter turns", [1, 2, 3])
        fixed = {pin*nd, pin*nd + 1, roll*nd + d}
        ctx.require(stable(pts, conn, et, nd, mats, fixed))
        R = models.ROTATIONS[k]
        T = np.eye(nd)
        T[:2, :2] = R
        f = np.array([[1. - n, 2. + n, .5*n][:nd] for n in range(nn)])
        one = analysis(ctx, pts, conn, et, nd, mats, (),
                       [(pin, 0), (pin, 1), (roll, d)],
                       np.column_stack([np.arange(nn), f]), True)
        two = analysis(ctx, pts @ R.T, conn, et, nd, mats, (),
                       [(pin, 0), (pin, 1), (roll, d if k == 2 else 1 - d)],
                       np.column_stack([np.arange(nn), f @ T.T]), True)
        ctx.visit(name, pin, roll, d, k)
        judge(ctx, one, two, R, nd)
    return run


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("elements", elements, "9 elements x 8 rotations x 3 shifts x "
                                      "6 shapes"),
        Harness("turns", turns, "9 elements x slender and distorted shapes or "
                "axes x 23 angles from 1e-9 x 3 sizes"),
        Harness("solids", solids, "tet4, hex8 x 9 shapes x 33 turns x 2 "
                "shifts, axisymmetric x 7 sections x 4 shifts, 3 sizes x 3 "
                "materials"),
        Harness("moved", moved(deep), "11 models x all pairs of clamped "
                                      "nodes x 8 rotations x 3 shifts"),
        Harness("tilted", tilted, "10 models x supports x 23 angles from "
                "1e-9 x 3 sizes x 2 shifts"),
        Harness("quarter", quarter(deep), "10 models x all pin/roller pairs "
                                          "x quarter turns"),
    ]
