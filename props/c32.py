"""C32: refinement"""
import numpy as np

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol
import solidspy.uelutil as ue
from solidspy.solids_GUI import solids_auto
from mc import elems, models, ref
from mc.core import Harness

TITLE = "Refined meshes never get stiffer and converge to the exact solution"
STATEMENT = (
    "For the same body and loads, a mesh that refines another one (more "
    "cells, or quadratic instead of linear elements) never gives less work "
    "of the loads, so compliance converges from below. Displacements, nodal "
    "strains and stresses converge to any smooth exact solution at the "
    "theoretical rates, for every kind of element, material and shape of "
    "parallelogram mesh; polynomial solutions that the element contains are "
    "exact.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="chains of nested meshes of every element kind, manufactured "
         "polynomial solutions of degree 1 to 4, materials, shears, aspect "
         "ratios and supported sides")
WHY = ("It is a relation over sequences of analyses; a test with a fixed "
       "mesh accepts any discretisation error.")
ANCHORS = dict(
    files=["solidspy/uelutil.py", "solidspy/femutil.py",
           "solidspy/gaussutil.py", "solidspy/assemutil.py",
           "solidspy/postprocesor.py"],
    mechanism=[dict(name="elast_tri3/tri6/quad4/quad8/quad9, hex8",
                    where="uelutil.py"),
               dict(name="gauss_nd, gauss_tri", where="gaussutil.py"),
               dict(name="strain_nodes", where="postprocesor.py")],
    observe_at=["solids_auto()", "static_sol()"])
TECHNIQUE = ("explicit-state enumeration of chains of nested meshes and "
             "manufactured solutions, each analysed end to end")
LEVEL_NOTE = ("Exhaustive over the stated products; monotonicity to 1e-8 of "
              "the work, rates within a stated factor of the theoretical "
              "ones on the meshes of the bounds.")

ORDER = {"tri3": 1, "quad4": 1, "tri6": 2, "quad9": 2, "quad8": 2}
CODE = dict(models.ETYPE, quad8=88)


def build(kind, n, m, shear, aspect, flip=False):
    """Mesh of the same parallelogram; nested under doubling"""
    if kind in ("tri3", "tri6"):
        # all diagonals in the same direction: nested meshes
        quad = "quad4" if kind == "tri3" else "quad9"
        pts, qconn = models.grid(quad, n, m, aspect, 1.)
        conn = []
        for c in qconn:
            if kind == "tri3":
                cell = ([[c[0], c[1], c[2]], [c[0], c[2], c[3]]]
                        if not flip else
                        [[c[0], c[1], c[3]], [c[1], c[2], c[3]]])
            else:
                cell = ([[c[0], c[1], c[2], c[4], c[5], c[8]],
                         [c[0], c[2], c[3], c[8], c[6], c[7]]]
                        if not flip else
                        [[c[0], c[1], c[3], c[4], c[8], c[7]],
                         [c[1], c[2], c[3], c[5], c[6], c[8]]])
            conn += cell
    else:
        pts, conn = models.grid(kind, n, m, aspect, 1.)
    flat = pts.copy()
    pts = np.column_stack([pts[:, 0] + shear*pts[:, 1], pts[:, 1]])
    return pts, conn, flat


def supports(flat, which):
    cons = np.zeros((len(flat), 2), dtype=int)
    x, y = flat.T
    if which == "clamped":
        cons[x == 0] = -1
    elif which == "rollers":
        cons[x == 0, 0] = -1
        cons[(x == 0) & (y == 0), 1] = -1
    else:
        cons[y == 0] = -1
    return cons


LOADS = {"stretch": lambda x, y: (1., 0., 0.),
         "bend": lambda x, y: (y - .4, 0., 0.),
         "shear": lambda x, y: (0., 0., 1.),
         "mixed": lambda x, y: (1. + x*y, -.5*x, .3*y*y)}


def run_model(kind, pts, conn, cons, loads, mats, dense=False):
    nodes, elements = models.tables(pts, conn, CODE[kind], 0)
    if kind == "quad8":
        op, bc, neq = ass.DME(cons, elements, ndof_el=lambda t: 16)
        K, _ = ass.assembler(elements, mats, nodes, neq, op,
                             uel=ue.elast_quad8)
        u = sol.static_sol(K, ass.loadasem(loads, bc, neq))
        return pos.complete_disp(bc, nodes, u)
    return models.pipeline(ass, sol, pos, nodes, cons, elements, mats, loads,
                           sparse=not dense)[0]


# chains of finer and finer spaces: (kind, cells in x, cells in y)
CHAINS = {
    "tri3": [("tri3", 1, 1), ("tri3", 2, 2), ("tri3", 4, 4),
             ("tri3", 8, 8)],
    "quad4": [("quad4", 1, 1), ("quad4", 2, 2), ("quad4", 4, 4),
              ("quad4", 8, 8)],
    "tri6": [("tri6", 1, 1), ("tri6", 2, 2), ("tri6", 4, 4)],
    "quad9": [("quad9", 1, 1), ("quad9", 2, 2), ("quad9", 4, 4)],
    "quad8": [("quad8", 1, 1), ("quad8", 2, 2), ("quad8", 4, 4)],
    "order of triangles": [("tri3", 2, 1), ("tri6", 2, 1), ("tri6", 4, 2)],
    "order of quads": [("quad4", 2, 1), ("quad8", 2, 1), ("quad9", 2, 1),
                       ("quad9", 4, 1)],
    "one direction": [("quad4", 1, 1), ("quad4", 3, 1), ("quad4", 3, 2),
                      ("quad4", 6, 2), ("quad4", 6, 6)],
    "triangles into quadratic quads": [("tri3", 2, 2), ("tri6", 2, 2)],
    "thin": [("quad9", 1, 1), ("quad9", 1, 3), ("quad9", 5, 3)],
}


def nested(shears, aspects, mats):
    def run(ctx):
        name = ctx.choose("chain", list(CHAINS))
        shear = ctx.choose("shear", shears)
        aspect = ctx.choose("aspect", aspects)
        which = ctx.choose("support", ["clamped", "rollers", "bottom"])
        load = ctx.choose("load", list(LOADS))
        E, nu = ctx.choose("material", mats)
        flip = ctx.choose("diagonal", [False, True]) if "tri" in name \
            else False
        work = []
        for kind, n, m in CHAINS[name]:
            pts, conn, flat = build(kind, n, m, shear, aspect, flip)
            f = models.traction_loads(kind, pts, conn, LOADS[load])
            cons = supports(flat, which)
            u = run_model(kind, pts, conn, cons,
                          np.column_stack([np.arange(len(pts)), f]),
                          np.array([[E, nu, 1.]]))
            work.append(float(np.sum(u*f)))
        ctx.visit(name, shear, aspect, which, load, E, nu, flip)
        ctx.check(work[0] > 0, "work of the loads", got=work)
        for a, b in zip(work, work[1:]):
            ctx.check(b >= a*(1 - 1e-8), "a refined mesh is stiffer",
                      got=work)
        ctx.outcome(work)
    return run


# manufactured displacements: coefficients of monomials (i, j)
def field(deg, seed):
    out = []
    for comp in range(2):
        for i in range(deg + 1):
            j = deg - i
            out.append((comp, i, j, np.cos(1.3*seed + 2*i + comp + .5)))
        out.append((comp, 1, 0, .3*(seed + 1)))
        out.append((comp, 0, 1, -.2 + .1*comp))
    return out


def evaluate(terms, x, y, dx=0, dy=0):
    out = np.zeros((2,) + np.shape(x))
    for comp, i, j, c in terms:
        v = c
        p, q = i, j
        for _ in range(dx):
            v, p = v*p, p - 1
        for _ in range(dy):
            v, q = v*q, q - 1
        if v != 0:
            out[comp] += v*np.asarray(x)**p*np.asarray(y)**q
    return out


def strains(terms, x, y):
    ux = evaluate(terms, x, y, 1, 0)
    uy = evaluate(terms, x, y, 0, 1)
    return np.array([ux[0], uy[1], uy[0] + ux[1]])


def body(terms, D, x, y):
    """Body force that equilibrates the stresses"""
    xx = evaluate(terms, x, y, 2, 0)
    xy = evaluate(terms, x, y, 1, 1)
    yy = evaluate(terms, x, y, 0, 2)
    ex = np.array([xx[0], xy[1], xy[0] + xx[1]])
    ey = np.array([xy[0], yy[1], yy[0] + xy[1]])
    sx, sy = D @ ex, D @ ey
    return -np.array([sx[0] + sy[2], sx[2] + sy[1]])


def inner(kind, pts, conn, terms, D):
    """Integral of stress times strain of the exact solution"""
    tot = 0.0
    for c in conn:
        for x, w in zip(*(ref.duffy(6, 2) if kind[0] == "t" else
                          ref.gauss_box(5, 2))):
            N, dN = ref.shape(kind, x)
            e = strains(terms, *(N @ pts[c]))
            tot += w*np.linalg.det(dN @ pts[c])*(e @ D @ e)
    return tot


def flexible(u, pts):
    """Displacements without their best rigid motion"""
    c = pts - pts.mean(axis=0)
    R = np.zeros((3, len(pts), 2))
    R[0, :, 0] = R[1, :, 1] = 1
    R[2] = np.column_stack([-c[:, 1], c[:, 0]])
    R = R.reshape(3, -1).T
    a = np.linalg.lstsq(R, u.ravel(), rcond=None)[0]
    return (u.ravel() - R @ a).reshape(u.shape)


def volume_loads(kind, pts, conn, b):
    f = np.zeros((len(pts), 2))
    rk = kind
    for c in conn:
        for x, w in zip(*(ref.duffy(6, 2) if kind[0] == "t" else
                          ref.gauss_box(5, 2))):
            N, dN = ref.shape(rk, x)
            det = np.linalg.det(dN @ pts[c])
            f[c] += np.outer(N, b(*(N @ pts[c])))*det*w
    return f


def manufactured(sizes, degs, shears, materials=((1., .3), (2e11, -.2)),
                 seeds=3, aspects=(1., 2.), rates=True):
    def run(ctx):
        kind = ctx.choose("element", list(ORDER))
        deg = ctx.choose("degree of the solution", degs)
        seed = ctx.choose("coefficients", range(seeds))
        shear = ctx.choose("shear", shears)
        aspect = ctx.choose("aspect", aspects)
        E, nu = ctx.choose("material", list(materials))
        ctx.require(not (kind == "quad8" and shear and deg > 2))
        terms = field(deg, seed)
        D = ref.plane_stress(E, nu)
        p = ORDER[kind]
        e_u, e_s, e_e = [], [], []
        for n in (sizes if p == 1 else sizes[:-1]):
            pts, conn, flat = build(kind, n, n, shear, aspect)
            b = volume_loads(kind, pts, conn,
                             lambda x, y: body(terms, D, x, y))

            def stress(x, y):
                return D @ strains(terms, x, y)
            f = b + models.traction_loads(kind, pts, conn, stress)
            exact = evaluate(terms, *pts.T).T
            size = np.abs(flexible(exact, pts)).max()
            # three restrained components: move the exact solution there
            i0 = int(np.flatnonzero((flat == 0).all(axis=1))[0])
            i1 = int(np.flatnonzero((flat == [aspect, 0]).all(axis=1))[0])
            cons = np.zeros((len(pts), 2), dtype=int)
            cons[i0] = -1
            cons[i1, 1] = -1
            loads = np.column_stack([np.arange(len(pts)), f])
            mats = np.array([[E, nu, 1.]])
            if kind == "quad8":
                u = run_model(kind, pts, conn, cons, loads, mats)
            else:
                nodes, elements = models.tables(pts, conn, CODE[kind], 0)
                u, eps, sig = solids_auto(
                    dict(nodes=nodes, cons=cons, elements=elements,
                         mats=mats, loads=loads), plot_contours=False,
                    compute_strains=True)
                want = strains(terms, *pts.T).T
                e_s.append(np.abs(eps - want).max()/np.abs(want).max())
                wants = want @ D
                e2 = np.abs(sig - wants).max()/np.abs(wants).max()
                ctx.check(e2 < 4*e_s[-1] + 1e-7, "stresses as accurate as "
                          "the strains", got=(e2, e_s[-1]))
            # energy of the exact solution minus that of the computed one
            full = inner(kind, pts, conn, terms, D)
            e_e.append(1 - float(np.sum(u*f))/full)
            # up to a rigid motion, fixed by three components of two nodes
            e_u.append(np.abs(flexible(u - exact, pts)).max()/size)
        ctx.visit(kind, deg, seed, shear, aspect, E, nu)
        exact_space = deg <= p
        if exact_space:
            ctx.check(max(e_u) < 1e-8, "exact solution of the element",
                      got=e_u)
            if deg == 1 and e_s:
                ctx.check(max(e_s) < 1e-8, "uniform strains", got=e_s)
        elif not rates:     # coarse meshes, extreme materials: nested only
            for c, d in zip(e_e, e_e[1:]):
                ctx.check(d <= c*(1 + 1e-6) + 1e-9, "error of the energy",
                          got=e_e)
            ctx.check(min(e_e) > -1e-9, "convergence from below", got=e_e)
        else:
            for c, d in zip(e_e, e_e[1:]):
                ctx.check(d < c/{1: 2.0, 2: 8.}[p] or d < 1e-9,
                          "rate of the energy", got=e_e)
            ctx.check(min(e_e) > -1e-9, "convergence from below", got=e_e)
            for c, d in zip(e_u, e_u[1:]):
                ctx.check(d < c/{1: 1.05, 2: 3.}[p] or d < 1e-9,
                          "rate of the displacements", got=e_u)
        if e_s and deg > 1 and rates:
            for c, d in zip(e_s, e_s[1:]):
                ctx.check(d < c/1.2 or d < 1e-8, "convergence of the strains",
                          got=e_s)
        ctx.outcome(e_u)
    return run


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("nested", nested([0., .4] + ([-.8] if deep else []),
                                 [1., 3.] + ([.5] if deep else []),
                                 [(1., .3), (7e4, 0.)] +
                                 ([(2., -.4), (5., .48)] if deep else [])),
                "10 chains of nested meshes x shears x aspects x supports x "
                "loads x materials"),
        Harness("nested, materials", nested(
            [.2], [1.5], [(E, nu) for nu in elems.POISSON for E in
                          ((1e-9, 7e9) if deep else (7e9,))]),
                "10 chains x supports x loads x %d Poisson ratios" %
                len(elems.POISSON)),
        Harness("manufactured, materials", manufactured(
            (2, 4, 8) if deep else (1, 2, 4),
            (1, 2, 3) if deep else (2, 3), [.2],
            [(3e5, nu) for nu in elems.POISSON], 3 if deep else 1, (1.5,),
            False),
                "5 kinds x degrees x %d Poisson ratios" %
                len(elems.POISSON)),
        Harness("manufactured", manufactured(
            (2, 4, 8, 16) if deep else (2, 4, 8), (1, 2, 3, 4),
            [0., .3] + ([-.5] if deep else [])),
                "5 kinds x solutions of degree 1 to 4 x 3 coefficients x "
                "shears x aspects x materials"),
    ]
