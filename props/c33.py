"""C33: vibration with the assembled stiffness and mass"""
from itertools import combinations

import numpy as np
from scipy.linalg import eigh

import solidspy.assemutil as ass
from mc import models, ref
from mc.core import Harness

TITLE = "Natural frequencies of assembled models are right and bounded"
STATEMENT = (
    "The assembled stiffness and mass matrices give the natural frequencies "
    "of the structure: those of chains of bars have their closed form, those "
    "of beams and frames approach the exact ones from above, an unsupported "
    "body has exactly its rigid motions at frequency zero. Frequencies never "
    "grow when the mesh is refined or mass is added, never fall when "
    "supports are added, and do not depend on orientation or numbering; they "
    "scale with stiffness, density and size as physics demands.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="models of every element type, subdivisions, all single added "
         "supports, rotations, densities and sizes, both storage schemes")
WHY = ("No test uses stiffness and mass together, so a mass matrix that is "
       "inconsistent with the stiffness goes unnoticed.")
ANCHORS = dict(
    files=["solidspy/assemutil.py", "solidspy/uelutil.py"],
    mechanism=[dict(name="assembler, sparse_assem, dense_assem",
                    where="assemutil.py"),
               dict(name="mass matrices of the elements",
                    where="uelutil.py")],
    observe_at=["assembler()"])
TECHNIQUE = ("explicit-state enumeration of models with comparison of the "
             "whole spectra against closed forms and across models")
LEVEL_NOTE = ("Exhaustive over the stated products; closed forms to 1e-7, "
              "relations between spectra to 1e-8.")


def matrices(nodes, cons, elements, mats, ndof=2, sparse=True):
    op, bc, neq = ass.DME(cons, elements, ndof_node=ndof)
    K, M = ass.assembler(elements, mats, nodes, neq, op, sparse=sparse)
    if sparse:
        K, M = K.toarray(), M.toarray()
    return K, M


def spectrum(K, M):
    """Squared frequencies"""
    return eigh((K + K.T)/2, (M + M.T)/2, eigvals_only=True)


def chains(ctx):
    """Bars in a row: closed form of the discrete chain"""
    n = ctx.choose("bars", [1, 2, 3, 5, 8, 13])
    ends = ctx.choose("ends", ["fixed-free", "fixed-fixed", "free-free"])
    turn = ctx.choose("axis", ["x", "y", "-x", "-y"])
    E, A, rho = ctx.choose("material", [(1., 1., 1.), (2.1e11, 3e-4, 7800.),
                                        (50., 2., .1)])
    L = ctx.choose("length", [1.0, 1e-2, 300.])
    how = ctx.choose("elements", ["truss", "frame", "truss backwards"])
    sparse = ctx.choose("storage", [True, False])
    ctx.require(not (n == 1 and ends == "fixed-fixed"))
    h = L/n
    ax = 0 if "x" in turn else 1
    sgn = -1 if "-" in turn else 1
    pts = np.zeros((n + 1, 2))
    pts[:, ax] = sgn*h*np.arange(n + 1)
    conn = [[k, k + 1][::-1 if "back" in how else 1] for k in range(n)]
    frame = how == "frame"
    nodes, elements = models.tables(pts, conn, 8 if frame else 6)
    cons = -np.ones((n + 1, 3 if frame else 2), dtype=int)
    cons[:, ax] = 0
    if ends != "free-free":
        cons[0, ax] = -1
    if ends == "fixed-fixed":
        cons[n, ax] = -1
    mats = np.array([[E, A, rho]]) if not frame else \
        np.array([[E, .3, A, rho]])
    K, M = matrices(nodes, cons, elements, mats, 3 if frame else 2, sparse)
    if ends == "fixed-free":
        th = (2*np.arange(1, n + 1) - 1)*np.pi/2/n
    elif ends == "fixed-fixed":
        th = np.arange(1, n)*np.pi/n
    else:
        th = np.arange(0, n + 1)*np.pi/n
    want = 6*E/rho/h**2*(1 - np.cos(th))/(2 + np.cos(th))
    got = spectrum(K, M)
    ctx.visit(n, ends, turn, E, L, how)
    ctx.close(got, want, "spectrum", tol=1e-9)
    # and each of them to its own scale
    big = want > 1e-3*want.max()
    ctx.close(got[big]/want[big], np.ones(np.sum(big)), "each frequency",
              tol=1e-7)
    ctx.outcome(got)


# beta*L of the uniform beam
BEAM = {"simple": [np.pi*k for k in range(1, 5)],
        "cantilever": [1.875104068711961, 4.694091132974175,
                       7.854757438237613, 10.99554073487547],
        "clamped": [4.730040744862704, 7.853204624095838,
                    10.995607838001671, 14.137165491257464],
        "propped": [3.926602312047919, 7.068582745628732,
                    10.210176122813031, 13.351768777754093],
        "free": [0., 0., 4.730040744862704, 7.853204624095838,
                 10.995607838001671]}


def beams(sizes):
    def run(ctx):
        case = ctx.choose("supports", list(BEAM))
        etype = ctx.choose("element", [7, 8])
        turn = ctx.choose("direction", range(3))
        E, I, A, rho = ctx.choose("section", [(1., 1., 1., 1.),
                                              (2.1e11, 8e-6, 5e-3, 7800.),
                                              (3e3, 40., 2., .5)])
        L = ctx.choose("length", [1.0, 12.])
        prev = None
        for n in sizes:
            t = np.array([[1., 0], [0, 1.], [-1., 0]])[turn]
            pts = np.outer(np.arange(n + 1)*L/n, t) + [2., -1.]
            nodes, elements = models.tables(
                pts, [[k, k + 1] for k in range(n)], etype)
            ax = 0 if turn != 1 else 1
            cons = np.zeros((n + 1, 3), dtype=int)
            cons[:, ax] = -1
            w = 1 - ax
            if case == "simple":
                cons[0, w] = cons[n, w] = -1
            elif case == "cantilever":
                cons[0] = -1
            elif case == "clamped":
                cons[0] = cons[n] = -1
            elif case == "propped":
                cons[0] = -1
                cons[n, w] = -1
            mats = np.array([[E, I, rho, A]]) if etype == 7 else \
                np.array([[E, I, A, rho]])
            K, M = matrices(nodes, cons, elements, mats, 3)
            got = spectrum(K, M)
            want = np.array(BEAM[case])**4*E*I/(rho*A*L**4)
            m = min(len(want), len(got))
            ctx.check(np.all(got[:m] >= want[:m]*(1 - 1e-6)
                             - 1e-7*got[-1]*1e-3),
                      "frequencies from above", got=got[:m], want=want[:m])
            for j in range(m):
                if case == "free" and j < 2:
                    ctx.check(abs(got[j]) < 1e-8*got[-1], "rigid motion",
                              got=got[j])
                    continue
                bh = BEAM[case][j]/n
                if bh < 2:
                    ctx.check(got[j] <= want[j]*(1 + bh**4/300 + 1e-6),
                              "accuracy of a frequency", mode=j, n=n,
                              got=got[j], want=want[j])
            if prev is not None:
                q = min(len(prev), len(got))
                ctx.check(np.all(got[:q] <= prev[:q]*(1 + 1e-8)
                                 + 1e-8*got[q - 1]),
                          "refinement raised a frequency", got=got[:q],
                          want=prev[:q])
            prev = got
        ctx.visit(case, etype, turn, E, L)
        ctx.outcome(got[:4])
    return run


LINE = np.array([[200., 3, 4, 5], [500, 1, 2, 1]])
CONT = np.array([[1e3, .3, 2.], [4e3, .1, 1.]])
NAMES = ["quad4", "tri3", "tri6", "quad9", "truss", "tower", "frame",
         "portal"]


def case(name):
    """points, conn, type, ndof, materials"""
    if name in models.ETYPE:
        n = 2 if name in ("quad4", "tri3") else 1
        pts, conn = models.grid(name, n, 1, 2.0, 1.0)
        return models.smooth(pts, .06), conn, models.ETYPE[name], 2, CONT
    if name == "truss":
        return (*models.truss_square(), 6, 2, LINE[:, 1:])
    if name == "tower":
        return (*models.triangles(5), 6, 2, LINE[:, 1:])
    if name == "frame":
        pts, conn = models.triangles(4)
        return pts*[2., 1.5], conn, 8, 3, LINE
    return (*models.portal(), 8, 3, LINE)


def free_bodies(ctx):
    """Unsupported: rigid motions at zero, all others above"""
    name = ctx.choose("model", NAMES)
    turn = ctx.choose("turned", range(8))
    at = ctx.choose("position", [(0., 0.), (40., -15.)])
    size = ctx.choose("size", [1., 1e-3])
    sparse = ctx.choose("storage", [True, False])
    pts, conn, et, nd, mats = case(name)
    pts = (pts @ models.ROTATIONS[turn].T + np.array(at))*size
    nodes, elements = models.tables(pts, conn, et,
                                    [k % 2 for k in range(len(conn))])
    n = len(pts)
    K, M = matrices(nodes, np.zeros((n, nd), dtype=int), elements, mats, nd,
                    sparse)
    # scale the rotations
    got = spectrum(K, M)
    ctx.visit(name, turn, at, size)
    ctx.check(np.all(np.abs(got[:3]) < 1e-8*got[-1]), "rigid motions",
              got=got[:4])
    ctx.check(got[3] > max(100*np.abs(got[:3]).max(), 1e-12*got[-1]), "no other motion without stiffness",
              got=got[:5])
    ref0 = case(name)
    nodes, elements = models.tables(ref0[0]*size, conn, et,
                                    [k % 2 for k in range(len(conn))])
    K0, M0 = matrices(nodes, np.zeros((n, nd), dtype=int), elements, mats,
                      nd)
    ctx.close(got, spectrum(K0, M0), "spectrum after moving the body",
              tol=1e-8)


def interlacing(ctx, depth=2):
    """Adding one support: new frequencies lie between the old ones"""
    name = ctx.choose("model", NAMES)
    pts, conn, et, nd, mats = case(name)
    n = len(pts)
    first = ctx.choose("restrained before", [
        c for k in range(depth) for c in combinations(range(n*nd), k)])
    new = ctx.choose("new support", range(n*nd))
    ctx.require(new not in first)
    nodes, elements = models.tables(pts, conn, et,
                                    [k % 2 for k in range(len(conn))])
    cons = np.zeros((n, nd), dtype=int)
    for i in first:
        cons.flat[i] = -1
    a = spectrum(*matrices(nodes, cons, elements, mats, nd))
    cons.flat[new] = -1
    b = spectrum(*matrices(nodes, cons, elements, mats, nd))
    eps = 1e-9*a[-1]
    ctx.visit(name, first, new)
    ctx.check(np.all(b >= a[:-1] - eps) and np.all(b <= a[1:] + eps),
              "interlacing", before=a, after=b)
    ctx.outcome(b)


def scaling(ctx):
    """Moduli, densities and sizes; one heavier or stiffer element"""
    name = ctx.choose("model", NAMES)
    change = ctx.choose("change", ["modulus", "density", "size",
                                   "heavier element", "stiffer element"])
    x = ctx.choose("factor", [4., .01, 1e6])
    pts, conn, et, nd, mats = case(name)
    n = len(pts)
    E, rho = 0, mats.shape[1] - 1
    if et == 6:
        rho = 2
    cons = np.zeros((n, nd), dtype=int)
    cons[0] = -1
    cons[n - 1] = -1
    mat = [k % 2 for k in range(len(conn))]

    def run(pts, mats, mat):
        nodes, elements = models.tables(pts, conn, et, mat)
        return spectrum(*matrices(nodes, cons, elements, mats, nd))
    base = run(pts, mats, mat)
    ctx.visit(name, change, x)
    if change in ("modulus", "density"):
        m = mats.copy()
        m[:, E if change == "modulus" else rho] *= x
        got = run(pts, m, mat)
        ctx.close(got, base*(x if change == "modulus" else 1/x),
                  "scaled spectrum", tol=1e-8)
    elif change == "size":
        ctx.require(name not in ("frame", "portal"))
        # truss areas cancel; continuum: 1/size^2
        got = run(pts*x, mats, mat)
        ctx.close(got, base/x**2, "scaled spectrum", tol=1e-8)
    else:
        ctx.require(x > 1)
        k = ctx.choose("element", range(len(conn)))
        m = np.vstack([mats, mats[mat[k]]])
        m[2, rho if change == "heavier element" else E] *= x
        mat2 = list(mat)
        mat2[k] = 2
        got = run(pts, m, mat2)
        eps = 1e-9*max(base[-1], got[-1])
        if change == "heavier element":
            ctx.check(np.all(got <= base + eps), "heavier is not slower",
                      got=got, want=base)
        else:
            ctx.check(np.all(got >= base - eps), "stiffer is not faster",
                      got=got, want=base)


def refined(ctx):
    """Nested meshes of parallelograms: every frequency falls"""
    kind = ctx.choose("kind", ["tri3", "quad4", "tri6", "quad9"])
    skew = ctx.choose("skew", [0., .5])
    lx = ctx.choose("length", [1., 3.])
    sup = ctx.choose("supports", ["free", "clamped", "bottom"])
    E, nu, rho = ctx.choose("material", [(1., .3, 1.), (2e11, 0., 7800.)])
    sizes = [(1, 1), (2, 2), (4, 4)] if kind in ("tri3", "quad4") else \
        [(1, 1), (2, 2)]
    prev = None
    ctx.visit(kind, skew, lx, sup, E)
    for nx, ny in sizes:
        quad = {"tri3": "quad4", "tri6": "quad9"}.get(kind, kind)
        pts, conn = models.grid(quad, nx, ny, lx, 1.)
        if kind == "tri3":
            conn = [t for c in conn for t in ([c[0], c[1], c[2]],
                                              [c[0], c[2], c[3]])]
        elif kind == "tri6":
            conn = [t for c in conn for t in (
                [c[0], c[1], c[2], c[4], c[5], c[8]],
                [c[0], c[2], c[3], c[8], c[6], c[7]])]
        cons = np.zeros((len(pts), 2), dtype=int)
        if sup == "clamped":
            cons[pts[:, 0] == 0] = -1
        elif sup == "bottom":
            cons[pts[:, 1] == 0] = -1
        pts = np.column_stack([pts[:, 0] + skew*pts[:, 1], pts[:, 1]])
        nodes, elements = models.tables(pts, conn, models.ETYPE[kind])
        got = spectrum(*matrices(nodes, cons, elements,
                                 np.array([[E, nu, rho]])))
        if prev is not None:
            q = len(prev)
            ctx.check(np.all(got[:q] <= prev + 1e-9*prev[-1]),
                      "refinement raised a frequency", got=got[:q],
                      want=prev)
        if sup == "free":
            ctx.check(np.all(np.abs(got[:3]) < 1e-9*got[-1]) and
                      got[3] > 1e-9*got[-1], "rigid motions", got=got[:4])
        prev = got
    ctx.outcome(prev)


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("chains", chains, "chains of up to 13 bars x ends x axes x "
                "materials x lengths x elements"),
        Harness("beams", beams((2, 4, 8, 16, 32) if deep else (2, 4, 8)),
                "5 supports x 2 elements x directions x sections, refined"),
        Harness("free bodies", free_bodies, "8 models x 8 rotations x "
                "positions x sizes x storage"),
        Harness("interlacing", (lambda ctx: interlacing(ctx, 3)) if deep
                else interlacing, "8 models x every first support "
                "x every added support"),
        Harness("scaling", scaling, "8 models x changes x factors"),
        Harness("refined", refined, "nested meshes of 4 kinds"),
    ]
