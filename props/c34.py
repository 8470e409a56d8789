"""C34: axisymmetric analyses"""
import numpy as np

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol
import solidspy.uelutil as ue
from mc import models, ref
from mc.core import Harness

TITLE = "Axisymmetric models are solids of revolution, solved exactly"
STATEMENT = (
    "Models of axisymmetric nine-node elements represent the whole solid of "
    "revolution: total loads are over the full circumference, the mass is "
    "that of the revolved volume, and translation along the axis is the only "
    "free rigid motion. Uniform stresses are reproduced exactly on every "
    "patch; pressurised and rotating cylinders converge to their closed "
    "forms from below at the theoretical rate; results do not depend on the "
    "position along the axis, the units or the numbering.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="patches with all positions of the interior node, radii including "
         "the axis, strain states, support patterns, cylinders over ratios "
         "of radii, materials and meshes")
WHY = ("No test evaluates the axisymmetric element, and its errors (missing "
       "circumference, hoop strain) show only in assembled models.")
ANCHORS = dict(
    files=["solidspy/uelutil.py", "solidspy/femutil.py",
           "solidspy/assemutil.py"],
    mechanism=[dict(name="elast_axi_quad9", where="uelutil.py"),
               dict(name="elast_diff_axi, elast_mat_axi",
                    where="femutil.py"),
               dict(name="assembler (uel), DME (ndof_el)",
                    where="assemutil.py")],
    observe_at=["static_sol() of assembled axisymmetric models"])
TECHNIQUE = ("explicit-state enumeration of axisymmetric models executed end "
             "to end against closed forms and a reference model")
LEVEL_NOTE = ("Exhaustive over the stated products; patch tests to 1e-8, "
              "cylinders by their convergence.")

OUTER = [(0, 0), (2, 0), (2, 2), (0, 2), (1, 0), (2, 1), (1, 2), (0, 1)]
CELLS = [(0, 4, 8, 7), (4, 1, 5, 8), (8, 5, 2, 6), (7, 8, 6, 3)]


def analyse(pts, conn, mat, mats, cons, loads, sparse=True):
    nodes, elements = models.tables(pts, conn, 41, mat)
    op, bc, neq = ass.DME(cons, elements, ndof_el=lambda t: 18)
    K, M = ass.assembler(elements, mats, nodes, neq, op, sparse=sparse,
                         uel=ue.elast_axi_quad9)
    u = sol.static_sol(K, ass.loadasem(loads, bc, neq))
    return pos.complete_disp(bc, nodes, u), K, M


def tractions(pts, conn, stress):
    """Loads over the circumference; stress(r, z) -> (srr, szz, srz)"""
    f = np.zeros((len(pts), 2))
    xg, wg = np.polynomial.legendre.leggauss(6)
    for e in models.boundary("quad9", conn):
        P = pts[list(e)]
        for x, w in zip(xg, wg):
            N = np.array([x*(x - 1)/2, 1 - x*x, x*(x + 1)/2])
            dN = np.array([x - .5, -2*x, x + .5])
            t = dN @ P
            r, z = N @ P
            srr, szz, srz = stress(r, z)
            n = np.array([t[1], -t[0]])
            T = np.array([srr*n[0] + srz*n[1], srz*n[0] + szz*n[1]])
            f[list(e)] += 2*np.pi*r*w*np.outer(N, T)
    return f


def patches(grid):
    def run(ctx):
        cx = ctx.choose("interior node r", grid)
        cy = ctx.choose("interior node z", grid)
        r0 = ctx.choose("inner radius", [0., .5, 3., 40.])
        a, b = ctx.choose("strain", [(1., 0.), (0., 1.), (-.4, 2.)])
        E, nu = ctx.choose("material", [(1., .3), (2e11, 0.), (50., .45)])
        size = ctx.choose("size", [1., 1e-3])
        z0 = ctx.choose("height", [0., -25.])
        pts, conn = models.straight("quad9", OUTER + [(cx, cy)], CELLS)
        for c in CELLS:
            P = pts[list(c)]
            for p, q, d in zip(P, np.roll(P, -1, 0), np.roll(P, -2, 0)):
                ctx.require((q[0] - p[0])*(d[1] - q[1])
                            - (q[1] - p[1])*(d[0] - q[0]) > .05)
        pts = (pts + [r0, z0])*size
        C = ref.hooke_axi(E, nu)
        s = C @ np.array([a, b, 0., a])
        f = tractions(pts, conn, lambda r, z: (s[0], s[1], s[2]))
        cons = np.zeros((len(pts), 2), dtype=int)
        cons[0, 1] = -1
        if r0 == 0:
            cons[np.flatnonzero(pts[:, 0] == 0), 0] = -1
        got, K, M = analyse(pts, conn, 1, np.array([[9., .1, 2.],
                                                    [E, nu, 3.]]),
                            cons, np.column_stack([np.arange(len(pts)), f]))
        want = np.column_stack([a*pts[:, 0], b*(pts[:, 1] - pts[0, 1])])
        ctx.visit(cx, cy, r0, a, b, E, nu, size, z0)
        ctx.close(got, want, "displacements", tol=1e-7 if r0 > 9 else 1e-8)
        ctx.outcome(got)
    return run


MATS = np.array([[1e3, .3, 2.], [250., .1, .5]])


def reference(ctx):
    """Any supports, loads and curved elements against the reference"""
    nx, ny = ctx.choose("mesh", [(1, 1), (2, 1), (1, 2)])
    r0 = ctx.choose("inner radius", [.25, 4.])
    bend = ctx.choose("distortion", [0., .06])
    storage = ctx.choose("storage", [True, False])
    pts, conn = models.grid("quad9", nx, ny, 1.5*nx, 1.*ny)
    pts = models.smooth(pts, bend) + [r0, 0]
    if bend:
        ctx.require(pts[:, 0].min() > 0)
    n = len(pts)
    k = ctx.choose("axial support", range(n))
    j = ctx.choose("other support", range(2*n))
    cons = np.zeros((n, 2), dtype=int)
    cons[k, 1] = -1
    cons.flat[j] = -1
    mat = [q % 2 for q in range(len(conn))]
    loads = np.array([[v, 2. - v, np.cos(v)] for v in range(n)])
    got, Kg, Mg = analyse(pts, conn, mat, MATS, cons, loads, storage)
    nodes, elements = models.tables(pts, conn, 41, mat)
    K, M = ref.full_matrices(
        nodes, elements, MATS,
        fun=lambda t, c, p: ref.continuum("quad9", c, *p, mode="axi"))
    free = np.flatnonzero(cons.ravel() == 0)
    want = np.zeros(2*n)
    f = loads[:, 1:].ravel()
    want[free] = np.linalg.solve(K[np.ix_(free, free)], f[free])
    ctx.visit(nx, ny, r0, bend, k, j)
    ctx.close(Kg, K[np.ix_(free, free)], "stiffness", tol=1e-10)
    ctx.close(Mg, M[np.ix_(free, free)], "mass", tol=1e-10)
    ctx.close(got, want.reshape(n, 2), "displacements", tol=1e-7)


def freebody(ctx):
    nx, ny = ctx.choose("mesh", [(1, 1), (3, 1), (2, 2)])
    r0 = ctx.choose("inner radius", [0., .25, 4., 100.])
    z0 = ctx.choose("height", [0., -7.])
    skew = ctx.choose("skew", [0., .5, -.2])
    size = ctx.choose("size", [1.0, 2e-3, 50.])
    E, nu = ctx.choose("material", [(1., .3), (2e11, .45), (7., -.2)])
    pts, conn = models.grid("quad9", nx, ny, 2., 1.)
    pts = np.column_stack([pts[:, 0] + (skew*pts[:, 1] if skew > 0 else
                                        skew*(pts[:, 1] - 1)), pts[:, 1]])
    pts = (pts + [r0, z0])*size
    rho = 3.0
    n = len(pts)
    nodes, elements = models.tables(pts, conn, 41, 0)
    op, bc, neq = ass.DME(np.zeros((n, 2), dtype=int), elements,
                          ndof_el=lambda t: 18)
    K, M = ass.assembler(elements, np.array([[E, nu, rho]]), nodes, neq, op,
                         uel=ue.elast_axi_quad9)
    K, M = K.toarray(), M.toarray()
    ctx.visit(nx, ny, r0, z0, skew, size, E, nu)
    up = np.tile([0., 1.], n)
    ctx.close(K @ up, np.zeros(2*n), "axial translation", tol=1e-9,
              scale=np.abs(K).max())
    ev = np.linalg.eigvalsh(K)
    ctx.check(ev[0] > -1e-9*ev[-1] and ev[1] > 1e-9*ev[-1],
              "one rigid motion", got=ev[:3])
    # Pappus: the section is a parallelogram
    cx = r0*size + size*(1. + abs(skew)/2)
    ctx.close(up @ M @ up, rho*2*np.pi*cx*2*size**2, "mass", tol=1e-9)
    r = np.column_stack([pts[:, 0], 0*pts[:, 1]]).ravel()
    # polar moment of inertia of the solid: int rho r^2 dV
    c = r0*size
    xg, wg = np.polynomial.legendre.leggauss(4)
    want = 0.0
    for s, ws in zip(xg, wg):
        h = (s + 1)/2
        left = c + size*(skew*h if skew > 0 else skew*(h - 1))
        for t, wt in zip(xg, wg):
            rr = left + size*(t + 1)
            want += 2*np.pi*rho*rr**3*ws*wt*size*size/2
    ctx.close(r @ M @ r, want, "polar moment of inertia", tol=1e-9)
    # stretching: energy of u = (r, 0)
    Cm = ref.hooke_axi(E, nu)
    e = np.array([1., 0, 0, 1])
    vol = 2*np.pi*cx*2*size**2
    ctx.close(r @ K @ r, e @ Cm @ e*vol, "energy of a radial stretch",
              tol=1e-8)


def forms(ctx):
    """Whole numbers, containers, sizes, materials, corners: the element and
    its assembly against the reference"""
    shape = ctx.choose("section", ["square", "thin radially", "thin axially",
                                   "distorted", "curved", "skew"])
    start = ctx.choose("first corner", 4)
    flip = ctx.choose("listed", ["once", "with a neighbour"])
    r0 = ctx.choose("inner radius", [0, 1, 50, 2000, 200000])
    z0 = ctx.choose("height", [0, -300])
    form = ctx.choose("numbers", ["float", "whole", "tuple", "list", "row",
                                  "read-only"])
    size = ctx.choose("size", [1.] if form == "whole" else
                      [1., 1e-9, 1e-6, 1e-3, 1e6])
    E, nu, rho = ctx.choose("material", [(70., .3, 2.), (1e-6, 0., 1e-9),
                                         (2e11, .4995, 7850.), (3., -.9, 1e6)])
    nat = ref.nat_nodes("quad9")
    sec = 12*(nat + 1)
    if shape.startswith("thin"):
        sec = sec*([1, 60] if "radially" in shape else [60, 1])
    elif shape == "distorted":
        sec = sec + np.array([[0, 0], [0, 0], [4, 2], [0, 0], [0, 0], [2, 1],
                              [2, 1], [0, 0], [1, 1]])
    elif shape == "curved":
        sec = sec + np.array([[0, 0]]*4 + [[1, 1], [2, 0], [0, 0], [1, -1],
                                           [1, 2]])
    elif shape == "skew":
        sec = sec + np.column_stack([sec[:, 1], sec[:, 0]*0])
    sec = sec + [r0, z0]
    loop = list(range(start, 4)) + list(range(start))
    order = loop + [4 + k for k in loop] + [8]
    coord = sec[order]
    ctx.require(coord[:, 0].min() >= 0)
    coord = coord*size if form != "whole" else np.round(coord).astype(int)
    par = {"tuple": (E, nu, rho), "list": [E, nu, rho]}.get(
        form, np.array([[1., .1, 1.], [E, nu, rho]])[1])
    given = np.array(coord)
    if form == "read-only":
        given.flags.writeable = False
    ctx.visit(shape, start, flip, r0, z0, form, size, E)
    want = ref.continuum("quad9", np.array(coord, dtype=float), E, nu, rho,
                         mode="axi")
    # far from the axis the coordinates are much larger than the section
    tol = 1e-9
    if flip == "once":
        K, M = ue.elast_axi_quad9(given, par)
        ctx.close(K, want[0], "stiffness", tol=tol)
        ctx.close(M, want[1], "mass", tol=tol)
        ctx.same(given, coord, "coordinates were modified")
        return
    ctx.require(form in ("float", "whole", "read-only"))
    nodes, elements = models.tables(coord, [list(range(9))]*2, 41, [1, 0])
    mats = np.array([[2*E, .2, 3*rho], [E, nu, rho]])
    if form == "whole":
        nodes = nodes.astype(int)
    op, bc, neq = ass.DME(np.zeros((9, 2), dtype=int), elements,
                          ndof_el=lambda t: 18)
    K, M = ass.assembler(elements, mats, nodes, neq, op, sparse=start > 1,
                         uel=ue.elast_axi_quad9)
    second = ref.continuum("quad9", np.array(coord, dtype=float), *mats[0],
                           mode="axi")
    ctx.close(K, want[0] + second[0], "assembled stiffness", tol=tol)
    ctx.close(M, want[1] + second[1], "assembled mass", tol=tol)


def lame(ratio, E, nu, p):
    """Plane strain cylinder of radii 1 and ratio under inner pressure"""
    b2 = ratio**2
    A = p*(1 + nu)*(1 - 2*nu)/E/(b2 - 1)
    B = p*(1 + nu)*b2/E/(b2 - 1)
    return lambda r: A*r + B/r


def rotating(ratio, E, nu, q):
    """Plane strain cylinder of radii 1 and ratio with body force q*r"""
    lam = E*nu/(1 + nu)/(1 - 2*nu)
    mu = E/2/(1 + nu)
    c = q/(8*(lam + 2*mu))
    # u = A r + B/r - c r^3; stress-free at both radii
    rows, rhs = [], []
    for r in (1., ratio):
        rows.append([2*(lam + mu), -2*mu/r**2])
        rhs.append(c*r*r*((lam + 2*mu)*3 + lam))
    A, B = np.linalg.solve(rows, rhs)
    return lambda r: A*r + B/r - c*r**3


def cylinders(meshes):
    def run(ctx):
        load = ctx.choose("load", ["pressure", "rotation"])
        ratio = ctx.choose("ratio of the radii", [1.2, 2., 4.])
        E, nu = ctx.choose("material", [(1., .3), (2e5, 0.), (3., .45)])
        size = ctx.choose("size", [1.0, .01])
        cut = ctx.choose("layers", [1, 2])
        errs, works = [], []
        for n in meshes:
            pts, conn = models.grid("quad9", n, cut, ratio - 1, .5*cut)
            pts = (pts + [1., 3.])*size
            m = len(pts)
            cons = np.zeros((m, 2), dtype=int)
            cons[:, 1] = -1                   # plane strain
            mats = np.array([[E, nu, 2.5]])
            if load == "pressure":
                f = tractions(pts, conn,
                              lambda r, z: (-.7*(r < 1.0000001*size), 0, 0))
                exact = lame(ratio, E, nu, .7)
                want = size*exact(pts[:, 0]/size)
            else:
                nodes, elements = models.tables(pts, conn, 41, 0)
                op, bc, neq = ass.DME(np.zeros((m, 2), dtype=int), elements,
                                      ndof_el=lambda t: 18)
                _, M = ass.assembler(elements, mats, nodes, neq, op,
                                     uel=ue.elast_axi_quad9)
                r = np.column_stack([pts[:, 0], 0*pts[:, 0]]).ravel()
                f = (9.*(M @ r)).reshape(m, 2)
                exact = rotating(ratio, E, nu, 9.*2.5*size**2)
                want = size*exact(pts[:, 0]/size)
            got, K, _ = analyse(pts, conn, 0, mats, cons,
                                np.column_stack([np.arange(m), f]))
            errs.append(np.abs(got[:, 0] - want).max()/np.abs(want).max())
            works.append(float(np.sum(f*got)))
        ctx.visit(load, ratio, E, nu, size, cut)
        first = errs[meshes.index(2)]
        ctx.check(first < .05*(ratio - 1)**2, "error of a coarse mesh",
                  got=errs)
        for n, a, b in zip(meshes, errs, errs[1:]):
            # one element over the thickness is not yet asymptotic
            ctx.check(b < a/(6 if n > 1 else 3) or b < 1e-9,
                      "rate of convergence", got=errs)
        for a, b in zip(works, works[1:]):
            ctx.check(b >= a*(1 - 1e-10), "convergence from below",
                      got=works)
        ctx.outcome(works)
    return run


def refused(ctx):
    """Elements on the wrong side of the axis are refused"""
    shift = ctx.choose("position", [-5., -2.5, -1.2, 0., .5])
    z = ctx.choose("height", [0., 4.])
    size = ctx.choose("size", [1., 1e-3, 1e-8, 1e6])
    pts, conn = models.grid("quad9", 1, 1, 1., 1., shift, z)
    pts = pts*size
    ctx.visit(shift, z, size)

    def call():
        return ue.elast_axi_quad9(pts[conn[0]], (1., .3, 2.))
    if shift < 0:
        ctx.raises(ValueError, call, "negative radius")
    else:
        K, M = call()
        ctx.check(np.all(np.isfinite(K)), "finite stiffness")


def harnesses(tier):
    deep = tier == "thorough"
    grid = [.6, 1., 1.3] if not deep else [.5, .6, .8, 1., 1.2, 1.35, 1.5]
    return [
        Harness("patches", patches(grid), "%dx%d positions of the interior "
                "node x 4 radii x strains x materials x sizes" % (
                    len(grid), len(grid))),
        Harness("reference", reference, "3 meshes x distortions x all pairs "
                "of supports"),
        Harness("free bodies", freebody, "sections x radii x sizes x "
                "materials"),
        Harness("forms", forms, "6 sections x 4 first corners x radii x "
                "containers x sizes x materials"),
        Harness("cylinders", cylinders((1, 2, 4, 8, 16) if deep else
                                       (2, 4, 8)),
                "pressurised and rotating cylinders, refined meshes"),
        Harness("refused", refused, "elements at negative radii"),
    ]
