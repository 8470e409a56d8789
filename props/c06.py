"""C06: element and global mass"""
import numpy as np

import solidspy.assemutil as ass
from mc import elems, elforms, models, ref
from mc.core import Harness

TITLE = "Mass matrices are consistent and carry the whole mass"
STATEMENT = (
    "For every admissible geometry and density, the mass matrix of each "
    "element is symmetric and positive (semi)definite and equals the "
    "integral of density times the products of its interpolation functions, "
    "so that a rigid translation of the element or of a mesh carries exactly "
    "density times volume in each direction. It is proportional to the "
    "density, which is one when omitted, and independent of the elastic "
    "constants; springs have no mass.")
QUANTIFIER = dict(
    over=["inputs"],
    text="all element routines, node placements on a grid of perturbations, "
         "affine maps, orientations, sizes, positions, densities (given or "
         "omitted) and small meshes")
WHY = ("Only some elements have a test for the mass, for one geometry and "
       "unit density; default densities, orientation and scaling are "
       "untested.")
ANCHORS = dict(
    files=["solidspy/uelutil.py", "solidspy/assemutil.py"],
    mechanism=[dict(name="mass_mat of every element routine",
                    where="uelutil.py"),
               dict(name="gauss_tri, gauss_nd", where="gaussutil.py")],
    observe_at=["element routines", "assembler()"])
TECHNIQUE = ("explicit-state enumeration of geometries and densities on the "
             "real code against an independent element library")
LEVEL_NOTE = "Exhaustive on the stated grids; tolerance 1e-9 relative."

DENS = [None, 1.0, 7800., 1e-6, 0.37]


def area(coord, kind):
    _, _ = coord, kind
    return sum(w*ref.kinematics(kind, p, coord)[2]
               for p, w in zip(*ref.rule(kind, True)))


def judge(ctx, M, want, total, ndim, tol=1e-9):
    M = np.asarray(M)
    big = np.abs(want).max()
    ctx.close(M, want, "mass differs from the integral", tol=tol)
    ctx.close(M, M.T, "mass is not symmetric", tol=1e-11, scale=big)
    ev = np.linalg.eigvalsh((M + M.T)/2)
    ctx.check(ev[0] > 0, "mass is not positive definite", eigenvalues=ev)
    n = M.shape[0]//ndim
    for d in range(ndim):
        t = np.zeros(M.shape[0])
        t[d::ndim] = 1
        ctx.close(t @ M @ t, total, "mass of a translation", tol=tol)
        for e in range(ndim):
            if e != d:
                s = np.zeros(M.shape[0])
                s[e::ndim] = 1
                ctx.close(t @ M @ s, 0.0, "directions are coupled",
                          tol=1e-10, scale=total)


def call(ctx, name, coord, E, nu, rho):
    fun, kind, et, mode = elems.CONTINUUM[name]
    if rho is None:
        ctx.require(elems.optional_density(name))
        how = ctx.choose("parameters", ["tuple", "row"])
        params = elems.container(how, (E, nu))
    else:
        params = elems.container("row", (E, nu, rho))
    return fun(coord, params)[1], ref.continuum(
        kind, coord, E, nu, 1.0 if rho is None else rho), kind


def affine(ctx):
    name = ctx.choose("element", list(elems.CONTINUUM))
    nat = ref.nat_nodes(elems.CONTINUUM[name][1])
    maps = elems.affine_maps(2)
    k = ctx.choose("map", len(maps))
    size = ctx.choose("size", [1.0, 1e-6, 1e-3, 1e5])
    off = ctx.choose("position", [(0, 0), (50., -20), (-60., -40.)])
    E, nu = ctx.choose("material", [(1.0, .3), (2e11, -.2), (1e-4, 0.)])
    rho = ctx.choose("density", DENS)
    coord = size*(nat @ maps[k].T + np.array(off))
    M, (_, want), kind = call(ctx, name, coord, E, nu, rho)
    ctx.visit(name, k, size, off, E, rho)
    ref_area = {"tri3": .5, "tri6": .5}.get(kind, 4.0)
    total = (1.0 if rho is None else rho)*ref_area*abs(
        np.linalg.det(maps[k]))*size**2
    exact = ref.continuum(kind, coord, E, nu, 1.0 if rho is None else rho,
                          exact=True)[1]
    ctx.close(M, exact, "mass is not the exact integral", tol=1e-8)
    judge(ctx, M, want, total, 2, tol=1e-8)
    ctx.outcome(M)


def distorted(deep):
    table = {n: elems.distortions(elems.CONTINUUM[n][1], deep)
             for n in elems.CONTINUUM}

    def run(ctx):
        name = ctx.choose("element", list(table))
        nat = ref.nat_nodes(elems.CONTINUUM[name][1])
        k = ctx.choose("distortion", len(table[name]))
        rho = ctx.choose("density", [2.5] if name == "quad8" else [None,
                                                                   2.5])
        coord = nat + table[name][k]
        M, (_, want), kind = call(ctx, name, coord, 1., .3, rho)
        ctx.visit(name, k, rho)
        judge(ctx, M, want, (rho or 1.0)*area(coord, kind), 2)
    return run


def odd(ctx):
    """Slender, rotated and slightly distorted elements"""
    name = ctx.choose("element", list(ODD))
    label, coord = ctx.choose("shape", ODD[name])
    rho = ctx.choose("density", [2.5, 1e6] if name == "quad8" else
                     [None, 2.5])
    size = ctx.choose("size", [1., 1e-5])
    coord = coord*size
    M, (_, want), kind = call(ctx, name, coord, 4e5, .4, rho)
    ctx.visit(name, label, rho, size)
    judge(ctx, M, want, (rho or 1.0)*area(coord, kind), 2)


def constants(ctx):
    """All elastic constants and densities"""
    name = ctx.choose("element", list(elems.CONTINUUM))
    nu = ctx.choose("Poisson ratio", elems.POISSON)
    E = ctx.choose("Young modulus", elems.YOUNG)
    rho = ctx.choose("density", elems.DENSITY)
    fun, kind, _, _ = elems.CONTINUUM[name]
    coord = ref.nat_nodes(kind) @ np.array([[2, .3], [-.4, 1.]])
    M = fun(coord, (E, nu, rho))[1]
    ctx.visit(name, nu, E, rho)
    judge(ctx, M, ref.continuum(kind, coord, 1., .3, rho)[1],
          rho*2.12*({"tri3": .5, "tri6": .5}.get(kind, 4.)), 2)


ODD = {n: elems.odd_shapes(elems.CONTINUUM[n][1]) for n in elems.CONTINUUM}
LINES = {
    "spring": [(3.0,)],
    "truss": [(2., 3.), (2., 3., 5.), (1e11, 1e-4, 7800.), (7., .1, 1e-3),
              (7., 2.4, 2.7), (30., 2.4, 1e5/3)],
    "beamDU": [(2., 3.), (2., 3., 5., 7.), (1e11, 1e-6, 7800., 1e-4),
               (7., .3, 2.7, 1.6), (30., .3, 1e5/3, 2.6), (2., 3., .4, .7)],
    "beam": [(2., 3., 7.), (2., 3., 7., 5.), (1e11, 1e-6, 1e-4, 7800.),
             (7., .3, 1.6, 2.7), (30., .3, 2.6, 1e5/3), (2., 3., .7, .4)],
}


def lines(deep):
    geo = elems.line_geometry(deep)

    def run(ctx):
        name = ctx.choose("element", list(LINES))
        k = ctx.choose("axis", len(geo))
        off = ctx.choose("position", [(0, 0), (-100., 40.)])
        values = ctx.choose("parameters", LINES[name])
        how = ctx.choose("container", ["tuple", "row"])
        d, L = geo[k]
        coord = np.array([L*np.array(off), L*np.array(off) + d*L])
        fun, et = elems.LINE[name]
        M = np.asarray(fun(coord, elems.container(how, values))[1])
        _, want = ref.element(et, coord, values)
        ctx.visit(name, k, off, values)
        if name == "spring":
            ctx.same(M, np.zeros((4, 4)), "a spring has no mass")
            return
        nd = 2 if name == "truss" else 3
        unit = np.ones(2*nd)
        if nd == 3:
            unit[2::3] = 1/L
        S = np.outer(unit, unit)
        ctx.close(M*S, want*S, "mass differs from the integral", tol=1e-9)
        ctx.close(M, M.T, "mass is not symmetric", tol=1e-11,
                  scale=np.abs(want).max())
        n = np.array([-d[1], d[0]])
        rho, A = {"truss": (values[2] if len(values) > 2 else 1., values[1]),
                  "beamDU": (values[2:] if len(values) > 2 else (1., 1.)),
                  "beam": (values[3] if len(values) > 3 else 1.,
                           values[2] if name == "beam" else None)}[name]
        for v, mass in ((d, rho*A*L if name != "beamDU" else 0.0),
                        (n, rho*A*L)):
            t = np.zeros(2*nd)
            t[:2] = t[nd:nd + 2] = v
            ctx.close(t @ M @ t, mass, "mass of a translation", tol=1e-9,
                      scale=rho*A*L)
        ctx.outcome(M)
    return run


def massless(ctx):
    """Density zero: no mass at all, and the same stiffness"""
    name = ctx.choose("element", list(elems.CONTINUUM) + list(elems.SOLID) +
                      list(elems.AXI) + [k for k in LINES if k != "spring"])
    how = ctx.choose("container", ["tuple", "list", "row"])
    zero = ctx.choose("zero", [0., -0., 0])
    if name in LINES:
        fun = elems.LINE[name][0]
        coord = np.array([[0., 1.], [3., 5.]])
        values = {"truss": (5., 2., zero), "beamDU": (5., 2., zero, 3.),
                  "beam": (5., 2., 3., zero)}[name]
    else:
        fun, kind, _, _ = {**elems.CONTINUUM, **elems.SOLID,
                           **elems.AXI}[name]
        coord = ref.nat_nodes(kind) + 3.
        values = (5., .25, zero)
    ctx.visit(name, how, zero)
    K, M = fun(coord, elems.container(how, values))
    ctx.check(np.all(np.asarray(M) == 0), "mass without density", got=M)
    other = [2. if v is zero else v for v in values]
    ctx.close(K, fun(coord, elems.container(how, other))[0], "stiffness",
              tol=1e-12)


def meshes(sizes):
    def run(ctx):
        kind = ctx.choose("element", ["tri3", "tri6", "quad4", "quad9"])
        nx, ny = ctx.choose("mesh", sizes)
        lx, ly = ctx.choose("sides", [(1., 1.), (3., .5), (2e-3, 1e-3)])
        dens = ctx.choose("densities", [None, (2., 2.), (1., 9.)])
        sparse = ctx.choose("sparse", [True, False])
        pts, conn = models.grid(kind, nx, ny, lx, ly)
        et = models.ETYPE[kind]
        per = len(conn)//(nx*ny)
        mat = [(k//per) % nx % 2 for k in range(len(conn))]
        nodes, elements = models.tables(pts, conn, et, mat)
        mats = np.array([[1e3, .2], [2e3, .4]])
        if dens is not None:
            mats = np.column_stack([mats, dens])
        cons = np.zeros((len(pts), 2), dtype=int)
        op, bc, neq = ass.DME(cons, elements)
        _, M = ass.assembler(elements, mats, nodes, neq, op, sparse=sparse)
        odd = nx//2
        total = lx*ly*((nx - odd)*(dens[0] if dens else 1.)
                       + odd*(dens[1] if dens else 1.))/nx
        ctx.visit(kind, nx, ny, lx, ly, dens)
        for d in range(2):
            t = np.zeros(neq)
            t[bc[:, d]] = 1
            ctx.close(t @ (M @ t), total, "mass of the mesh", tol=1e-9)
            # first moments: mass times centre of gravity (one density)
            if dens is None or dens[0] == dens[1]:
                x = np.zeros(neq)
                x[bc[:, d]] = pts[:, 0]
                ctx.close(t @ (M @ x), total*lx/2, "first moment", tol=1e-9)
                x[bc[:, d]] = pts[:, 1]
                ctx.close(x @ (M @ x), total*ly**2/3, "second moment",
                          tol=1e-9)
    return run


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("affine", affine, "5 continuum elements x 13 maps x 4 sizes "
                                  "x 3 positions x 3 materials x 5 densities"),
        Harness("distorted", distorted(deep), "grids of node moves"),
        Harness("odd shapes", odd, "5 continuum elements x 150 to 500 "
                "slender, rotated and slightly distorted shapes"),
        Harness("constants", constants, "5 continuum elements x 21 Poisson "
                "ratios x 9 moduli x 8 densities"),
        Harness("lines", lines(deep), "4 line elements x orientations x 7 "
                                      "lengths x parameters"),
        Harness("integers", elforms.integers(1), "all tri3 and convex quad4 "
                "with nodes on a 3x3 integer grid, 4 dtypes"),
        Harness("whole numbers", elforms.whole(1), "5 continuum elements x "
                "first corners x 4 shapes x 5 positions x 5 dtypes x 4 "
                "layouts"),
        Harness("other elements", elforms.others(1), "axisymmetric and "
                "solid elements x 7 or 9 shapes x 3 positions x 4 sizes x 5 "
                "materials x 3 containers"),
        Harness("whole lines", elforms.whole_lines(1), "4 line elements x 12 "
                "axes x 4 positions x dtypes x layouts x parameters"),
        Harness("line constants", elforms.line_constants(1), "4 line elements "
                "x moduli x sections x densities"),
        Harness("massless", massless, "11 elements with density zero"),
        Harness("meshes", meshes([(1, 1), (2, 1), (2, 2)] + (
            [(3, 3), (6, 5), (12, 9)] if deep else [(3, 2)])),
            "structured meshes with one or two densities"),
    ]
