"""C05: element stiffness matrices"""
import numpy as np

from mc import elems, elforms, ref
from mc.core import Harness

TITLE = "Element stiffness: symmetric, rigid motions free, right energy"
STATEMENT = (
    "For every admissible geometry, material and position, the stiffness of "
    "each element is symmetric and positive semidefinite, its null space "
    "contains the rigid motions and (for the continuum elements) nothing "
    "else, and it equals the second derivative of the strain energy of the "
    "element integrated with its documented number of Gauss points. It is "
    "independent of the position in the plane and does not depend on the "
    "density or on whether the coordinates are integers or floats.")
QUANTIFIER = dict(
    over=["inputs"],
    text="all element routines, node placements on a grid of perturbations, "
         "affine maps, orientations, sizes, positions, materials and "
         "parameter containers")
WHY = ("Tests compare each element with one matrix for one geometry (unit "
       "square, unit triangle, horizontal bar), where whole families of "
       "errors (rotation, distortion, scaling, Poisson terms) cancel.")
ANCHORS = dict(
    files=["solidspy/uelutil.py", "solidspy/femutil.py",
           "solidspy/gaussutil.py"],
    mechanism=[dict(name="elast_tri3, elast_tri6, elast_quad4, elast_quad8, "
                         "elast_quad9", where="uelutil.py"),
               dict(name="spring, truss2D, beam2DU, beam2D",
                    where="uelutil.py"),
               dict(name="elast_diff_2d, jacoper, umat",
                    where="femutil.py")],
    observe_at=["element routines"])
TECHNIQUE = ("explicit-state enumeration of geometries and materials on the "
             "real code against an independent element library")
LEVEL_NOTE = ("Exhaustive on the stated grids of geometries and materials; "
              "tolerance 1e-9 relative.")

MATERIALS = [(1.0, 0.3), (2e11, 0.25), (1e-3, 0.0), (7., -.9), (3., .4995),
             (1e3, -.3)]


def rigid_plane(coord):
    n = len(coord)
    out = np.zeros((3, 2*n))
    out[0, 0::2] = 1
    out[1, 1::2] = 1
    c = coord - coord.mean(axis=0)
    out[2, 0::2] = -c[:, 1]
    out[2, 1::2] = c[:, 0]
    return out


def judge(ctx, K, want, modes, rank, tol=1e-9):
    K = np.asarray(K)
    ctx.close(K, want, "stiffness differs from the strain energy", tol=tol)
    big = np.abs(want).max()
    ctx.close(K, K.T, "stiffness is not symmetric", tol=1e-10, scale=big)
    ev = np.linalg.eigvalsh((K + K.T)/2)
    ctx.check(ev[0] >= -1e-9*ev[-1], "negative energy", eigenvalues=ev)
    for k, mode in enumerate(modes):
        ctx.close(K @ mode, 0*mode, "rigid motion %d has energy" % k,
                  tol=1e-9, scale=big*np.abs(mode).max())
    if rank is not None:
        ctx.check((ev > 1e-7*ev[-1]).sum() == rank, "rank of the stiffness",
                  eigenvalues=ev, want=rank)


def compute(ctx, name, coord, E, nu, how):
    fun, kind, et, mode = elems.CONTINUUM[name]
    values = (E, nu) if how.endswith("2") else (E, nu, 7.5)
    params = elems.container(how[:-1], values)
    keep = coord.copy()
    K, M = fun(coord, params)
    ctx.same(coord, keep, "coordinates were modified")
    if isinstance(params, np.ndarray):
        ctx.same(params, np.array(values), "parameters were modified")
    return K, ref.continuum(kind, keep, E, nu, 1.0)[0]


def hows(name):
    return ["tuple3", "row3", "list3"] + (
        ["row2", "tuple2"] if elems.optional_density(name) else [])


def affine(names, deep):
    def run(ctx):
        name = ctx.choose("element", names)
        nat = ref.nat_nodes(elems.CONTINUUM[name][1])
        maps = elems.affine_maps(2)
        k = ctx.choose("map", len(maps))
        size = ctx.choose("size", [1.0, 1e-6, 1e-3, 1e5])
        off = ctx.choose("position", [(0, 0), (50., -20), (-7., 3.),
                                      (-60., -40.), (1., 1.)])
        E, nu = ctx.choose("material", MATERIALS)
        how = ctx.choose("parameters", hows(name))
        coord = size*(nat @ maps[k].T + np.array(off))
        K, want = compute(ctx, name, coord, E, nu, how)
        ctx.visit(name, k, size, off, E, nu)
        n = 2*len(nat)
        # exact integration for affine elements
        kind = elems.CONTINUUM[name][1]
        exact = ref.continuum(kind, coord, E, nu, 1.0, exact=True)[0]
        ctx.close(K, exact, "stiffness of an affine element is not exact",
                  tol=1e-8)
        judge(ctx, K, want, rigid_plane(coord)/size, n - 3, tol=1e-8)
        ctx.outcome(K)
    return run


def distorted(names, deep):
    table = {n: elems.distortions(elems.CONTINUUM[n][1], deep)
             for n in names}

    def run(ctx):
        name = ctx.choose("element", names)
        nat = ref.nat_nodes(elems.CONTINUUM[name][1])
        k = ctx.choose("distortion", len(table[name]))
        E, nu = ctx.choose("material", [(1.0, .3), (2e5, -.4)])
        coord = nat + table[name][k]
        K, want = compute(ctx, name, coord, E, nu, "row3")
        ctx.visit(name, k, E, nu)
        # quad4 with 2x2 points has the full rank 5; others are complete too
        judge(ctx, K, want, rigid_plane(coord), 2*len(nat) - 3)
    return run


def odd(mats):
    table = {n: elems.odd_shapes(elems.CONTINUUM[n][1])
             for n in elems.CONTINUUM}

    def run(ctx):
        name = ctx.choose("element", list(table))
        label, coord = ctx.choose("shape", table[name])
        E, nu = ctx.choose("material", mats)
        K, want = compute(ctx, name, coord, E, nu, "row3")
        ctx.visit(name, label, E, nu)
        judge(ctx, K, want, rigid_plane(coord), None, tol=1e-8)
        # the energies of all deformations, also of the soft ones
        s = 1/np.sqrt(np.diag(want))
        S = np.outer(s, s)
        ctx.close(K*S, want*S, "scaled stiffness", tol=1e-7)
        if label[-3][0] < 30*label[-3][1] and label[-3][1] < 30*label[-3][0]:
            judge(ctx, K, want, [], len(K) - 3)
    return run


def constants(ctx):
    """All elastic constants and densities"""
    name = ctx.choose("element", list(elems.CONTINUUM))
    fun, kind, et, mode = elems.CONTINUUM[name]
    nu = ctx.choose("Poisson ratio", elems.POISSON)
    E = ctx.choose("Young modulus", elems.YOUNG)
    rho = ctx.choose("density", [None] + elems.DENSITY)
    ctx.require(rho is not None or elems.optional_density(name))
    coord = ref.nat_nodes(kind) @ np.array([[2, .3], [-.4, 1.]])
    params = (E, nu) if rho is None else (E, nu, rho)
    ctx.visit(name, E, nu, rho)
    K = fun(coord, params)[0]
    judge(ctx, K, ref.continuum(kind, coord, E, nu, 1.0)[0],
          rigid_plane(coord), None if abs(nu) > .9 else len(K) - 3,
          tol=1e-9)


LINE_PARAMS = {
    "spring": [(1.0,), (2e6,), (1e-4,)],
    "truss": [(1.0, 1.0), (2e11, 1e-4, 7800.), (5., 3., 2.)],
    "beamDU": [(1.0, 1.0), (2e11, 1e-6, 7800., 1e-4), (5., 3., 2., 4.)],
    "beam": [(1.0, 1.0, 1.0), (2e11, 1e-6, 1e-4, 7800.), (5., 3., 2., 4.),
             (5., 3., 2.)],
}


def lines(deep):
    geo = elems.line_geometry(deep)

    def run(ctx):
        name = ctx.choose("element", list(elems.LINE))
        k = ctx.choose("axis", len(geo))
        off = ctx.choose("position", [(0, 0), (3., -8.), (-100., 40.)])
        values = ctx.choose("parameters", LINE_PARAMS[name])
        how = ctx.choose("container", ["tuple", "list", "row"] + (
            ["scalar"] if name == "spring" else []))
        d, L = geo[k]
        start = L*np.array(off)
        coord = np.array([start, start + d*L])
        fun, et = elems.LINE[name]
        params = values[0] if how == "scalar" else elems.container(how,
                                                                   values)
        keep = coord.copy()
        K, M = fun(coord, params)
        ctx.same(coord, keep, "coordinates were modified")
        want, _ = ref.element(et, keep, values)
        ctx.visit(name, k, off, values)
        # compare in natural units: rotations are multiplied by the length
        nd = 2 if name in ("spring", "truss") else 3
        unit = np.ones(2*nd)
        if nd == 3:
            unit[2::3] = 1/L
        S = np.outer(unit, unit)
        ctx.check(np.shape(K) == (2*nd, 2*nd), "shape", got=np.shape(K))
        t, n = d, np.array([-d[1], d[0]])
        modes = np.zeros((3, 2*nd))
        modes[0, [0, nd]] = 1
        modes[1, [1, nd + 1]] = 1
        modes[2, [nd, nd + 1]] = n
        if nd == 3:
            modes[2, [2, 5]] = 1      # rotation times length
        rank = {"spring": 1, "truss": 1, "beamDU": 2, "beam": None}[name]
        judge(ctx, K*S, want*S, modes, rank)
        if name == "beam":
            # axial and bending rigidities differ a lot: rank by parts
            E, I, A = values[:3]
            u = np.zeros(6)
            u[0:2], u[3:5] = -t/2, t/2
            ctx.close(u @ K @ u, E*A/L, "axial stiffness", tol=1e-9,
                      scale=np.abs(want*S).max())
            Kb = ref.hermite(keep, E*I, E*A, 1)
            bend = Kb[4].T @ Kb[0] @ Kb[4]
            ctx.close((K - (want - bend))*S, bend*S, "bending stiffness",
                      tol=1e-9, scale=np.abs(want*S).max())
        ctx.outcome(K)
    return run


def harnesses(tier):
    deep = tier == "thorough"
    names = list(elems.CONTINUUM)
    return [
        Harness("affine", affine(names, deep),
                "5 continuum elements x 13 linear maps x 4 sizes x 5 "
                "positions x 6 materials x 3-5 parameter containers"),
        Harness("distorted", distorted(names, deep),
                "all corner moves on a grid (tri3: 3^6, quad4: 2^8 or 3^8), "
                "all single and pair moves of the quadratic elements"),
        Harness("odd shapes", odd([(1., .3), (2e11, .48)] + (
            [(1e3, -.6), (.02, 0.)] if deep else [])),
            "5 continuum elements x 150 to 500 slender, rotated and "
            "slightly distorted shapes x materials"),
        Harness("constants", constants, "5 continuum elements x 21 Poisson "
                "ratios x 9 moduli x 9 densities"),
        Harness("integers", elforms.integers(0),
                "all tri3 and convex quad4 with nodes "
                                      "on a 3x3 integer grid, 4 dtypes"),
        Harness("whole numbers", elforms.whole(0),
                "5 continuum elements x first "
                "corners x 4 shapes x 5 positions x 5 dtypes x 4 layouts"),
        Harness("other elements", elforms.others(0), "axisymmetric and "
                "solid elements x 7 or 9 shapes x 3 positions x 4 sizes x 5 "
                "materials x 3 containers"),
        Harness("whole lines", elforms.whole_lines(0), "4 line elements x 12 "
                "axes x 4 positions x dtypes x layouts x parameters"),
        Harness("line constants", elforms.line_constants(0),
                "4 line elements x moduli "
                "x sections x densities"),
        Harness("lines", lines(deep), "4 line elements x orientations x 7 "
                                      "lengths x positions x parameters"),
    ]
