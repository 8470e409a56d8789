"""C11: shape functions and interpolation matrices"""
from itertools import product

import numpy as np

import solidspy.femutil as fem
from mc import elems, ref
from mc.core import Harness

TITLE = "Shape functions interpolate and B matrices give the exact strains"
STATEMENT = (
    "At every point of every element (vertices, sides, interior), the shape "
    "functions are one at their own node and zero at the others, add up to "
    "one, reproduce the coordinates, and their derivatives are those of the "
    "functions returned. The interpolation and strain-displacement matrices "
    "built from them give exactly the displacement and the strain (plane, "
    "axisymmetric or three-dimensional) of the interpolated field, and the "
    "determinant is the ratio of volumes.")
QUANTIFIER = dict(
    over=["inputs"],
    text="seven element families, points on grids that are unisolvent for "
         "the polynomial degree (so polynomial identities hold everywhere), "
         "geometries, nodal displacements (a basis)")
WHY = ("Tests evaluate a few functions at one or two nodes; derivatives of "
       "several families are never compared with the functions.")
ANCHORS = dict(
    files=["solidspy/femutil.py"],
    mechanism=[dict(name="shape_tri3, shape_tri6, shape_quad4, shape_quad8, "
                         "shape_quad9, shape_tet4, shape_hex8",
                    where="femutil.py"),
               dict(name="elast_diff_2d, elast_diff_axi, elast_diff_3d, "
                         "jacoper", where="femutil.py")],
    observe_at=["shape_*()", "elast_diff_*()", "jacoper()"])
TECHNIQUE = ("explicit-state enumeration of points, geometries and nodal "
             "basis fields on the real code against exact interpolation")
LEVEL_NOTE = ("The grids have more points per direction than the degree of "
              "the polynomials; tolerance 1e-11.")

FUNS = {"tri3": fem.shape_tri3, "tri6": fem.shape_tri6,
        "quad4": fem.shape_quad4, "quad8": fem.shape_quad8,
        "quad9": fem.shape_quad9, "tet4": fem.shape_tet4,
        "hex8": fem.shape_hex8}


def grid(kind, n):
    ndim = ref.nat_nodes(kind).shape[1]
    if kind in ("tri3", "tri6", "tet4"):
        vals = [k/(n - 1) for k in range(n)]
    else:
        vals = [2*k/(n - 1) - 1 for k in range(n)]
    vals = vals + [0.137, -1.25, 1/np.sqrt(3)]
    return list(product(vals, repeat=ndim))


def points(n):
    def run(ctx):
        kind = ctx.choose("family", list(FUNS))
        pt = ctx.choose("point", grid(kind, n))
        typ = ctx.choose("type", ["float", "float64", "int"])
        if typ == "int":
            ctx.require(all(float(x).is_integer() for x in pt))
            pt = tuple(int(x) for x in pt)
        elif typ == "float64":
            pt = tuple(np.float64(x) for x in pt)
        N, dN = FUNS[kind](*pt)
        Nr, dNr = ref.shape(kind, pt)
        ctx.visit(kind, pt)
        nat = ref.nat_nodes(kind)
        scale = max(1., np.abs(Nr).max())
        ctx.close(N, Nr, "shape functions", tol=1e-12, scale=scale)
        ctx.close(dN, dNr, "derivatives", tol=1e-12,
                  scale=max(1., np.abs(dNr).max()))
        ctx.close(np.sum(N), 1.0, "partition of unity", tol=1e-11,
                  scale=scale)
        ctx.close(N @ nat, np.array(pt, dtype=float), "coordinates",
                  tol=1e-11, scale=scale)
        ctx.close(np.sum(dN, axis=1), np.zeros(len(pt)), "derivatives add up "
                  "to zero", tol=1e-11, scale=scale)
        ctx.close(dN @ nat, np.eye(len(pt)), "derivatives of the coordinates",
                  tol=1e-11, scale=scale)
        ctx.outcome(N)
    return run


def nodes(ctx):
    kind = ctx.choose("family", list(FUNS))
    nat = ref.nat_nodes(kind)
    k = ctx.choose("node", len(nat))
    N, _ = FUNS[kind](*nat[k])
    ctx.visit(kind, k)
    ctx.close(N, np.eye(len(nat))[k], "values at the nodes", tol=1e-13)


def neighbours(ctx):
    """Points evaluated one after the other, at all distances from each
    other"""
    kind = ctx.choose("family", list(FUNS))
    nd = ref.nat_nodes(kind).shape[1]
    base = ctx.choose("point", [(0.,)*nd, (1/3,)*nd, (.6**.5, -.6**.5, .2)
                                [:nd], (1., 0., 0.)[:nd], (.25, .5, .125)
                                [:nd], (3**-.5,)*nd, (.1012865073235,)*nd])
    ax = ctx.choose("coordinate", nd)
    gap = ctx.choose("distance", [.1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7,
                                  1e-8, 1e-10])
    typ = ctx.choose("type", [float, np.float64, np.float32])
    ctx.visit(kind, base, ax, gap, typ.__name__)
    coord = ref.nat_nodes(kind)*1.5 + 4.
    for k in (0, 1, -1, 0, 2):
        pt = list(base)
        pt[ax] += k*gap
        pt = tuple(typ(x) for x in pt)
        N, dN = FUNS[kind](*pt)
        Nr, dNr = ref.shape(kind, tuple(float(x) for x in pt))
        if typ is np.float32:
            ctx.close(N, Nr, "shape functions", tol=1e-5, scale=1)
            continue
        scale = max(1., np.abs(dNr).max())
        ctx.close(N, Nr, "shape functions", tol=1e-13, scale=scale)
        ctx.close(dN, dNr, "derivatives", tol=1e-13, scale=4*scale)
        if nd == 2:
            H, B, det = fem.elast_diff_2d(*pt, coord, FUNS[kind])
        else:
            H, B, det = fem.elast_diff_3d(*pt, coord, FUNS[kind])
        ctx.close(B, ref.bmat(dNr/1.5, "plane" if nd == 2 else "solid", Nr,
                              1.), "strain-displacement matrix", tol=1e-12,
                  scale=scale)
        if nd == 2:
            H, B, det = fem.elast_diff_axi(*pt, coord, FUNS[kind])
            ctx.close(B, ref.bmat(dNr/1.5, "axi", Nr, Nr @ coord[:, 0]),
                      "axisymmetric strains", tol=1e-12, scale=scale)


def odd(ctx):
    """Slender, rotated and slightly distorted elements"""
    kind = ctx.choose("family", list(ODD))
    label, coord = ctx.choose("shape", ODD[kind])
    mode = ctx.choose("mode", ["plane", "axi"])
    p = ctx.choose("point", [(.2, .3), (1/3, 1/3), (.1, .6)] + (
        [(-.6**.5, .6**.5), (0., 0.)] if kind[0] == "q" else []))
    if mode == "axi":
        coord = coord + [4., 0]
    N, dNdx, det = ref.kinematics(kind, p, coord)
    H, B, d = (fem.elast_diff_2d if mode == "plane" else fem.elast_diff_axi)(
        *p, coord, FUNS[kind])
    ctx.visit(kind, label, mode, p)
    ctx.close(B, ref.bmat(dNdx, mode, N, N @ coord[:, 0]),
              "strain-displacement matrix", tol=1e-8)
    ctx.close(H, np.kron(N, np.eye(2)), "interpolation matrix", tol=1e-12)
    ctx.close(d, det, "determinant", tol=1e-9)


ODD = {k: elems.odd_shapes(k) for k in ("tri3", "tri6", "quad4", "quad8",
                                        "quad9")}


def matrices(n, deep):
    moves = {k: elems.distortions(k, False) for k in
             ("tri3", "tri6", "quad4", "quad8", "quad9", "tet4", "hex8")}
    pts = {k: [p for p in grid(k, 3) if 1.25 > max(p) and min(p) > -1.1 and
               (k not in ("tri3", "tri6", "tet4") or min(p) >= 0 and
                sum(p) <= 1)]
           for k in FUNS}

    def run(ctx):
        kind = ctx.choose("family", list(FUNS))
        mode = ctx.choose("mode", ["solid"] if kind in ("tet4", "hex8")
                          else ["plane", "axi"])
        nat = ref.nat_nodes(kind)
        m = moves[kind]
        k = ctx.choose("geometry", n)
        size = ctx.choose("size", [1.0, 1e-5, 2e4])
        p = ctx.choose("point", pts[kind])
        coord = nat + 0.8*m[(k*k*53 + 7*k) % len(m)]
        if mode == "axi":
            coord = coord + np.array([3.0, -2.])
        coord = coord*size
        N, dNdx, det = ref.kinematics(kind, p, coord)
        ctx.require(det > 1e-3*size**len(p))
        x = N @ coord[:, 0]
        keep = coord.copy()
        if mode == "solid":
            H, B, d = fem.elast_diff_3d(*p, coord, FUNS[kind])
            if kind == "hex8":
                H2, B2, d2 = fem.elast_diff_3d(*p, coord)
                ctx.same(B2, B, "hex8 is the default")
        elif mode == "axi":
            H, B, d = fem.elast_diff_axi(*p, coord, FUNS[kind])
        else:
            H, B, d = fem.elast_diff_2d(*p, coord, FUNS[kind])
        ctx.same(coord, keep, "coordinates were modified")
        ctx.visit(kind, mode, k, size, p)
        nd = len(p)
        want = ref.bmat(dNdx, mode, N, x)
        ctx.close(B, want, "strain-displacement matrix", tol=1e-9)
        ctx.close(H, np.kron(N, np.eye(nd)), "interpolation matrix",
                  tol=1e-11, scale=1)
        ctx.close(d, det, "determinant", tol=1e-10)
        # exact strains of every linear field
        for i in range(nd):
            for j in range(nd):
                G = np.zeros((nd, nd))
                G[i, j] = 1
                u = (coord @ G.T).ravel()
                eps = {"plane": [G[0, 0], G[1, 1], G[0, 1] + G[1, 0]]}.get(
                    mode) if nd == 2 else [
                        G[0, 0], G[1, 1], G[2, 2], G[1, 2] + G[2, 1],
                        G[0, 2] + G[2, 0], G[0, 1] + G[1, 0]]
                if mode == "axi":
                    eps = [G[0, 0], G[1, 1], G[0, 1] + G[1, 0],
                           (N @ coord @ G.T)[0]/x]
                ctx.close(B @ u, np.array(eps, dtype=float),
                          "strain of a linear field", tol=1e-9,
                          scale=max(1.0, np.abs(eps).max()))
    return run


def places(ctx):
    """Elements of every size, anywhere, given in whole numbers, or with
    other memory layouts"""
    kind = ctx.choose("family", list(FUNS))
    solid = kind in ("tet4", "hex8")
    mode = ctx.choose("mode", ["solid"] if solid else ["plane", "axi"])
    shape = ctx.choose("shape", ["regular", "stretched", "skew", "moved"])
    form = ctx.choose("numbers", ["float", "whole", "Fortran", "view",
                                  "read-only", "float32"])
    size = ctx.choose("size", [1.0] if form == "whole" else
                      [1.0, 1e-6, 1e-9, 1e7])
    at = ctx.choose("position", ["around zero", "negative", "positive",
                                 "far", "corner at zero",
                                 "low right"])
    nat = ref.nat_nodes(kind)
    nd = nat.shape[1]
    g3 = .6**.5
    tri = kind[:3] in ("tri", "tet")
    p = ctx.choose("point", [(1/3,)*nd, (.2,)*nd, (.25, .125, .5)[:nd],
                             (0.,)*nd] + ([] if tri else [
                                 (g3, -g3, 0.)[:nd], (-3**-.5,)*nd,
                                 (-1., 1., 1.)[:nd]]))
    coord = 8*nat
    if shape == "stretched":
        coord = coord*np.array([1., 4., .5])[:nd]
    elif shape == "skew":
        coord = coord + np.roll(coord, 1, axis=1)*.5*([1, 0, 0][:nd])
    elif shape == "moved":
        coord = coord + 1.*(np.arange(len(nat)) % 3 == 1)[:, None]
    coord = coord - {"around zero": 0., "negative": 90., "positive": -90,
                     "far": -2000., "corner at zero": coord.min(axis=0),
                     "low right": np.array([-90., 90., 90.])[:nd]}[at]
    # axisymmetric: the radius is not negative
    ctx.require(mode != "axi" or coord[:, 0].min() >= 0)
    if form == "whole":
        coord = np.round(coord).astype(int)
    coord = coord*(1 if form == "whole" else size)
    if form == "float32":
        coord = coord.astype(np.float32)
    N, dNdx, det = ref.kinematics(kind, p, coord)
    x = N @ coord[:, 0]
    ctx.require(det > 1e-3*size**nd)
    # the hoop strain needs a point off the axis
    ctx.require(mode != "axi" or abs(x) > 1e-3*size)
    given = coord
    if form == "Fortran":
        given = np.asfortranarray(coord)
    elif form == "view":
        big = np.full((2*len(nat), nd + 2), 9.)
        big[::2, 1:-1] = coord
        given = big[::2, 1:-1]
    elif form == "read-only":
        given = coord.copy()
        given.flags.writeable = False
    fun = {"solid": fem.elast_diff_3d, "axi": fem.elast_diff_axi,
           "plane": fem.elast_diff_2d}[mode]
    H, B, d = fun(*p, given, FUNS[kind])
    ctx.visit(kind, mode, shape, form, size, at, p)
    single = form == "float32"
    ctx.close(B, ref.bmat(dNdx, mode, N, x), "strain-displacement matrix",
              tol=1e-2 if single else 1e-9)
    ctx.close(H, np.kron(N, np.eye(nd)), "interpolation matrix",
              tol=1e-12, scale=1)
    ctx.close(d, det, "determinant", tol=1e-2 if single else 1e-9)
    _, dN = ref.shape(kind, p)
    det, inv = fem.jacoper(dN, given)
    J = dN @ coord
    ctx.close(det, np.linalg.det(J), "determinant",
              tol=1e-2 if single else 1e-9)
    ctx.close(inv, np.linalg.inv(J), "inverse", tol=1e-2 if single else 1e-9)
    ctx.same(given, coord, "coordinates were modified")


def axis(ctx):
    """Points at small distances of the axis, in elements that touch it"""
    kind = ctx.choose("family", ["tri3", "tri6", "quad4", "quad8", "quad9"])
    far = ctx.choose("distance", [10.**-k for k in range(1, 8)])
    size = ctx.choose("size", [1.0, 1e-6, 1e5])
    height = ctx.choose("height", [0., -5.])
    s = ctx.choose("second coordinate", [0., .2, .5])
    curved = ctx.choose("middle nodes", ["straight", "moved"])
    nat = ref.nat_nodes(kind)
    tri = kind[:3] == "tri"
    coord = nat - nat.min(axis=0)
    if curved == "moved":
        ctx.require(len(nat) > 4)
        # away from the axis, which stays a straight line
        coord = coord + .05*(np.arange(len(nat))[:, None] >= len(nat)//2) \
            * (coord[:, :1] > 0)
    coord = size*(coord + [0., height])
    p = (far if tri else far - 1., s)
    N, dNdx, det = ref.kinematics(kind, p, coord)
    x = N @ coord[:, 0]
    ctx.require(x > 0)
    H, B, d = fem.elast_diff_axi(*p, coord, FUNS[kind])
    ctx.visit(kind, far, size, height, s, curved)
    ctx.close(B[3, ::2]*x, N, "hoop strain near the axis", tol=1e-7)
    ctx.check(not B[3, 1::2].any(), "hoop strain of an axial displacement")
    ctx.close(B[:3], ref.bmat(dNdx, "plane", N, x), "in-plane strains",
              tol=1e-9)
    # the hoop strain of a displacement proportional to the radius
    u = np.zeros(2*len(nat))
    u[::2] = coord[:, 0]
    ctx.close((B @ u)[3], 1., "hoop strain of an expansion", tol=1e-7)


def jacobians(ctx):
    """jacoper returns the determinant and the inverse"""
    nd = ctx.choose("dimensions", [2, 3])
    vals = [-1., 0., .5, 2.]
    if nd == 2:
        J = np.array([ctx.choose("j%d" % k, vals) for k in range(4)])
        J = J.reshape(2, 2)
    else:
        diag = [ctx.choose("diagonal %d" % k, [.5, 2.]) for k in range(3)]
        off = [ctx.choose("off-diagonal %d" % k, [-.25, 0., .4])
               for k in range(6)]
        J = np.diag(diag)
        J[[0, 0, 1, 1, 2, 2], [1, 2, 0, 2, 0, 1]] = off
    size = ctx.choose("size", [1e-6, 1.0, 1e5])
    ctx.require(np.linalg.det(J) > .05)
    dN = np.hstack([-np.ones((nd, 1)), np.eye(nd)])
    coord = np.vstack([np.zeros(nd), size*J]) + size*3
    det, inv = fem.jacoper(dN, coord)
    ctx.visit(nd, J, size)
    ctx.close(det, size**nd*np.linalg.det(J), "determinant", tol=1e-8)
    ctx.close(inv @ (size*J), np.eye(nd), "inverse of the Jacobian",
              tol=1e-8)


def harnesses(tier):
    deep = tier == "thorough"
    n = 9 if deep else 5
    return [
        Harness("nodes", nodes, "7 families at all their nodes"),
        Harness("points", points(n), "7 families on grids of %d points per "
                                     "direction, inside and outside" % (
                                         n + 3)),
        Harness("matrices", matrices(40 if deep else 8, deep),
                "7 families, plane/axisymmetric/solid, geometries x sizes x "
                "points"),
        Harness("neighbours", neighbours, "7 families x sequences of five "
                "points at distances from .1 to 1e-10"),
        Harness("places", places, "7 families x modes x 4 shapes x sizes x "
                "6 positions x 6 storages x points"),
        Harness("axis", axis, "5 families x 7 distances from the axis x "
                "sizes x heights x middle nodes"),
        Harness("odd shapes", odd, "5 families x 150 to 500 shapes x modes "
                "x points"),
        Harness("jacobians", jacobians, "all 2x2 over 4 values, 3x3 over "
                                        "2^3 3^6 values, 3 sizes"),
    ]
