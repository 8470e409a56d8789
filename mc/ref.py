"""Reference model: an independent and deliberately plain finite element
method.  Nothing here imports the code under test.

Interpolations come from the nodes and the monomials of each element
(inverting the Vandermonde matrix with exact rational arithmetic), integrals
from NumPy's Gauss-Legendre abscissae, beams from Hermite polynomials, and the
assembly is done through dictionaries keyed by (node, direction).
"""
from fractions import Fraction
from functools import lru_cache
from itertools import product

import numpy as np

# ---------------------------------------------------------------- elements
TRI3 = [(0, 0), (1, 0), (0, 1)]
TRI6 = TRI3 + [(Fraction(1, 2), 0), (Fraction(1, 2), Fraction(1, 2)),
               (0, Fraction(1, 2))]
QUAD4 = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
QUAD8 = QUAD4 + [(0, -1), (1, 0), (0, 1), (-1, 0)]
QUAD9 = QUAD8 + [(0, 0)]
TET4 = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
HEX8 = [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1),
        (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)]

_P2 = [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)]
KINDS = {
    "tri3": (TRI3, [(0, 0), (1, 0), (0, 1)]),
    "tri6": (TRI6, _P2),
    "quad4": (QUAD4, [(0, 0), (1, 0), (0, 1), (1, 1)]),
    "quad8": (QUAD8, _P2 + [(2, 1), (1, 2)]),
    "quad9": (QUAD9, [(i, j) for i in range(3) for j in range(3)]),
    "tet4": (TET4, [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]),
    "hex8": (HEX8, list(product((0, 1), repeat=3))),
}


def _inverse(mat):
    """Inverse of a matrix of Fractions (Gauss-Jordan)"""
    n = len(mat)
    a = [list(map(Fraction, row)) + [Fraction(int(i == j)) for j in range(n)]
         for i, row in enumerate(mat)]
    for c in range(n):
        p = next(r for r in range(c, n) if a[r][c] != 0)
        a[c], a[p] = a[p], a[c]
        piv = a[c][c]
        a[c] = [v/piv for v in a[c]]
        for r in range(n):
            if r != c and a[r][c] != 0:
                f = a[r][c]
                a[r] = [v - f*w for v, w in zip(a[r], a[c])]
    return [row[n:] for row in a]


@lru_cache(None)
def coefficients(kind):
    """(monomials, coefs): N_i = sum_k coefs[k, i] monomial_k"""
    pts, mono = KINDS[kind]
    van = []
    for pt in pts:
        row = []
        for e in mono:
            v = Fraction(1)
            for x, k in zip(pt, e):
                v *= Fraction(x)**k
            row.append(v)
        van.append(row)
    inv = _inverse(van)
    return np.array(mono), np.array([[float(v) for v in row] for row in inv])


def nat_nodes(kind):
    return np.array([[float(x) for x in p] for p in KINDS[kind][0]])


def shape(kind, pt):
    """N (nnodes,), dN (ndim, nnodes)"""
    mono, coef = coefficients(kind)
    pt = np.asarray(pt, dtype=float)
    ndim = len(pt)
    vals = np.prod(pt[None, :]**mono, axis=1)
    der = np.zeros((ndim, len(mono)))
    for d in range(ndim):
        for k, e in enumerate(mono):
            if e[d]:
                v = float(e[d])
                for q in range(ndim):
                    v *= pt[q]**(e[q] - (q == d))
                der[d, k] = v
    return vals @ coef, der @ coef


# -------------------------------------------------------------- quadrature
@lru_cache(None)
def gauss_box(n, ndim):
    x, w = np.polynomial.legendre.leggauss(n)
    pts = np.array(list(product(x, repeat=ndim)))
    wts = np.array([np.prod(t) for t in product(w, repeat=ndim)])
    return pts, wts


@lru_cache(None)
def duffy(n, ndim):
    """Exact for polynomials on the unit simplex up to degree 2n - ndim"""
    x, w = np.polynomial.legendre.leggauss(n)
    x, w = (x + 1)/2, w/2
    pts, wts = [], []
    for idx in product(range(n), repeat=ndim):
        a = [x[i] for i in idx]
        wt = np.prod([w[i] for i in idx])
        if ndim == 2:
            pts.append((a[0], a[1]*(1 - a[0])))
            wt *= 1 - a[0]
        else:
            pts.append((a[0], a[1]*(1 - a[0]),
                        a[2]*(1 - a[0])*(1 - a[1])))
            wt *= (1 - a[0])**2*(1 - a[1])
        wts.append(wt)
    return np.array(pts), np.array(wts)


@lru_cache(None)
def radon7():
    """Radon's 7-point rule of degree 5; the weights add to 1/2"""
    s = np.sqrt(15.0)
    a, b = (6 - s)/21, (6 + s)/21
    wa, wb = (155 - s)/2400, (155 + s)/2400
    pts = [(1/3, 1/3), (a, a), (1 - 2*a, a), (a, 1 - 2*a),
           (b, b), (1 - 2*b, b), (b, 1 - 2*b)]
    return np.array(pts), np.array([9/80] + 3*[wa] + 3*[wb])


def rule(kind, exact=False):
    """The rule documented for the element, or one that is exact for the mass
    and the stiffness of affine elements (and mass of isoparametric ones)"""
    if exact:
        return {"tri3": duffy(4, 2), "tri6": duffy(6, 2),
                "tet4": duffy(5, 3)}.get(kind) or \
            gauss_box(6, 3 if kind == "hex8" else 2)
    return {"tri3": duffy(3, 2), "tri6": radon7(), "quad4": gauss_box(2, 2),
            "quad8": gauss_box(3, 2), "quad9": gauss_box(3, 2),
            "tet4": duffy(4, 3), "hex8": gauss_box(2, 3)}[kind]


# ------------------------------------------------------------ constitutive
def plane_stress(E, nu):
    S = np.array([[1/E, -nu/E, 0], [-nu/E, 1/E, 0], [0, 0, 2*(1 + nu)/E]])
    return np.linalg.inv(S)


def hooke3d(E, nu):
    S = np.zeros((6, 6))
    S[:3, :3] = -nu/E
    S[np.arange(3), np.arange(3)] = 1/E
    S[np.arange(3, 6), np.arange(3, 6)] = 2*(1 + nu)/E
    return np.linalg.inv(S)


def hooke_axi(E, nu):
    """Order xx, yy, xy, zz (hoop)"""
    full = hooke3d(E, nu)
    idx = [0, 1, 5, 2]
    return full[np.ix_(idx, idx)]


# ---------------------------------------------------------------- matrices
def bmat(dNdx, mode="plane", N=None, x=None):
    ndim, n = dNdx.shape
    if mode == "plane":
        B = np.zeros((3, 2*n))
        for i in range(n):
            B[:, 2*i:2*i + 2] = [[dNdx[0, i], 0], [0, dNdx[1, i]],
                                 [dNdx[1, i], dNdx[0, i]]]
    elif mode == "axi":
        B = np.zeros((4, 2*n))
        for i in range(n):
            B[:, 2*i:2*i + 2] = [[dNdx[0, i], 0], [0, dNdx[1, i]],
                                 [dNdx[1, i], dNdx[0, i]], [N[i]/x, 0]]
    else:
        B = np.zeros((6, 3*n))
        for i in range(n):
            a, b, c = dNdx[:, i]
            B[:, 3*i:3*i + 3] = [[a, 0, 0], [0, b, 0], [0, 0, c],
                                 [0, c, b], [c, 0, a], [b, a, 0]]
    return B


def kinematics(kind, pt, coord):
    """N, dNdx, det at a natural point"""
    N, dN = shape(kind, pt)
    J = dN @ np.asarray(coord, dtype=float)
    return N, np.linalg.solve(J, dN), np.linalg.det(J)


def continuum(kind, coord, E, nu, rho, exact=False, mode="plane"):
    coord = np.asarray(coord, dtype=float)
    n, ndim = coord.shape
    C = {"plane": plane_stress, "axi": hooke_axi, "solid": hooke3d}[mode](
        E, nu)
    K = np.zeros((ndim*n, ndim*n))
    M = np.zeros((ndim*n, ndim*n))
    for pt, wt in zip(*rule(kind, exact)):
        N, dNdx, det = kinematics(kind, pt, coord)
        x = N @ coord[:, 0]
        B = bmat(dNdx, mode, N, x)
        vol = det*wt*(2*np.pi*x if mode == "axi" else 1.0)
        K += vol*(B.T @ C @ B)
        M += vol*rho*np.kron(np.outer(N, N), np.eye(ndim))
    return K, M


def _frame(coord):
    coord = np.asarray(coord, dtype=float)
    d = coord[1] - coord[0]
    L = np.hypot(d[0], d[1])
    return L, d/L, np.array([-d[1], d[0]])/L


def axial(coord, stiff, mass):
    """Bar: stiffness along the axis, linear interpolation of both
    components for the mass"""
    L, t, _ = _frame(coord)
    K = stiff*np.kron([[1, -1], [-1, 1]], np.outer(t, t))
    M = mass*np.kron([[1/3, 1/6], [1/6, 1/3]], np.eye(2))
    return K, M


def hermite(coord, EI, EA, rhoA):
    """Euler-Bernoulli beam; dofs u, v, rotation per node"""
    L, t, n = _frame(coord)
    # v(x) = sum_k a_k x^k, dofs v(0), v'(0), v(L), v'(L)
    A = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [1, L, L**2, L**3],
                  [0, 1, 2*L, 3*L**2]])
    coef = np.linalg.inv(A)            # columns: shape functions
    x, w = np.polynomial.legendre.leggauss(5)
    x, w = L*(x + 1)/2, w*L/2
    Kb, Mb = np.zeros((4, 4)), np.zeros((4, 4))
    Ka, Ma = np.zeros((2, 2)), np.zeros((2, 2))
    for xi, wi in zip(x, w):
        v = np.array([1, xi, xi**2, xi**3]) @ coef
        vpp = np.array([0, 0, 2, 6*xi]) @ coef
        a = np.array([1 - xi/L, xi/L])
        ap = np.array([-1/L, 1/L])
        Kb += wi*EI*np.outer(vpp, vpp)
        Mb += wi*rhoA*np.outer(v, v)
        Ka += wi*EA*np.outer(ap, ap)
        Ma += wi*rhoA*np.outer(a, a)
    Tb = np.zeros((4, 6))
    Tb[0, 0:2] = n
    Tb[1, 2] = 1
    Tb[2, 3:5] = n
    Tb[3, 5] = 1
    Ta = np.zeros((2, 6))
    Ta[0, 0:2] = t
    Ta[1, 3:5] = t
    return Kb, Mb, Ka, Ma, Tb, Ta


NAMES = {1: "quad4", 2: "tri6", 3: "tri3", 4: "quad9"}


def element(etype, coord, params):
    """K, M for the numbered element types; params as documented"""
    params = [float(p) for p in np.ravel(params)]
    if etype in NAMES:
        rho = params[-1] if len(params) > 2 else 1.0
        return continuum(NAMES[etype], coord, params[0], params[1], rho)
    L, _, _ = _frame(coord)
    if etype == 5:
        return axial(coord, params[0], 0.0)
    if etype == 6:
        rho = params[-1] if len(params) > 2 else 1.0
        return axial(coord, params[0]*params[1]/L, rho*params[1]*L)
    if etype == 7:
        rho, area = params[2:4] if len(params) > 2 else (1.0, 1.0)
        Kb, Mb, Ka, Ma, Tb, Ta = hermite(coord, params[0]*params[1], 0,
                                         rho*area)
        return Tb.T @ Kb @ Tb, Tb.T @ Mb @ Tb
    if etype == 8:
        E, I, A = params[:3]
        rho = params[3] if len(params) > 3 else 1.0
        Kb, Mb, Ka, Ma, Tb, Ta = hermite(coord, E*I, E*A, rho*A)
        return (Tb.T @ Kb @ Tb + Ta.T @ Ka @ Ta,
                Tb.T @ Mb @ Tb + Ta.T @ Ma @ Ta)
    raise KeyError(etype)


# ---------------------------------------------------------------- assembly
def full_matrices(nodes, elements, mats, ndof=2, fun=None):
    """Matrices over all (node, direction), restrained or not"""
    n = len(nodes)
    K = np.zeros((n*ndof, n*ndof))
    M = np.zeros((n*ndof, n*ndof))
    mats = np.asarray(mats)
    for el in elements:
        etype, mat, conn = int(el[1]), int(el[2]), [int(x) for x in el[3:]]
        k, m = (fun or element)(etype, np.asarray(nodes)[conn][:, 1:3],
                                mats[mat])
        ids = [c*ndof + d for c in conn for d in range(ndof)]
        K[np.ix_(ids, ids)] += 0    # shape check
        for a, ga in enumerate(ids):
            for b, gb in enumerate(ids):
                K[ga, gb] += k[a, b]
                M[ga, gb] += m[a, b]
    return K, M


def load_vector(nnodes, loads, ndof=2):
    f = np.zeros((nnodes, ndof))
    for row in np.atleast_2d(loads):
        for d in range(ndof):
            f[int(row[0]), d] += row[1 + d]
    return f


def solve(nodes, cons, elements, mats, loads, ndof=2):
    """Displacements and reactions for every (node, direction)"""
    K, M = full_matrices(nodes, elements, mats, ndof)
    f = load_vector(len(nodes), loads, ndof).ravel()
    free = [i for i, c in enumerate(np.asarray(cons)[:, :ndof].ravel())
            if int(c) == 0]
    u = np.zeros(len(f))
    if free:
        u[free] = np.linalg.solve(K[np.ix_(free, free)], f[free])
    react = K @ u - f
    return u.reshape(-1, ndof), react.reshape(-1, ndof), K, M


# ---------------------------------------------------------------- recovery
@lru_cache(None)
def recovery_points(kind):
    """Integration point nearest to each node (natural coordinates)"""
    pts = {"tri3": np.array([[1, 1], [4, 1], [1, 4]])/6, "tri6": radon7()[0],
           "quad4": gauss_box(2, 2)[0], "quad9": gauss_box(3, 2)[0]}[kind]
    near = []
    for p in nat_nodes(kind):
        d = np.linalg.norm(pts - p, axis=1)
        order = np.argsort(d)
        assert len(d) < 2 or d[order[1]] - d[order[0]] > 1e-3
        near.append(pts[order[0]])
    return np.array(near)


def element_strains(kind, coord, disp):
    """Strains at the recovery points; disp (nnodes, 2)"""
    out = []
    for p in recovery_points(kind):
        _, dNdx, _ = kinematics(kind, p, coord)
        out.append(bmat(dNdx) @ np.asarray(disp, dtype=float).ravel())
    return np.array(out)


def nodal_fields(nodes, elements, mats, disp):
    """Nodal strains and stresses: plain averages over the elements that
    share the node"""
    strains = [[] for _ in nodes]
    stresses = [[] for _ in nodes]
    for el in elements:
        conn = [int(c) for c in el[3:]]
        kind = NAMES[int(el[1])]
        eps = element_strains(kind, np.asarray(nodes)[conn][:, 1:3],
                              np.asarray(disp)[conn])
        C = plane_stress(*[float(p) for p in np.asarray(mats)[int(el[2])][:2]])
        for n, e in zip(conn, eps):
            strains[n].append(e)
            stresses[n].append(C @ e)
    mean = [np.array([np.mean(v, axis=0) if v else [np.nan]*3 for v in f])
            for f in (strains, stresses)]
    return mean[0], mean[1]
