"""C27: constitutive matrices"""
from fractions import Fraction

import numpy as np

import solidspy.femutil as fem
from mc import elems, ref
from mc.core import Harness

TITLE = "Constitutive matrices are those of isotropic elasticity"
STATEMENT = (
    "For every Young modulus and every Poisson ratio in (-1, 1/2), each "
    "constitutive matrix is symmetric, positive definite, proportional to "
    "the Young modulus and is the inverse of Hooke's law: uniaxial stress "
    "gives 1/E along it and -nu/E across, shear gives 2(1+nu)/E. The plane "
    "stress matrix is the three-dimensional one with zero out-of-plane "
    "stress, the axisymmetric and plane strain ones its restriction, and all "
    "are isotropic: unchanged by rotations of the axes.")
QUANTIFIER = dict(
    over=["inputs"],
    text="Poisson ratios over a grid of the whole admissible range with its "
         "ends (to 1e-10 of -1 and 1/2), moduli over 24 orders of magnitude, rotations, containers of "
         "the parameters")
WHY = ("Tests evaluate one or two matrices with nu = 1/3 or 0.3 (several "
       "were never evaluated).")
ANCHORS = dict(
    files=["solidspy/femutil.py"],
    mechanism=[dict(name="umat, elast_mat_2d, elast_mat_axi, elast_mat",
                    where="femutil.py")],
    observe_at=["umat()", "elast_mat*()"])
TECHNIQUE = ("explicit-state enumeration of material parameters against "
             "Hooke's law in compliance form")
LEVEL_NOTE = "Exhaustive over the stated grids; relative tolerance 1e-9."

FUNS = {"umat": fem.umat, "elast_mat_2d": fem.elast_mat_2d,
        "elast_mat_axi": fem.elast_mat_axi, "elast_mat": fem.elast_mat}


def compliance(name, E, nu):
    S = np.zeros((6, 6))
    S[:3, :3] = -nu/E
    S[[0, 1, 2], [0, 1, 2]] = 1/E
    S[[3, 4, 5], [3, 4, 5]] = 2*(1 + nu)/E
    idx = {"umat": [0, 1, 5], "elast_mat": list(range(6))}.get(
        name, [0, 1, 5, 2])
    return S[np.ix_(idx, idx)]


def strain_rotation(Q, name):
    """Matrix T with eps' = T eps (engineering shear strains)"""
    pairs = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    T = np.zeros((6, 6))
    for k in range(6):
        e = np.zeros((3, 3))
        i, j = pairs[k]
        e[i, j] += .5 if i != j else 1
        if i != j:
            e[j, i] += .5
        r = Q @ e @ Q.T
        T[:, k] = [r[a, b]*(1 if a == b else 2) for a, b in pairs]
    idx = {"umat": [0, 1, 5], "elast_mat": list(range(6))}.get(
        name, [0, 1, 5, 2])
    return T[np.ix_(idx, idx)]


def rotations(name):
    out = []
    for k in range(8):
        a = .3 + k*np.pi/5
        R = np.eye(3)
        R[:2, :2] = [[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]
        if name == "elast_mat":
            P = np.roll(np.eye(3), k % 3, axis=0)
            R = P @ R @ P.T @ R
        out.append(R)
    return out


def laws(nus):
    def run(ctx):
        name = ctx.choose("matrix", list(FUNS))
        nu = ctx.choose("Poisson ratio", nus)
        E = ctx.choose("Young modulus", [1e-12, 1e-3, 8/3, 1., 3.5e4,
                                         2.1e11, 1e12])
        how = ctx.choose("parameters", ["tuple", "list", "row", "float64",
                                        "int", "int array"])
        if how == "float64":
            par = np.float64(E), np.float64(nu)
        elif how.startswith("int"):
            ctx.require(float(E).is_integer() and
                        (nu == 0 or how == "int"))
            par = int(E), 0 if nu == 0 else nu
            par = np.array(par) if how == "int array" else par
        else:
            par = elems.container(how, (E, nu))
        keep = np.array(par)
        C = FUNS[name](par)
        ctx.visit(name, nu, E, how)
        S = compliance(name, E, nu)
        n = len(S)
        ctx.check(C.shape == (n, n), "shape", got=C.shape)
        ctx.close(C, C.T, "symmetry", tol=1e-13)
        ctx.close(S @ C, np.eye(n), "inverse of Hooke's law",
                  tol=1e-9, scale=max(1., np.abs(S).max()*np.abs(C).max()
                                      * 1e-4))
        ctx.close(C/E, np.linalg.inv(S*E), "constants", tol=1e-9)
        ctx.check(np.linalg.eigvalsh(C/E)[0] > 0, "positive definite")
        ctx.close(C, E*FUNS[name]((1.0, nu)), "proportional to E", tol=1e-12)
        ctx.same(np.array(par), keep, "parameters were modified")
        for R in rotations(name):
            T = strain_rotation(R, name)
            ctx.close(T.T @ C @ T, C, "isotropy", tol=1e-11)
        ctx.outcome(C/E)
    return run


def exact(name, nu):
    """Matrix of a unit modulus in rational arithmetic"""
    nu = Fraction(nu)
    mu = 1/(1 + nu)/2
    if name == "umat":
        k = 1/(1 - nu**2)
        C = [[k, nu*k, 0], [nu*k, k, 0], [0, 0, mu]]
    else:
        lam = nu/(1 + nu)/(1 - 2*nu)
        n = 6 if name == "elast_mat" else 4
        axial = [0, 1, 2] if n == 6 else [0, 1, 3]
        C = [[(lam*(i in axial and j in axial)
               + mu*(i == j)*(1 + (i in axial)))
              for j in range(n)] for i in range(n)]
    return np.array([[float(x) for x in row] for row in C])


def limits(nus):
    """Up to the ends of the range of Poisson's ratio, where each entry is
    compared with the one in rational arithmetic"""
    def run(ctx):
        name = ctx.choose("matrix", list(FUNS))
        nu = ctx.choose("Poisson ratio", nus)
        E = ctx.choose("Young modulus", [1e-3, 1., 2.1e11])
        C = FUNS[name]((E, nu))
        ctx.visit(name, nu, E)
        want = E*exact(name, nu)
        # what the rounding of 1 - 2 nu or 1 - nu^2 can amount to
        tol = 1e-12 + 1e-15/min(abs(1 - 2*nu), abs(1 + nu))
        ctx.close(C, want, "matrix near the limit", tol=tol)
        ctx.check(not C[want == 0].any(), "zero entries", got=C)
        ctx.outcome(C/E)
    return run


def relations(nus):
    """The matrices are consistent with each other"""
    def run(ctx):
        nu = ctx.choose("Poisson ratio", nus)
        E = ctx.choose("Young modulus", [1., 7e10])
        C3 = fem.elast_mat((E, nu))
        Ca = fem.elast_mat_axi((E, nu))
        C2 = fem.elast_mat_2d((E, nu))
        Cs = fem.umat((E, nu))
        ctx.visit(nu, E)
        idx = [0, 1, 5, 2]
        ctx.close(Ca, C3[np.ix_(idx, idx)], "axisymmetric", tol=1e-12)
        ctx.close(C2, Ca, "plane strain", tol=1e-12)
        a, z = [0, 1, 2], [3]
        red = C2[np.ix_(a, a)] - C2[np.ix_(a, z)] @ C2[np.ix_(z, a)]/C2[3, 3]
        # the out-of-plane strain is eliminated: plane stress
        ctx.close(red, Cs, "plane stress is the condensed matrix", tol=1e-9,
                  scale=np.abs(C2).max())
        # effective constants: plane strain in-plane block
        eff = fem.umat((E/(1 - nu**2), nu/(1 - nu)))
        ctx.close(eff, C2[:3, :3], "plane strain by effective constants",
                  tol=1e-8)
        bulk = np.sum(C3[:3, :3])/9
        ctx.close(bulk, E/3/(1 - 2*nu), "bulk modulus", tol=1e-10)
        ctx.close(C3[5, 5], E/2/(1 + nu), "shear modulus", tol=1e-12)
    return run


def harnesses(tier):
    deep = tier == "thorough"
    step = .005 if deep else .05
    nus = [round(x, 6) for x in np.arange(-.95, .4999, step)]
    nus += [-.999, -.99, 0.0, 1/3, .25, .3, .49, .499, .4999, .49999]
    nus += [s*x for s in (1, -1) for x in (1e-12, 1e-8, 1e-5, 1e-3)]
    ends = [x for k in range(2, 13 if deep else 11)
            for d in ((1, 2, 5) if deep else (1, 3))
            for x in (.5 - d*10.**-k, d*10.**-k - 1, d*10.**-k, -d*10.**-k)]
    return [
        Harness("laws", laws(nus), "4 matrices x %d Poisson ratios x 7 "
                "moduli x 6 containers" % len(nus)),
        Harness("limits", limits(ends), "4 matrices x %d Poisson ratios "
                "near -1, 0 and 1/2 x 3 moduli" % len(ends)),
        Harness("relations", relations(nus), "relations of the matrices"),
    ]
