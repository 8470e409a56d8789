"""C35: three-dimensional analyses with user elements"""
from itertools import permutations, product

import numpy as np

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol
import solidspy.uelutil as ue
from mc import ref
from mc.core import Harness

TITLE = "Solid models built from user elements are solved exactly"
STATEMENT = (
    "Models of tetrahedra or hexahedra, assembled with three degrees of "
    "freedom per node through user elements, give the exact linear "
    "displacements for every uniform stress and every valid patch, the "
    "displacements of the reference model for any loads and supports, and "
    "the whole mass and the six free rigid motions of the body. Results do "
    "not depend on the orientation of the model, the numbering of its nodes "
    "or the storage scheme.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="positions of the interior node of a patch, splittings into "
         "tetrahedra, all strain states of a basis, support patterns, "
         "rotations, numberings")
WHY = ("Tests never assemble a solid model: equation numbering, loads and "
       "completion with three translations meet solid elements nowhere.")
ANCHORS = dict(
    files=["solidspy/uelutil.py", "solidspy/femutil.py",
           "solidspy/assemutil.py", "solidspy/postprocesor.py"],
    mechanism=[dict(name="elast_tet4, elast_hex8", where="uelutil.py"),
               dict(name="elast_diff_3d, jacoper", where="femutil.py"),
               dict(name="DME, assembler (uel), loadasem",
                    where="assemutil.py"),
               dict(name="complete_disp", where="postprocesor.py")],
    observe_at=["static_sol() of assembled solid models"])
TECHNIQUE = ("explicit-state enumeration of patches, supports and numberings "
             "executed end to end against closed forms and a reference model")
LEVEL_NOTE = "Exhaustive over the stated products; tolerance 1e-8."

UEL = {"hex8": ue.elast_hex8, "tet4": ue.elast_tet4}
NDOF = {"hex8": 24, "tet4": 12}
FACES = {"hex8": [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5),
                  (2, 3, 7, 6), (3, 0, 4, 7)],
         "tet4": [(0, 2, 1), (0, 1, 3), (1, 2, 3), (0, 3, 2)]}


def box(kind, nx, ny, nz, split="six"):
    """Unit-cell grid: points and connectivity"""
    num, pts = {}, []
    for k, j, i in product(range(nz + 1), range(ny + 1), range(nx + 1)):
        num[i, j, k] = len(pts)
        pts.append((i, j, k))
    pts = np.array(pts, dtype=float)
    conn = []
    for k, j, i in product(range(nz), range(ny), range(nx)):
        if kind == "hex8":
            conn.append([num[i + a, j + b, k + c] for a, b, c in (
                (0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0),
                (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1))])
        elif split == "six":
            # Kuhn: one tetrahedron per order of the axes
            for order in permutations(range(3)):
                at = [i, j, k]
                cell = [num[tuple(at)]]
                for ax in order:
                    at[ax] += 1
                    cell.append(num[tuple(at)])
                conn.append(cell)
        else:
            odd = (i + j + k) % 2

            def corner(a, b, c):
                return num[i + (a ^ odd), j + b, k + c]
            c = [corner(*t) for t in ((0, 0, 0), (1, 1, 0), (1, 0, 1),
                                      (0, 1, 1))]
            conn.append(c)
            for tip, base in (((1, 0, 0), (0, 1, 2)), ((0, 1, 0), (0, 1, 3)),
                              ((0, 0, 1), (0, 2, 3)), ((1, 1, 1), (1, 2, 3))):
                conn.append([corner(*tip)] + [c[b] for b in base])
    if kind == "tet4":
        conn = [orient(pts, c) for c in conn]
    return pts, conn


def orient(pts, c):
    a, b, d, e = pts[c]
    if np.linalg.det([b - a, d - a, e - a]) < 0:
        return [c[0], c[2], c[1], c[3]]
    return list(c)


def valid(kind, pts, conn):
    for c in conn:
        P = pts[c]
        if kind == "tet4":
            if np.linalg.det(P[1:] - P[0]) < .05:
                return False
        else:
            for x in product((-1., 1.), repeat=3):
                if np.linalg.det(ref.shape("hex8", x)[1] @ P) < .01:
                    return False
    return True


def tractions(kind, pts, conn, sig):
    """Nodal loads of a uniform stress on the (planar) boundary faces"""
    seen = {}
    for c in conn:
        for f in FACES[kind]:
            nodes = [c[i] for i in f]
            seen.setdefault(frozenset(nodes), []).append(nodes)
    f = np.zeros((len(pts), 3))
    xg = np.array([-1, 1])/np.sqrt(3)
    for faces in seen.values():
        if len(faces) > 1:
            continue
        face = faces[0]
        P = pts[face]
        if len(face) == 3:
            f[face] += sig @ np.cross(P[1] - P[0], P[2] - P[0])/6
        else:
            for r, s in product(xg, repeat=2):
                N, dN = ref.shape("quad4", (r, s))
                f[face] += np.outer(N, sig @ np.cross(dN[0] @ P, dN[1] @ P))
    return f


def tables(pts, conn, mat=0, etype=31):
    nodes = np.column_stack([np.arange(len(pts)), pts])
    mat = mat if np.iterable(mat) else [mat]*len(conn)
    elements = np.array([[k, etype, m] + list(c) for k, (m, c) in
                         enumerate(zip(mat, conn))])
    return nodes, elements


def analyse(kind, nodes, cons, elements, mats, loads, sparse=True):
    op, bc, neq = ass.DME(cons, elements, ndof_node=3, ndof_el_max=24,
                          ndof_el=lambda t: NDOF[kind])
    K, M = ass.assembler(elements, mats, nodes, neq, op, sparse=sparse,
                         uel=UEL[kind])
    rhs = ass.loadasem(loads, bc, neq, ndof_node=3)
    u = sol.static_sol(K, rhs)
    return pos.complete_disp(bc, nodes, u, ndof_node=3), K, M


def reference(kind, nodes, elements, mats):
    n = len(nodes)
    K, M = np.zeros((3*n, 3*n)), np.zeros((3*n, 3*n))
    for el in elements:
        k, m = ref.continuum(kind, nodes[el[3:], 1:], *mats[el[2]],
                             mode="solid")
        ids = np.array([3*c + d for c in el[3:] for d in range(3)])
        K[np.ix_(ids, ids)] += k
        M[np.ix_(ids, ids)] += m
    return K, M


STRAINS = [np.array(e, dtype=float) for e in (
    [[1, 0, 0], [0, 0, 0], [0, 0, 0]], [[0, 0, 0], [0, 1, 0], [0, 0, 0]],
    [[0, 0, 0], [0, 0, 0], [0, 0, 1]], [[0, 1, 0], [1, 0, 0], [0, 0, 0]],
    [[0, 0, 1], [0, 0, 0], [1, 0, 0]], [[0, 0, 0], [0, 0, 1], [0, 1, 0]],
    [[1, .3, -.2], [.3, -2, .5], [-.2, .5, .4]])]
ROT = [np.eye(3), np.array([[0, -1., 0], [1, 0, 0], [0, 0, 1]]),
       np.array([[0, 0, 1.], [1, 0, 0], [0, 1, 0]]),
       np.array([[.6, -.8, 0], [.8, .6, 0], [0, 0, 1]]),
       np.array([[1, 0, 0], [0, -.6, .8], [0, -.8, -.6]]),
       np.array([[2, -2, 1], [1, 2, 2], [-2, -1, 2.]])/3]


def uniform(grid, mats):
    def run(ctx):
        kind, split = ctx.choose("element", [("hex8", ""), ("tet4", "six"),
                                             ("tet4", "five")])
        mid = [ctx.choose("interior node " + a, grid) for a in "xyz"]
        e = ctx.choose("strain", range(len(STRAINS)))
        E, nu = ctx.choose("material", mats)
        size = ctx.choose("size", [1.0, 1e-3])
        sparse = ctx.choose("storage", [True, False])
        pts, conn = box(kind, 2, 2, 2, split)
        pts[13] = mid
        ctx.require(valid(kind, pts, conn))
        pts = pts*size
        eps = STRAINS[e]
        voigt = np.array([eps[0, 0], eps[1, 1], eps[2, 2], 2*eps[1, 2],
                          2*eps[0, 2], 2*eps[0, 1]])
        s = ref.hooke3d(E, nu) @ voigt
        sig = np.array([[s[0], s[5], s[4]], [s[5], s[1], s[3]],
                        [s[4], s[3], s[2]]])
        f = tractions(kind, pts, conn, sig)
        # u = eps x + w x x with the rotation fixed by the supports
        g = np.array([[eps[0, 0], 2*eps[0, 1], 2*eps[0, 2]],
                      [0, eps[1, 1], 2*eps[1, 2]], [0, 0, eps[2, 2]]])
        want = pts @ g.T
        cons = np.zeros((27, 3), dtype=int)
        cons[0] = -1                    # origin
        cons[2, 1:] = -1                # on the x axis
        cons[6, 2] = -1                 # on the y axis
        nodes, elements = tables(pts, conn, 1)
        loads = np.column_stack([np.arange(27), f])
        got, _, _ = analyse(kind, nodes, cons, elements,
                            np.array([[9., .1, 2.], [E, nu, 3.]]), loads,
                            sparse)
        ctx.visit(kind, split, mid, e, E, nu, size)
        ctx.close(got, want, "displacements", tol=1e-8)
        ctx.outcome(got)
    return run


def model(name):
    kind, dims, split = {
        "hex row": ("hex8", (3, 1, 1), ""), "hex block": ("hex8", (2, 2, 1),
                                                          ""),
        "tet cube": ("tet4", (1, 1, 1), "six"), "tet bar":
        ("tet4", (2, 1, 1), "five"), "one hex": ("hex8", (1, 1, 1), ""),
        "two tets": ("tet4", (1, 1, 1), "one")}[name]
    if split == "one":
        pts = np.array([[0, 0, 0], [1, 0, .2], [.1, 1.5, 0], [0, .3, 2.],
                        [1.1, 1.2, 1.3]])
        return kind, pts, [[0, 1, 2, 3], [1, 4, 2, 3]]
    pts, conn = box(kind, *dims, split)
    x, y, z = pts.T
    # a smooth distortion
    pts = np.column_stack([1.5*x + .1*y*z + .05*x*x, y + .1*x*z,
                           .8*z + .08*x*y])
    return kind, pts, conn


MATS = np.array([[1e3, .3, 2.], [250., -.1, .5]])
MODELS = ["hex row", "hex block", "tet cube", "tet bar", "one hex",
          "two tets"]


def supports(ctx, step=1):
    """Any supports and loads against the reference"""
    name = ctx.choose("model", MODELS)
    kind, pts, conn = model(name)
    n = len(pts)
    a = ctx.choose("clamped node", range(0, n, step))
    b = ctx.choose("second node", range(n))
    ctx.require(a != b)
    c = ctx.choose("third node", [k for k in range(n) if k % 3 == 2] or [2])
    ctx.require(c not in (a, b))
    how = ctx.choose("supports", ["clamped", "rollers"])
    cons = np.zeros((n, 3), dtype=int)
    cons[a] = cons[b] = cons[c] = -1
    if how == "rollers":
        cons[b] = [-1, 0, -1]
        cons[c] = [0, -1, -1]
    nodes, elements = tables(pts, conn, [k % 2 for k in range(len(conn))])
    K, M = reference(kind, nodes, elements, MATS)
    free = np.flatnonzero(cons.ravel() == 0)
    ctx.require(np.linalg.cond(K[np.ix_(free, free)]) < 1e6)
    loads = np.array([[v, 1. + v, -2. + (v % 3), .5*v] for v in
                      list(range(n))[::-1]])
    # node a twice: loads add up
    loads = np.vstack([loads, [[n - 1, .5, .25, -1]]])
    got, Kg, Mg = analyse(kind, nodes, cons, elements, MATS, loads)
    f = ref.load_vector(n, loads, 3).ravel()
    want = np.zeros(3*n)
    want[free] = np.linalg.solve(K[np.ix_(free, free)], f[free])
    ctx.visit(name, a, b, c, how)
    ctx.close(Kg, K[np.ix_(free, free)], "stiffness", tol=1e-10)
    ctx.close(Mg, M[np.ix_(free, free)], "mass", tol=1e-10)
    ctx.close(got, want.reshape(n, 3), "displacements", tol=1e-8)
    ctx.outcome(got)


def partial(names):
    """All 8 patterns of restraint on each of two nodes, alone or on every
    second node, and loads along single directions"""
    masks = list(product((0, -1), repeat=3))

    def run(ctx):
        name = ctx.choose("model", names)
        kind, pts, conn = model(name)
        n = len(pts)
        first = ctx.choose("pattern of one node", masks)
        second = ctx.choose("pattern of another node", masks)
        rest = ctx.choose("pattern of the others", [
            (0, 0, 0), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (-1, -1, 0),
            (0, -1, -1), (-1, 0, -1)])
        where = ctx.choose("loads", ["x", "y", "z", "all"])
        cons = np.zeros((n, 3), dtype=int)
        cons[3:] = rest
        cons[0], cons[n//2], cons[n - 1] = -1, first, second
        nodes, elements = tables(pts, conn, [k % 2 for k in
                                             range(len(conn))])
        K, M = reference(kind, nodes, elements, MATS)
        free = np.flatnonzero(cons.ravel() == 0)
        Kf = K[np.ix_(free, free)]
        ctx.require(len(free) and np.linalg.cond(Kf) < 1e6)
        loads = np.array([[v, 1. + v, -2. + v % 3, .5*v - 1] for v in
                          range(n)])
        if where != "all":
            keep = loads.copy()
            loads[:, 1:] = 0
            loads[:, 1 + "xyz".index(where)] = keep[:, 1 + "xyz".index(where)]
        got, Kg, Mg = analyse(kind, nodes, cons, elements, MATS, loads,
                              sparse=where in "xz")
        f = ref.load_vector(n, loads, 3).ravel()
        want = np.zeros(3*n)
        want[free] = np.linalg.solve(Kf, f[free])
        ctx.visit(name, first, second, rest, where)
        dense = (lambda A: A.toarray() if hasattr(A, "toarray") else A)
        ctx.close(dense(Kg), Kf, "stiffness", tol=1e-10)
        ctx.close(dense(Mg), M[np.ix_(free, free)], "mass", tol=1e-10)
        ctx.close(got, want.reshape(n, 3), "displacements", tol=1e-8)
        ctx.outcome(got)
    return run


def freebody(ctx):
    """Unsupported bodies: rigid motions, mass, moments"""
    name = ctx.choose("model", MODELS)
    turn = ctx.choose("rotation", range(len(ROT)))
    shift = ctx.choose("position", [(0., 0, 0), (10., -5, 3)])
    storage = ctx.choose("storage", [True, False])
    kind, pts, conn = model(name)
    pts = pts @ ROT[turn].T + np.array(shift)
    n = len(pts)
    nodes, elements = tables(pts, conn, [k % 2 for k in range(len(conn))])
    op, bc, neq = ass.DME(np.zeros((n, 3), dtype=int), elements, ndof_node=3,
                          ndof_el_max=24, ndof_el=lambda t: NDOF[kind])
    ctx.check(neq == 3*n, "equations", got=neq)
    K, M = ass.assembler(elements, MATS, nodes, neq, op, sparse=storage,
                         uel=UEL[kind])
    K = K.toarray() if storage else K
    M = M.toarray() if storage else M
    rigid = np.zeros((6, n, 3))
    for d in range(3):
        rigid[d, :, d] = 1
        rigid[3 + d] = np.cross(np.eye(3)[d], pts)
    rigid = rigid.reshape(6, -1)
    ctx.visit(name, turn, shift)
    ctx.close(K @ rigid.T, np.zeros((3*n, 6)), "rigid motions", tol=1e-9,
              scale=np.abs(K).max()*np.abs(rigid).max())
    ev = np.linalg.eigvalsh(K)
    ctx.check(ev[6] > 1e-6*ev[-1], "stiffness: rank", got=ev[:8])
    # exact volume integrals
    mass, first = 0.0, np.zeros(3)
    for el in elements:
        P = pts[el[3:]]
        rho = MATS[el[2], 2]
        for x, w in zip(*ref.rule(kind, exact=True)) if kind == "tet4" else \
                zip(*ref.gauss_box(4, 3)):
            N, dN = ref.shape(kind, x)
            v = rho*w*np.linalg.det(dN @ P)
            mass += v
            first += v*(N @ P)
    ctx.close(rigid[:3] @ M @ rigid[:3].T, mass*np.eye(3), "mass", tol=1e-9)
    ctx.close([rigid[d] @ M @ (pts*np.eye(3)[d]).ravel() for d in range(3)], first,
              "first moments", tol=1e-9,
              scale=max(np.abs(first).max(), mass))
    ctx.check(np.linalg.eigvalsh(M)[0] > 0, "mass is positive definite")


def invariance(ctx):
    """Rotations and renumberings of the same model"""
    name = ctx.choose("model", MODELS)
    kind, pts, conn = model(name)
    n = len(pts)
    turn = ctx.choose("rotation", range(len(ROT)))
    order = ctx.choose("numbering", ["same", "reversed", "shifted",
                                     "interleaved", "swap 0 1"])
    eorder = ctx.choose("element order", ["same", "reversed"])
    pick = ctx.choose("load", range(3))
    perm = {"same": list(range(n)), "reversed": list(range(n))[::-1],
            "shifted": list(np.roll(range(n), 3)), "interleaved":
            list(range(0, n, 2)) + list(range(1, n, 2)),
            "swap 0 1": [1, 0] + list(range(2, n))}[order]
    mat = [k % 2 for k in range(len(conn))]
    cons = np.zeros((n, 3), dtype=int)
    cons[[0, 1, n - 1]] = -1
    load = np.zeros((n, 3))
    load[:] = [[np.cos(k + pick), np.sin(2*k), .3*pick - .2] for k in
               range(n)]

    def run(perm, R, flip):
        new = np.argsort(perm)            # old number -> new number
        p = (pts @ R.T)[perm]
        c = [[int(new[v]) for v in row] for row in conn]
        m = list(mat)
        if flip:
            c, m = c[::-1], m[::-1]
        nodes, elements = tables(p, c, m)
        u, _, _ = analyse(kind, nodes, cons[perm], elements, MATS,
                          np.column_stack([np.arange(n),
                                           (load @ R.T)[perm]]))
        return u[new] @ R
    want = run(list(range(n)), np.eye(3), False)
    got = run(perm, ROT[turn], eorder == "reversed")
    ctx.visit(name, turn, order, eorder, pick)
    ctx.close(got, want, "same displacements", tol=1e-8)


def listings(kind):
    """Ways to list the nodes of an element without turning it inside out"""
    if kind == "tet4":
        return [p for p in permutations(range(4))
                if np.linalg.det(np.eye(4)[list(p)]) > 0]
    nat = ref.nat_nodes("hex8")
    out = []
    for axes in permutations(range(3)):
        for signs in product((1, -1), repeat=3):
            R = np.zeros((3, 3))
            for i, (a, s) in enumerate(zip(axes, signs)):
                R[i, a] = s
            if np.linalg.det(R) > 0:
                out.append(tuple(int(np.argmin(np.abs(nat - p).sum(axis=1)))
                                 for p in nat @ R.T))
    return out


LISTINGS = {k: listings(k) for k in UEL}


def forms(ctx):
    """Listings, whole numbers, containers, sizes, places, materials"""
    kind = ctx.choose("element", ["hex8", "tet4"])
    order = ctx.choose("listing", LISTINGS[kind])
    shape = ctx.choose("shape", ["regular", "moved", "flat", "needle",
                                 "skew"])
    at = ctx.choose("place", [(0, 0, 0), (-300, -400, -100),
                              (70, 900, -500)])
    form = ctx.choose("numbers", ["float", "whole", "tuple", "list", "row",
                                  "read-only"])
    size = ctx.choose("size", [1.] if form == "whole" else
                      [1., 1e-6, 1e-3, 1e6])
    ctx.require(not any(at) or size in (1., 1e-3))
    E, nu, rho = ctx.choose("material", [(70., .3, 2.), (1e-6, 0., 1e-9),
                                         (2e11, .4995, 7850.), (3., -.9, 1e6)])
    coord = 10*(ref.nat_nodes(kind) + 1)
    if shape == "moved":
        coord = coord + np.array([[3, 1, -2], [0, 0, 0], [-1, 2, 2],
                                  [1, 1, 0]]*2)[:len(coord)]
    else:
        coord = coord @ {"regular": np.eye(3), "flat": np.diag([6, 3, .1]),
                         "needle": np.diag([.1, 8, .1]),
                         "skew": np.array([[1, .5, 0], [0, 1, -.7],
                                           [0, 0, 1]])}[shape]
    coord = coord[list(order)] + np.array(at)
    coord = np.round(coord).astype(int) if form == "whole" else coord*size
    par = {"tuple": (E, nu, rho), "list": [E, nu, rho]}.get(
        form, np.array([[1., .1, 1.], [E, nu, rho]])[1])
    given = coord.copy()
    if form == "read-only":
        given.flags.writeable = False
    ctx.visit(kind, order, shape, at, form, size, E)
    k, m = ref.continuum(kind, coord, E, nu, rho, mode="solid")
    K, M = UEL[kind](given, par)
    ctx.close(K, k, "stiffness", tol=1e-8)
    ctx.close(M, m, "mass", tol=1e-8)
    ctx.same(given, coord, "coordinates were modified")
    if form in ("float", "whole"):
        n = len(coord)
        nodes = np.column_stack([np.arange(n), coord])
        elements = np.array([[0, 31, 1] + list(range(n)),
                             [1, 31, 0] + list(range(n))])
        mats = np.array([[2*E, .2, 3*rho], [E, nu, rho]])
        op, bc, neq = ass.DME(np.zeros((n, 3), dtype=int), elements,
                              ndof_node=3, ndof_el_max=24,
                              ndof_el=lambda t: NDOF[kind])
        Kg, Mg = ass.assembler(elements, mats, nodes, neq, op,
                               sparse=order[0] % 2 == 0, uel=UEL[kind])
        k2, m2 = ref.continuum(kind, coord, *mats[0], mode="solid")
        ctx.close(Kg, k + k2, "assembled stiffness", tol=1e-8)
        ctx.close(Mg, m + m2, "assembled mass", tol=1e-8)


def harnesses(tier):
    deep = tier == "thorough"
    grid = [.6, 1.0, 1.3] if not deep else [.5, .75, 1.0, 1.2, 1.45]
    mats = [(1.0, .3)] + ([(2e11, 0.), (5., .45)] if deep else [(2e11, 0.)])
    return [
        Harness("uniform", uniform(grid, mats), "%d^3 positions of the "
                "interior node x 3 kinds of patch x 7 strains x %d materials "
                "x 2 sizes x 2 storages" % (len(grid), len(mats))),
        Harness("supports", supports if deep else
                lambda ctx: supports(ctx, 3), "6 models x %s pairs of "
                "supported nodes" % ("all" if deep else "a third of the")),
        Harness("partial supports", partial(
            MODELS if deep else ["two tets", "one hex", "tet bar"]),
            "%d models x 8 x 8 x 7 patterns of restraints x 4 loads" %
            (6 if deep else 3)),
        Harness("free bodies", freebody, "6 models x rotations x positions"),
        Harness("forms", forms, "24 and 12 listings of the nodes x 5 shapes "
                "x 3 places x containers x sizes x materials"),
        Harness("invariance", invariance, "6 models x 6 rotations x 5 "
                "numberings"),
    ]
