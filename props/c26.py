"""C26: recovery of strains and stresses at nodes"""
import numpy as np

import solidspy.femutil as fem
import solidspy.postprocesor as pos
from mc import elems, models, ref
from mc.core import Harness

TITLE = "Nodal strains and stresses are averages over the sharing elements"
STATEMENT = (
    "For every mesh of one continuum element type and every displacement "
    "field, the strain returned at a node is the average, over exactly the "
    "elements that share it, of the strain of each element at the "
    "integration point nearest to that node, and the stress is the average "
    "of the plane stresses of those strains with the material of each "
    "element. Element routines give the strains and positions of all "
    "integration points in the order of the nodes, and nothing given is "
    "modified.")
QUANTIFIER = dict(
    over=["inputs"],
    text="all four continuum types, distorted geometries, a basis of the "
         "displacements (the recovery is linear), meshes where nodes are "
         "shared by one to eight elements, material tables")
WHY = ("The only test of strain_nodes is a uniform field, for which any "
       "assignment of points to nodes and any average is right.")
ANCHORS = dict(
    files=["solidspy/postprocesor.py", "solidspy/femutil.py"],
    mechanism=[dict(name="strain_nodes", where="postprocesor.py"),
               dict(name="str_el3, str_el4, str_el6, str_el9",
                    where="femutil.py")],
    observe_at=["strain_nodes()", "str_el*()"])
TECHNIQUE = ("explicit-state enumeration of meshes, geometries and "
             "displacement bases against a reference recovery")
LEVEL_NOTE = "Exhaustive over the stated products; tolerance 1e-9."

STR = {"tri3": fem.str_el3, "tri6": fem.str_el6, "quad4": fem.str_el4,
       "quad9": fem.str_el9}
MATS = np.array([[1e3, .3, 7.], [5e4, .1, 2.], [20., -.2, 1.],
                 [7e3, .4995, 3.]])


def elements_(deep):
    moves = {k: elems.distortions(k, False) for k in STR}
    maps = elems.affine_maps(2)

    def run(ctx):
        kind = ctx.choose("element", list(STR))
        nat = ref.nat_nodes(kind)
        n = len(nat)
        g = ctx.choose("geometry", 24 if deep else 12)
        lin = maps[ctx.choose("map", range(0, len(maps), 1 if deep else 3))]
        size, at = ctx.choose("size, position", [
            (1., (0, 0)), (1e-4, (3e-4, 1e-3)), (1e4, (-2e4, 5e3))])
        m = moves[kind]
        coord = (nat + m[(37*g*g + 11*g) % len(m)]) @ lin.T*size + at
        pts = ref.recovery_points(kind)
        ctx.require(all(ref.kinematics(kind, p, coord)[2] > 0 for p in pts))
        dof = ctx.choose("displacement", range(2*n + 1))
        u = np.zeros(2*n)
        if dof < 2*n:
            u[dof] = 1.0
        else:
            u[:] = np.cos(1.7*np.arange(2*n))
        keep = coord.copy(), u.copy()
        eps, xl = STR[kind](coord, u)
        ctx.visit(kind, g, lin, size, at, dof)
        want = ref.element_strains(kind, coord, u.reshape(-1, 2))
        ctx.check(eps.shape[1] == 3 and len(eps) >= n and len(xl) == len(eps),
                  "shapes", got=(eps.shape, xl.shape))
        scale = max(np.abs(ref.bmat(ref.kinematics(kind, p, coord)[1])).max()
                    for p in pts)
        ctx.close(eps[:n], want, "strains of the points next to the nodes",
                  tol=1e-9, scale=scale)
        xp = np.array([ref.shape(kind, p)[0] @ coord for p in pts])
        ctx.close(xl[:n], xp, "positions of the points", tol=1e-9,
                  scale=np.abs(coord).max())
        for p, e in zip(xl[n:], eps[n:]):        # further points
            c = ref.shape(kind, (1/3, 1/3))[0] @ coord
            ctx.close(p, c, "position of the centre point", tol=1e-9,
                      scale=np.abs(coord).max())
            b = ref.bmat(ref.kinematics(kind, (1/3, 1/3), coord)[1])
            ctx.close(e, b @ u, "strain of the centre point", tol=1e-9,
                      scale=scale)
        ctx.same(coord, keep[0], "coordinates were modified")
        ctx.same(u, keep[1], "displacements were modified")
        ctx.outcome(eps)
    return run


def fan(kind, n):
    """n elements around a common node"""
    ang = np.linspace(0, 2*np.pi, n + 1)[:-1]
    # many thin elements: keep the angles
    ry = [1 + (.2*(k % 2) if n <= 16 else .1*(k % 3)) for k in range(n)]
    corners = [(0., 0.)] + [((1 + .1*(k % 3))*np.cos(a), ry[k]*np.sin(a))
                            for k, a in enumerate(ang)]
    cells = [(0, 1 + k, 1 + (k + 1) % n) for k in range(n)]
    if kind in ("quad4", "quad9"):
        da = np.pi/n
        rq = 1.6 if n <= 16 else 1.7
        corners += [(1.7*np.cos(a + da), rq*np.sin(a + da)) for a in ang]
        cells = [(0, 1 + k, 1 + n + k, 1 + (k + 1) % n) for k in range(n)]
    return models.straight(kind, corners, cells)


def mesh(kind, name):
    if name.startswith("fan"):
        return fan(kind, int(name[3:]))
    nx, ny = map(int, name.split()[0].split("x"))
    pts, conn = models.grid(kind, nx, ny, 2.0*nx/ny, 1.0)
    if name.endswith("twice"):      # two layers of the same elements
        conn = list(conn) + list(conn)
    return models.smooth(pts, .06 if nx <= 4 else .003), conn


def recovery(names):
    def run(ctx):
        kind = ctx.choose("element", list(STR))
        name = ctx.choose("mesh", names)
        pts, conn = mesh(kind, name)
        n = len(pts)
        mat = ctx.choose("materials", ["one", "alternating", "all",
                                       "same modulus", "same ratio"])
        rev = ctx.choose("element order", ["natural", "reversed", "rotated"])
        field = ctx.choose("displacements", list(range(min(2*n, 24))) +
                           ["waves", "tiny", "integers"])
        ids = {"one": [2]*len(conn),
               "alternating": [k % 2 for k in range(len(conn))]}.get(
                   mat, [(3*k + 1) % 4 for k in range(len(conn))])
        mats = MATS.copy()
        if mat.startswith("same"):
            mats[:, 0 if mat == "same modulus" else 1] = .25
        if rev == "reversed":
            conn, ids = conn[::-1], ids[::-1]
        elif rev == "rotated":
            conn, ids = conn[1:] + conn[:1], ids[1:] + ids[:1]
        nodes, elements = models.tables(pts, conn, models.ETYPE[kind], ids)
        cols = 2 + (n % 2)
        u = np.zeros((n, 2))
        if field in ("waves", "tiny"):
            u = np.column_stack([np.sin(np.arange(n)),
                                 np.cos(2.3*np.arange(n))])
            if field == "tiny":
                u *= 1e-12
        elif field == "integers":
            u = np.arange(2*n).reshape(n, 2) % 7
        else:
            k = field*(2*n//min(2*n, 24))
            u[k//2, k % 2] = 1.0
        if name == "fan5":
            nodes = np.column_stack([nodes, np.full((n, 2), -1.)])
        keep = nodes.copy(), elements.copy(), u.copy()
        E, S = pos.strain_nodes(nodes, elements, mats[:, :cols], u)
        Er, Sr = ref.nodal_fields(nodes, elements, mats[:, :2], u)
        ctx.visit(kind, name, mat, rev, field)
        size = np.abs(u).max()
        ctx.close(E, Er, "nodal strains", tol=1e-9,
                  scale=max(np.abs(Er).max(), size))
        # per node: neighbours may have much stiffer materials
        err = np.abs(S - Sr).max(axis=1)
        allow = 1e-8*np.maximum(np.abs(Sr).max(axis=1),
                                mats[np.unique(ids), 0].min()*size)
        ctx.check(np.all(err <= np.maximum(allow, 1e-9*np.abs(Sr).max())),
                  "nodal stresses", got=S, want=Sr)
        for a, b in zip(keep, (nodes, elements, u)):
            ctx.same(b, a, "arguments were modified")
        ctx.outcome(E)
    return run


def shapes(ctx):
    """Slender, rotated, slightly distorted elements; any size and place"""
    kind = ctx.choose("element", list(STR))
    catalogue = elems.odd_shapes(kind)
    g = ctx.choose("shape", range(len(catalogue)))
    size, at = ctx.choose("size, position", [
        (1., (0, 0)), (1e-4, (3e-4, 1e-3)), (1e4, (-2e4, 5e3)),
        (1., (-30., -40.))])
    label, coord = catalogue[g]
    coord = coord*size + at
    pts = ref.recovery_points(kind)
    ctx.require(all(ref.kinematics(kind, p, coord)[2] > 0 for p in pts))
    ctx.visit(kind, label, size, at)
    n = len(coord)
    B = [ref.bmat(ref.kinematics(kind, p, coord)[1]) for p in pts]
    # rounding of the coordinates, and of the inverse of slender maps
    J = [ref.shape(kind, p)[1] @ coord for p in pts]
    cond = max(np.linalg.cond(j) for j in J)
    tol = 1e-12*cond*(1 + np.abs(coord).max()/np.abs(J[0]).max())
    span = np.ptp(coord, axis=0).max()
    for k in range(2*n + 1):
        u = np.zeros(2*n)
        if k < 2*n:
            u[k] = 1.
        else:
            u[:] = np.cos(1.7*np.arange(2*n))
        eps, xl = STR[kind](coord, u)
        want = np.array([b @ u for b in B])
        ctx.close(eps[:n], want[:n], "strains", tol=max(tol, 1e-9),
                  scale=max(np.abs(b).max() for b in B))
        xp = np.array([ref.shape(kind, p)[0] @ coord for p in pts])
        ctx.close(xl[:n], xp[:n], "positions", tol=1e-9,
                  scale=max(span, 1e-6*np.abs(coord).max()))
        nodes, elements = models.tables(coord, [list(range(n))],
                                        models.ETYPE[kind])
        E, S = pos.strain_nodes(nodes, elements, MATS, u.reshape(n, 2))
        ctx.close(E, want[:n], "nodal strains", tol=max(tol, 1e-9),
                  scale=max(np.abs(b).max() for b in B))
        ctx.close(S, E @ ref.plane_stress(*MATS[0, :2]).T, "nodal stresses",
                  tol=1e-9)


def numbers(ctx):
    """Large node numbers and many materials in small meshes"""
    kind = ctx.choose("element", list(STR))
    far = ctx.choose("node numbers from", [0, 120, 250, 32760, 65530])
    nmat = ctx.choose("materials", [4, 12, 40, 300])
    cols = ctx.choose("columns", [2, 3])
    first = ctx.choose("first material", [0, 1, 2])
    pts, conn = mesh(kind, "2x2")
    conn = [[far + v for v in c] for c in conn]
    P = np.column_stack([np.cos(np.arange(far + len(pts))),
                         np.sin(np.arange(far + len(pts)))])
    P[far:] = pts
    mats = np.array([[1e3 + 37*k, -.3 + .7*k/nmat, k + 1.]
                     for k in range(nmat)])[:, :cols]
    ids = [(first + k*(nmat - 1)//2) % nmat for k in range(len(conn))]
    nodes, elements = models.tables(P, conn, models.ETYPE[kind], ids)
    u = np.column_stack([np.sin(3.*np.arange(len(P))),
                         np.cos(2.*np.arange(len(P)))])
    with np.errstate(all="ignore"):         # 0/0 at the unused nodes
        E, S = pos.strain_nodes(nodes, elements, mats, u)
    shift = elements.copy()
    shift[:, 3:] -= far
    Er, Sr = ref.nodal_fields(nodes[far:], shift, mats[:, :2], u[far:])
    ctx.visit(kind, far, nmat, cols, first)
    ctx.close(E[far:], Er, "nodal strains", tol=1e-9)
    ctx.close(S[far:], Sr, "nodal stresses", tol=1e-9)


def large(sizes, ctx):
    kind = ctx.choose("element", list(STR))
    n = ctx.choose("mesh", sizes)
    pts, conn = mesh(kind, n)
    nodes, elements = models.tables(pts, conn, models.ETYPE[kind],
                                    [k % 4 for k in range(len(conn))])
    u = np.column_stack([np.sin(pts[:, 0]*3), pts[:, 1]**2 - pts[:, 0]])
    E, S = pos.strain_nodes(nodes, elements, MATS, u)
    Er, Sr = ref.nodal_fields(nodes, elements, MATS, u)
    ctx.visit(kind, n)
    ctx.close(E, Er, "nodal strains", tol=1e-9)
    ctx.close(S, Sr, "nodal stresses", tol=1e-9)


def harnesses(tier):
    deep = tier == "thorough"
    names = ["1x1", "2x1", "2x2", "fan3", "fan5", "fan8", "2x1 twice"]
    if deep:
        names += ["3x3", "fan4", "fan7", "4x1"]
    return [
        Harness("elements", elements_(deep), "geometries x displacement "
                "basis of single elements"),
        Harness("recovery", recovery(names), "meshes x materials x "
                "displacement basis"),
        Harness("shapes", shapes, "slender, skew, rotated and slightly "
                "distorted elements x 4 sizes and positions, basis of the "
                "displacements"),
        Harness("numbers", numbers, "node numbers up to 65530, up to 300 "
                "materials"),
        Harness("large", lambda ctx: large(
            ["16x17", "40x3", "66x65", "fan40", "fan140", "fan260"] +
            (["fan600", "60x60"] if deep else []), ctx),
            "larger meshes, nodes shared by up to %d elements" %
            (600 if deep else 260)),
    ]
