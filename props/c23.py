"""C23: stresses of truss members"""
from itertools import combinations

import numpy as np

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol
from mc import models, ref
from mc.core import Harness

TITLE = "Member stresses are E times the elongation, positive in tension"
STATEMENT = (
    "For every truss and every displacement field, the stress of each member "
    "is its Young modulus times its relative elongation along its axis, "
    "positive in tension, independent of the direction, length and area of "
    "the member, of the order of its nodes and of the numbering, and zero "
    "for rigid motions. In a solved truss the member forces balance the "
    "loads at every free node and give the reactions at the supports.")
QUANTIFIER = dict(
    over=["inputs"],
    text="member directions and lengths, basis of displacement fields, "
         "material tables, all stable support patterns of small trusses")
WHY = ("Doctests have three symmetric trusses with E = A = 1 and one free "
       "node: sign, modulus and area errors cancel in them.")
ANCHORS = dict(
    files=["solidspy/postprocesor.py", "solidspy/uelutil.py"],
    mechanism=[dict(name="stress_truss", where="postprocesor.py"),
               dict(name="truss2D", where="uelutil.py")],
    observe_at=["stress_truss()"])
TECHNIQUE = ("explicit-state enumeration of members, displacement bases and "
             "support patterns against exact statics")
LEVEL_NOTE = "Exhaustive over the stated products; tolerance 1e-9."

MATS = np.array([[2.1e5, 3.0, 7], [7e4, .02, 3], [1.0, 50., 2]])


def members(ctx):
    """One member: stress is linear in the displacements, so a basis and
    some combinations decide it for every displacement"""
    ang = ctx.choose("direction", range(24))
    L = ctx.choose("length", [1e-3, .7, 1.0, 25., 4e4])
    E, A, nmat = ctx.choose("material", [(1., 1., 2), (2e11, 1e-4, 2),
                                         (5., 300., 3), (.1, 2., 2),
                                         (3., 1e-9, 3), (2., 1e8, 2)])
    d = ctx.choose("displacement", range(7))
    at = ctx.choose("position", [(0., 0.), (-30., 70.)])
    rev = ctx.choose("reversed", [False, True])
    t = np.array([np.cos(ang*np.pi/12), np.sin(ang*np.pi/12)])
    if ang % 6 == 0:
        t = np.round(t)
    nodes = np.array([[0, *at], [1, *(np.array(at) + L*t)]])
    disp = np.zeros((2, 2))
    if d < 4:
        disp.flat[d] = 1.0
    elif d == 4:
        disp[:] = [3.0, -2.]
    elif d == 5:
        disp = np.array([[.3, .7], [-1.1, .4]])
    else:                 # small rotation about a distant point
        w = nodes[:, 1:] - [5., 1.]
        disp = np.column_stack([-w[:, 1], w[:, 0]])
    mats = np.array([[9., 9., 9.][:nmat], [E, A, 4.][:nmat]])
    elements = np.array([[0, 6, 1, 1, 0] if rev else [0, 6, 1, 0, 1]])
    keep = nodes.copy(), elements.copy(), mats.copy(), disp.copy()
    got = pos.stress_truss(nodes, elements, mats, disp)
    ctx.visit(ang, L, E, d, at, rev)
    want = E*np.dot(disp[1] - disp[0], t)/L
    scale = E*np.abs(disp).max()/L
    ctx.close(got, [want], "stress", tol=1e-9, scale=scale)
    for a, b in zip(keep, (nodes, elements, mats, disp)):
        ctx.same(b, a, "arguments were modified")
    ctx.outcome(got)


def tables(ctx):
    """Several members: each one takes its own nodes and material"""
    n = ctx.choose("nodes", [3, 4, 5])
    pts, conn = models.triangles(n)
    order = ctx.choose("order", ["natural", "reversed", "rotated"])
    mat = [ctx.choose("material of %d" % k, range(3)) if k < 4 else k % 3
           for k in range(len(conn))]
    cols = ctx.choose("material columns", [2, 3])
    wide = ctx.choose("node columns", [3, 5])
    if order == "reversed":
        conn = conn[::-1]
    elif order == "rotated":
        conn = [c[::-1] for c in conn[2:] + conn[:2]]
    nodes, elements = models.tables(pts*[2., 1.7], conn, 6, mat)
    if wide == 5:
        nodes = np.column_stack([nodes, -np.ones((n, 2))])
    disp = np.column_stack([np.sin(3.*np.arange(n)), np.cos(np.arange(n))])
    got = pos.stress_truss(nodes, elements, MATS[:, :cols], disp)
    want = []
    for e in elements:
        a, b = e[3], e[4]
        v = nodes[b, 1:3] - nodes[a, 1:3]
        want.append(MATS[e[2], 0]*np.dot(disp[b] - disp[a], v)/np.dot(v, v))
    ctx.visit(n, order, mat, cols, wide)
    ctx.close(got, want, "stresses", tol=1e-10)
    for k, w in enumerate(want):
        ctx.close(got[k], w, "stress of a member", tol=1e-9,
                  scale=MATS[mat[k], 0]*2)


def statics(deep):
    def run(ctx):
        name = ctx.choose("truss", ["square", "tower 5", "tower 6"])
        if name == "square":
            pts, conn = models.truss_square()
        else:
            pts, conn = models.triangles(int(name[-1]))
        nn = len(pts)
        fixed = ctx.choose("restrained", [
            c for m in ((3, 4, 5) if deep else (3, 4))
            for c in combinations(range(2*nn), m)])
        cons = np.zeros((nn, 2), dtype=int)
        cons.flat[list(fixed)] = -1
        turn = ctx.choose("turned", [0, 4] if deep else [4])
        pts = pts*[3., 2.] @ models.ROTATIONS[turn].T
        nodes, elements = models.tables(pts, conn, 6,
                                        [k % 2 for k in range(len(conn))])
        K = ref.full_matrices(nodes, elements, MATS)[0]
        free = np.flatnonzero(cons.ravel() == 0)
        kff = K[np.ix_(free, free)]
        s = np.sqrt(np.diag(kff))
        ctx.require(np.linalg.eigvalsh(kff/np.outer(s, s))[0] > 1e-5)
        loads = np.array([[v, 10. - 3*v, 5. + v*v] for v in range(nn)])
        disp, _ = models.pipeline(ass, sol, pos, nodes, cons, elements, MATS,
                                  loads)
        stress = pos.stress_truss(nodes, elements, MATS, disp)
        _, react, _, _ = ref.solve(nodes, cons, elements, MATS, loads)
        f = ref.load_vector(nn, loads) + react
        pull = np.zeros((nn, 2))
        for e, q in zip(elements, stress):
            a, b = e[3], e[4]
            v = nodes[b, 1:3] - nodes[a, 1:3]
            v = v/np.linalg.norm(v)*q*MATS[e[2], 1]
            pull[a] += v
            pull[b] -= v
        ctx.visit(name, fixed, turn)
        ctx.close(pull, -f, "equilibrium of the nodes", tol=1e-7,
                  scale=np.abs(f).max())
        if len(fixed) == 3 and len(conn) == 2*nn - 3:
            # statically determinate: independent of the materials
            other = MATS*[3., 7., 1]
            d2, _ = models.pipeline(ass, sol, pos, nodes, cons,
                                    elements, other, loads)
            s2 = pos.stress_truss(nodes, elements, other, d2)
            ctx.close(s2*7, stress, "member forces of a determinate truss",
                      tol=1e-7)
    return run


def stress_of(nodes, elements, mats, disp):
    out = []
    for e in elements:
        v = np.array(nodes[e[4], 1:3] - nodes[e[3], 1:3], dtype=float)
        du = np.array(disp[e[4]], dtype=float) - disp[e[3]]
        out.append(mats[e[2], 0]*np.dot(du, v)/np.dot(v, v))
    return out


def layouts(ctx):
    """Everything a table may look like: types, order, labels, columns and
    memory layout of the numbers"""
    shape = ctx.choose("truss", ["tower", "star", "one bar", "unused node",
                                 "far", "negative", "tiny", "very tiny",
                                 "huge", "whole numbers", "chain back"])
    labels = ctx.choose("labels", ["natural", "from one", "shuffled"])
    etype = ctx.choose("type", ["6", "5 and 6", "other"])
    form = ctx.choose("tables", ["plain", "Fortran", "view", "read-only"])
    mats = ctx.choose("materials", ["three", "one", "equal", "soft", "thin",
                                    "very thin",
                                    "thick", "whole numbers"])
    field = ctx.choose("displacements", ["waves", "tiny", "large", "very large",
                                         "negative",
                                         "whole numbers", "small strain"])
    if shape == "star":
        pts = np.array([[0., 0]] + [[2*np.cos(a), 1.5*np.sin(a)] for a in
                                    np.arange(9)*.7])
        conn = [[0, k] if k % 2 else [k, 0] for k in range(1, 10)]
    elif shape == "chain back":
        pts = np.column_stack([np.arange(7.), np.sin(np.arange(7.))])
        conn = [[k, k - 1] for k in range(6, 0, -1)]
    elif shape == "one bar":
        pts, conn = np.array([[1., 2.], [-2., 6.]]), [[1, 0]]
    else:
        pts, conn = models.triangles(6)
        pts = pts*[2., 1.5]
    if shape == "unused node":
        conn = [c for c in conn if 2 not in c]
    pts = {"far": pts + [1e4, -3e4], "negative": pts - [50., 80.],
           "tiny": pts*1e-5, "very tiny": pts*1e-9,
           "huge": pts*1e6,
           "whole numbers": np.round(2*pts)}.get(shape, pts)
    n = len(pts)
    ids = [k % 3 for k in range(len(conn))]
    M = {"three": MATS, "one": MATS[:1], "equal": MATS[[0, 0, 0]],
         "soft": MATS*[1e-6, 1, 1], "thin": MATS*[1., 1e-3, 1], "very thin": MATS*[1., 1e-15, 1],
         "thick": MATS*[1., 1e4, 1],
         "whole numbers": np.array([[200, 3], [7, 1], [45, 12]])}[mats]
    nodes, elements = models.tables(pts, conn, 6, np.mod(ids, len(M)))
    if etype == "5 and 6":
        elements[::2, 1] = 5
    elif etype == "other":
        elements[:, 1] = 61
    if labels == "from one":
        nodes[:, 0] += 1
        elements[:, 0] += 1
    elif labels == "shuffled":
        nodes[:, 0] = np.argsort(np.sin(5.*np.arange(n)))
        elements[:, 0] = elements[::-1, 0]*10
    disp = np.column_stack([np.sin(3.*np.arange(n)), np.cos(np.arange(n))])
    if field == "whole numbers":
        disp = np.round(9*disp).astype(int)
    elif field == "small strain":
        disp = 5. + 1e-7*disp
    else:
        disp = {"tiny": disp*1e-9, "large": disp*1e3,
                "very large": disp*1e12,
                "negative": disp - 7.}.get(field, disp)
    if shape == "whole numbers":
        nodes = nodes.astype(int)

    def lay(x):
        if form == "Fortran":
            return np.asfortranarray(x)
        if form == "view":
            big = np.full((2*len(x), x.shape[1] + 2), -3, dtype=x.dtype)
            big[::2, 1:-1] = x
            return big[::2, 1:-1]
        x = x.copy()
        if form == "read-only":
            x.flags.writeable = False
        return x
    args = [lay(x) for x in (nodes, elements, M, disp)]
    got = pos.stress_truss(*args)
    ctx.visit(shape, labels, etype, form, mats, field)
    want = np.array(stress_of(nodes, elements, M, disp))
    ctx.check(np.shape(got) == (len(elements),), "one stress per member",
              got=np.shape(got))
    span = max(1e-300, np.ptp(pts, axis=0).max())
    coarse = 1e-16*np.abs(pts).max()/span
    for k, e in enumerate(elements):
        v = np.linalg.norm(pts[e[4]] - pts[e[3]])
        size = M[e[2], 0]/v*(1e-7 if field == "small strain" else
                             max(np.abs(disp[e[4]] - disp[e[3]])))
        noise = M[e[2], 0]/v*np.abs(disp).max()*1e-14
        ctx.check(abs(got[k] - want[k]) <= size*(1e-10 + 100*coarse) + noise,
                  "stress of a member", got=got[k], want=want[k], member=k)
    for a, b in zip(args, (nodes, elements, M, disp)):
        ctx.same(a, b, "arguments were modified")


def numbers(ctx):
    """Large node and material numbers in small tables"""
    far = ctx.choose("node numbers from", [0, 120, 250, 32760, 65530])
    nmat = ctx.choose("materials", [3, 12, 130, 300])
    step = ctx.choose("material step", [1, 7, 11])
    pts, conn = models.triangles(6)
    P = np.column_stack([np.cos(np.arange(far + 6)),
                         np.sin(np.arange(far + 6))])
    P[far:] = pts
    nodes, elements = models.tables(P, [[far + v for v in c] for c in conn],
                                    6, [(nmat - 1 + step*k) % nmat for k in
                                        range(len(conn))])
    mats = np.array([[2. + k, 1. + 3*k % 7] for k in range(nmat)])
    disp = np.column_stack([np.sin(3.*np.arange(len(P))),
                            np.cos(np.arange(len(P)))])
    ctx.visit(far, nmat, step)
    ctx.close(pos.stress_truss(nodes, elements, mats, disp),
              stress_of(nodes, elements, mats, disp), "stresses", tol=1e-10)


def large(ctx):
    n = ctx.choose("nodes", [50, 300, 700])
    pts, conn = models.triangles(n)
    nodes, elements = models.tables(pts, conn, 6, [k % 3 for k in
                                                   range(len(conn))])
    G = np.array([[.01, -.02], [.005, .03]])
    disp = nodes[:, 1:] @ G.T + 4.
    got = pos.stress_truss(nodes, elements, MATS, disp)
    want = []
    for e in elements:
        v = nodes[e[4], 1:] - nodes[e[3], 1:]
        t = v/np.linalg.norm(v)
        want.append(MATS[e[2], 0]*(t @ G @ t))
    ctx.visit(n)
    ctx.close(got, want, "homogeneous strain", tol=1e-7)


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("members", members, "24 directions x 5 lengths x 6 materials "
                "x 7 displacements"),
        Harness("tables", tables, "material assignments and orders"),
        Harness("layouts", layouts, "11 trusses x 3 labels x 3 types x 4 "
                "layouts x 8 materials x 7 displacements"),
        Harness("numbers", numbers, "node numbers up to 65530, up to 300 "
                "materials"),
        Harness("large", large, "towers with many members"),
        Harness("statics", statics(deep), "all stable patterns of 3 and 4 "
                "supports, 3 trusses"),
    ]
