"""C28: beams and frames are exact at their nodes"""
from itertools import product

import numpy as np

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol
from mc import models
from mc.core import Harness

TITLE = "Beams and frames give the exact deflections at their nodes"
STATEMENT = (
    "For beams and frames under nodal forces and moments the displacements "
    "and rotations of the nodes are those of Euler-Bernoulli beam theory "
    "(virtual work, closed forms), for any number and length of the "
    "elements, any inclination, section and support. Subdividing a member "
    "changes nothing at the common nodes; rotations are positive "
    "counterclockwise, and a frame without bending behaves as a truss.")
QUANTIFIER = dict(
    over=["inputs"],
    text="all polylines over a set of directions and lengths with any nodal "
         "load, closed-form cases of supports and loads, subdivisions, "
         "inclinations")
WHY = ("Tests have one beam along an axis; signs of rotations and couplings "
       "of inclined members need every quadrant.")
ANCHORS = dict(
    files=["solidspy/uelutil.py", "solidspy/assemutil.py"],
    mechanism=[dict(name="beam2D, beam2DU", where="uelutil.py"),
               dict(name="DME, assembler, loadasem (ndof_node=3)",
                    where="assemutil.py")],
    observe_at=["static_sol() of assembled beams"])
TECHNIQUE = ("explicit-state enumeration of frames, loads and subdivisions "
             "against the principle of virtual work")
LEVEL_NOTE = "Exhaustive over the stated products; tolerance 1e-7."

MATS = np.array([[200., 3., 4., 5.], [70., 1.5, 9., 2.]])


def solve(nodes, cons, elements, mats, loads, sparse=True):
    return models.pipeline(ass, sol, pos, nodes, cons, elements, mats, loads,
                           3, sparse)[0]


def virtual_work(pts, EI, EA, node, load):
    """Displacements (ux, uy, rotation) of all nodes of a polyline clamped
    at its first node under a load (fx, fy, m) at one node"""
    n = len(pts)

    def internal(k, s, where, F):
        """Bending moment and normal force at s of member k"""
        if where <= k:
            return 0.0, 0.0
        d = pts[k + 1] - pts[k]
        L = np.linalg.norm(d)
        x = pts[k] + s*d
        r = pts[where] - x
        return F[2] + r[0]*F[1] - r[1]*F[0], (F[0]*d[0] + F[1]*d[1])/L
    xg, wg = np.polynomial.legendre.leggauss(3)
    out = np.zeros((n, 3))
    for i in range(n):
        for c in range(3):
            unit = np.eye(3)[c]
            tot = 0.0
            for k in range(n - 1):
                L = np.linalg.norm(pts[k + 1] - pts[k])
                for x, w in zip(xg, wg):
                    s = (x + 1)/2
                    M, N = internal(k, s, node, load)
                    m, q = internal(k, s, i, unit)
                    tot += w*L/2*(M*m/EI[k] + N*q/EA[k])
            out[i, c] = tot
    return out


DIRS = [(1., 0.), (0., 1.), (-1., 0.), (0., -1.), (.6, .8), (-.8, .6),
        (-.6, -.8), (12/13, -5/13)]


def polylines(depth, lens):
    def run(ctx):
        n = ctx.choose("members", range(1, depth + 1))
        pts = [np.array([1.5, -2.])]
        for k in range(n):
            d = ctx.choose("direction %d" % k, DIRS)
            pts.append(pts[-1] + lens[k % len(lens)]*np.array(d))
        pts = np.array(pts)
        node = ctx.choose("loaded node", range(1, n + 1))
        load = ctx.choose("load", [(1., 0, 0), (0, 1., 0), (0, 0, 1.),
                                   (-2., 3., .7)])
        rev = ctx.choose("member nodes", ["forward", "backward"])
        mat = [k % 2 for k in range(n)]
        conn = [[k, k + 1][::1 if rev == "forward" else -1]
                for k in range(n)]
        nodes, elements = models.tables(pts, conn, 8, mat)
        cons = np.zeros((n + 1, 3), dtype=int)
        cons[0] = -1
        got = solve(nodes, cons, elements, MATS, np.array([[node, *load]]),
                    rev == "forward")
        want = virtual_work(pts, [MATS[m][0]*MATS[m][1] for m in mat],
                            [MATS[m][0]*MATS[m][2] for m in mat], node, load)
        ctx.visit(pts, node, load, rev)
        # folded polylines may cancel at single nodes: scale of the frame
        ctx.close(got[:, :2], want[:, :2], "displacements", tol=1e-8,
                  scale=max(np.abs(want[:, :2]).max(), 1e-3))
        ctx.close(got[:, 2], want[:, 2], "rotations", tol=1e-8,
                  scale=max(np.abs(want[:, 2]).max(), 1e-3))
        ctx.outcome(got)
    return run


CASES = ["cantilever force", "cantilever moment", "simple centre",
         "simple end moment", "fixed centre", "propped centre",
         "guided", "cantilever middle"]


def closed(case, L, EI, P):
    """Supports (node at fraction, dofs), load, expected (fraction, dof,
    value) in the axes of the beam"""
    c = {
        "cantilever force": ([(0, (0, 1, 2))], (1, (0, P, 0)),
                             [(1, 1, P*L**3/3/EI), (1, 2, P*L**2/2/EI),
                              (.5, 1, 5*P*L**3/48/EI),
                              (.5, 2, 3*P*L**2/8/EI)]),
        "cantilever moment": ([(0, (0, 1, 2))], (1, (0, 0, P)),
                              [(1, 1, P*L**2/2/EI), (1, 2, P*L/EI),
                               (.5, 1, P*L**2/8/EI), (.5, 2, P*L/2/EI)]),
        "simple centre": ([(0, (0, 1)), (1, (1,))], (.5, (0, P, 0)),
                          [(.5, 1, P*L**3/48/EI), (.5, 2, 0),
                           (0, 2, P*L**2/16/EI), (1, 2, -P*L**2/16/EI)]),
        "simple end moment": ([(0, (0, 1)), (1, (1,))], (1, (0, 0, P)),
                              [(1, 2, P*L/3/EI), (0, 2, -P*L/6/EI),
                               (.5, 1, -P*L**2/16/EI)]),
        "fixed centre": ([(0, (0, 1, 2)), (1, (0, 1, 2))], (.5, (0, P, 0)),
                         [(.5, 1, P*L**3/192/EI), (.5, 2, 0)]),
        "propped centre": ([(0, (0, 1, 2)), (1, (1,))], (.5, (0, P, 0)),
                           [(.5, 1, 7*P*L**3/768/EI),
                            (1, 2, -P*L**2/32/EI)]),
        "guided": ([(0, (0, 1, 2)), (1, (2,))], (1, (0, P, 0)),
                   [(1, 1, P*L**3/12/EI), (.5, 1, P*L**3/24/EI),
                    (.5, 2, P*L**2/8/EI)]),
        "cantilever middle": ([(0, (0, 1, 2))], (.5, (0, P, 0)),
                              [(.5, 1, P*L**3/24/EI),
                               (1, 1, 5*P*L**3/48/EI),
                               (1, 2, P*L**2/8/EI), (.5, 2, P*L**2/8/EI)]),
    }
    return c[case]


def textbook(parts):
    def run(ctx):
        case = ctx.choose("case", CASES)
        etype = ctx.choose("element", [7, 8])
        n = ctx.choose("elements", parts)
        k = ctx.choose("direction", range(4))
        L = ctx.choose("length", [1.0, .02, 30., 1e-6, 1e6])
        E, I = ctx.choose("section", [(1., 1.), (2.1e11, 8e-6), (3e3, 40.)])
        P = ctx.choose("load", [1.0, -2500.])
        graded = ctx.choose("mesh", ["uniform", "graded"])
        sup, (at, load), expect = closed(case, L, E*I, P)
        # supports along the axes of the beam: quarter turns only
        R = models.ROTATIONS[k]
        s = np.arange(n + 1)/n
        if graded == "graded":
            s = np.where(s <= .5, 2*s*s, 1 - 2*(1 - s)**2)
        local = np.column_stack([s*L, 0*s])
        pts = local @ R.T + [3*L, -L]
        nodes, elements = models.tables(pts, [[q, q + 1] for q in range(n)],
                                        etype)
        mats = np.array([[E, I, 1.0, 1.0]])
        if etype == 8:
            mats = np.array([[E, I, I*12/(L/10)**2]])
        axis = [0, 1, 2] if k % 2 == 0 else [1, 0, 2]
        cons = np.zeros((n + 1, 3), dtype=int)

        def node(frac):
            q = int(np.argmin(np.abs(s - frac)))
            ctx.require(abs(s[q] - frac) < 1e-12)
            return q
        for frac, dofs in sup:
            for d in dofs:
                cons[node(frac), axis[d]] = -1
        if etype == 7:
            cons[:, axis[0]] = -1
        T = np.eye(3)
        T[:2, :2] = R
        loads = np.array([[node(at), *(T @ np.array(load, dtype=float))]])
        got = solve(nodes, cons, elements, mats, loads) @ T
        ctx.visit(case, etype, n, k, L, E, P, graded)
        tol = 1e-6 if n > 16 else 1e-7
        for frac, dof, val in expect:
            # rotation scale: deflection over length
            size = max(abs(v) if d == dof else
                       abs(v)*(1/L if dof == 2 else L)
                       for f, d, v in expect)
            ctx.close(got[node(frac), dof], val, "%s at %s of the beam" %
                      ("rotation" if dof == 2 else "deflection", frac),
                      tol=tol, scale=size)
    return run


def subdivision(deep):
    def run(ctx):
        name = ctx.choose("frame", ["portal", "gable", "tree"])
        if name == "portal":
            pts, conn = models.portal()
            fixed = [0, 3]
        elif name == "gable":
            pts = np.array([[0, 0], [0, 2.], [1.5, 3], [3., 2.], [3., 0]])
            conn, fixed = [[0, 1], [2, 1], [2, 3], [3, 4]], [0, 4]
        else:
            pts = np.array([[0, 0], [0, 2.], [-1., 3], [1.5, 3.], [1, 1.]])
            conn, fixed = [[0, 1], [1, 2], [1, 3], [4, 1]], [0]
        n = len(pts)
        cuts = [ctx.choose("parts of %d" % k, [1, 2, 3, 5] if deep else
                           [1, 2, 4]) for k in range(len(conn))]
        pin = ctx.choose("feet", ["clamped", "pinned"])
        ctx.require(pin == "clamped" or len(fixed) == 2)
        turn = ctx.choose("turned", [0, 5])
        pts = pts @ models.ROTATIONS[turn].T
        loads = np.array([[k, 1. - k, .5*k*k - 1, .3*k] for k in range(n)])

        def analyse(cuts):
            P, C, mat = list(pts), [], []
            for k, ((a, b), m) in enumerate(zip(conn, cuts)):
                chain = [a]
                for q in range(1, m):
                    P.append(pts[a] + (pts[b] - pts[a])*q/m)
                    chain.append(len(P) - 1)
                chain.append(b)
                for i, j in zip(chain, chain[1:]):
                    C.append([i, j] if len(C) % 2 else [j, i])
                    mat.append(k % 2)
            nodes, elements = models.tables(np.array(P), C, 8, mat)
            cons = np.zeros((len(P), 3), dtype=int)
            for f in fixed:
                cons[f, :3 if pin == "clamped" else 2] = -1
            return solve(nodes, cons, elements, MATS, loads)[:n]
        ctx.visit(name, cuts, pin, turn)
        ctx.close(analyse(cuts), analyse([1]*len(conn)),
                  "displacements after subdividing the members", tol=1e-8)
    return run


def truss_limit(ctx):
    """Frames with pinned-like behaviour: slender triangulated frames give
    the displacements of the truss"""
    n = ctx.choose("nodes", [3, 4, 5, 6])
    turn = ctx.choose("turned", range(8))
    A = ctx.choose("area", [2.0, 50.])
    pts, conn = models.triangles(n)
    pts = pts*[2., 1.5] @ models.ROTATIONS[turn].T
    nodes, elements = models.tables(pts, conn, 8, 0)
    cons = np.zeros((n, 3), dtype=int)
    cons[:2, :2] = -1
    loads = np.array([[k, 2. - k, 1. + k, 0.] for k in range(2, n)])
    frame = solve(nodes, cons, elements, np.array([[100., 1e-8, A]]), loads)
    el2 = elements.copy()
    el2[:, 1] = 6
    truss, _ = models.pipeline(ass, sol, pos, nodes, cons[:, :2].copy(), el2,
                               np.array([[100., A]]), loads[:, :3])
    ctx.visit(n, turn, A)
    ctx.close(frame[:, :2], truss, "displacements of the truss", tol=1e-5)


def stars(deep):
    """Members of both types, clamped at their far ends, that meet in one
    node: the slope-deflection equations are the exact solution"""
    dirs = DIRS + [(-.6, .8), (.8, -.6), (-12/13, -5/13), (0.8, .6)]

    def run(ctx):
        m = ctx.choose("members", [2, 3])
        turn = ctx.choose("first direction", range(len(dirs)))
        gap = [ctx.choose("gap %d" % k, [1, 2, 5, 7] if deep else [1, 5])
               for k in range(1, m)]
        kinds = ctx.choose("types", [(7, 7, 7), (8, 8, 8), (7, 8, 7),
                                     (8, 7, 8)])
        size = ctx.choose("size", [1., 1e-6, 1e6])
        ends = ctx.choose("member nodes", ["inwards", "outwards", "both"])
        cols = ctx.choose("columns of the materials", [2, 3, 4])
        ctx.require(cols == 4 or set(kinds[:m]) == {5 + cols})
        whole = ctx.choose("numbers", ["float", "whole", "far"])
        ctx.require(whole != "whole" or size == 1)
        which = [turn]
        for g in gap:
            which.append((which[-1] + g) % len(dirs))
        lens = np.array([1., 2.5, .4])
        far = [-np.array(dirs[i])*L*size for i, L in zip(which, lens)]
        pts = np.array([[0., 0.]] + far)
        if whole == "whole":
            pts = np.round(8*pts)
        elif whole == "far":
            pts = pts + np.array([30., -70.])*size
        conn = [[k + 1, 0] if ends == "inwards" or (ends == "both" and k % 2)
                else [0, k + 1] for k in range(m)]
        pts = pts[:m + 1]
        nodes, elements = models.tables(pts, conn, kinds[:m],
                                        [k % 2 for k in range(m)])
        mats = np.array([[200., 3., 4., 5.], [70., 2., 9., 2.]])[:, :cols]
        if cols > 2:
            mats[:, 2] /= size**2         # comparable stiffness
        K = np.zeros((3, 3))
        for k in range(m):
            v = pts[0] - pts[k + 1]
            L = np.linalg.norm(v)
            ctx.require(L > .1*size)
            d = v/L
            t = np.array([-d[1], d[0]])
            E, I = mats[k % 2, :2]
            c = np.array([*t, 0]), np.array([0, 0, 1.])
            K += E*I*(12/L**3*np.outer(c[0], c[0]) +
                      4/L*np.outer(c[1], c[1]) -
                      6/L**2*(np.outer(c[0], c[1]) + np.outer(c[1], c[0])))
            if kinds[k] == 8:
                K[:2, :2] += E*mats[k % 2, 2]/L*np.outer(d, d)
        S = np.diag([1, 1, 1/size])       # rotations in lengths
        ctx.require(np.linalg.cond(S @ K @ S) < 1e7)
        cons = -np.ones((m + 1, 3), dtype=int)
        cons[0] = 0
        ctx.visit(m, which, kinds, size, ends, cols, whole)
        for load in ([1., 0, 0], [0, 1., 0], [0, 0, size], [2., -3., size]):
            want = np.linalg.solve(S @ K @ S, S @ load)
            if whole == "whole":
                res = solve(nodes.astype(int), cons, elements, mats,
                            np.array([[0, *load]]))
            else:
                res = solve(nodes, cons, elements, mats,
                            np.array([[0, *load]]))
            ctx.close(np.linalg.solve(S, res[0]), want, "slope-deflection",
                      tol=1e-8)
            ctx.check(np.all(res[1:] == 0), "clamped ends")
        ctx.outcome(want)
    return run


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("textbook", textbook([2, 4, 6] + ([10, 20] if deep else [])),
                "8 textbook cases x element types x subdivisions x "
                "directions x lengths x sections"),
        Harness("polylines", polylines(4 if deep else 3, [1.0, 2.5, .4]),
                "all cantilever polylines of up to %d members over 8 "
                "directions" % (4 if deep else 3)),
        Harness("stars", stars(deep), "2 or 3 members of both types that "
                "meet in a node, 12 directions x sizes x layouts"),
        Harness("subdivision", subdivision(deep), "3 frames x all "
                "subdivisions of their members"),
        Harness("truss", truss_limit, "slender triangulated frames"),
    ]
