"""C29: energy theorems"""
from itertools import combinations

import numpy as np
from scipy.sparse import csr_matrix

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol
from mc import models, ref
from mc.core import Harness

TITLE = "Energy theorems hold: Clapeyron, reciprocity, stiffening"
STATEMENT = (
    "The energy of a solution is minus one half of the work of the loads and "
    "minus the sum of the strain energies of the elements, so it is never "
    "positive and is quadratic in the loads. Displacements are reciprocal: "
    "the displacement at one place due to a unit load at another equals the "
    "converse. Adding a support, an element or stiffness never increases the "
    "work of given loads, and the solution minimises the potential energy "
    "among all displacements.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="models of every element type, all pairs of loaded degrees of "
         "freedom, all additional supports, stiffened or added elements, "
         "all small symmetric matrices")
WHY = ("These are relations between analyses; a test evaluates the energy of "
       "one 2x2 system at most.")
ANCHORS = dict(
    files=["solidspy/postprocesor.py", "solidspy/assemutil.py",
           "solidspy/solutil.py", "solidspy/uelutil.py"],
    mechanism=[dict(name="energy", where="postprocesor.py"),
               dict(name="assembler, loadasem", where="assemutil.py"),
               dict(name="static_sol", where="solutil.py")],
    observe_at=["energy()", "static_sol()"])
TECHNIQUE = ("explicit-state enumeration of models, load pairs and added "
             "supports against energy theorems")
LEVEL_NOTE = "Exhaustive over the stated products."

CONT = np.array([[1e3, .3, 2.], [4e3, .1, 1.]])
LINE = np.array([[200., 3, 4, 5], [500, 1, 2, 1]])
NAMES = ["quad4", "tri3", "tri6", "quad9", "truss", "springs", "frame",
         "beam", "mixed"]


def case(name):
    """pts, conn, types, ndof, mats, restrained"""
    if name in models.ETYPE:
        n = 2 if name in ("quad4", "tri3") else 1
        pts, conn = models.grid(name, n, 1, 2.0, 1.0)
        left = np.flatnonzero(pts[:, 0] == 0)
        fixed = [(int(v), 0) for v in left] + [(int(left[0]), 1)]
        return models.smooth(pts, .06), conn, models.ETYPE[name], 2, CONT, \
            fixed
    if name in ("truss", "springs", "mixed"):
        pts, conn = models.truss_square()
        et = {"truss": 6, "springs": 5, "mixed": [6, 5, 6, 5, 5, 6]}[name]
        return pts*[3., 2.], conn, et, 2, LINE, [(0, 0), (0, 1), (1, 1)]
    if name == "frame":
        pts, conn = models.portal()
        return pts, conn, 8, 3, LINE, [(0, 0), (0, 1), (0, 2), (3, 1)]
    return np.array([[0, 0], [1., 0], [3, 0], [4, 0]]), \
        [[0, 1], [1, 2], [2, 3]], 7, 3, LINE, \
        [(n, 0) for n in range(4)] + [(0, 1), (2, 1)]


def build(name, fixed=None, factor=None, extra=None, sparse=True):
    pts, conn, et, nd, mats, base = case(name)
    nodes, elements = models.tables(pts, conn, et,
                                    [k % 2 for k in range(len(conn))])
    cons = np.zeros((len(pts), nd), dtype=int)
    for n, d in (fixed if fixed is not None else base):
        cons[n, d] = -1
    if factor is not None:
        e, f = factor
        mats = np.vstack([mats, mats[elements[e, 2]]])
        mats[-1, 0] *= f
        elements[e, 2] = len(mats) - 1
    if extra is not None:
        row = elements[extra].copy()
        row[0] = len(elements)
        elements = np.vstack([elements, row])
    op, bc, neq = ass.DME(cons, elements, ndof_node=nd)
    K, M = ass.assembler(elements, mats, nodes, neq, op, sparse=sparse)
    return nodes, elements, mats, cons, bc, neq, K, nd


def rhs(n, d, bc, neq, nd, size=1.0):
    row = np.zeros((1, nd + 1))
    row[0, 0], row[0, 1 + d] = n, size
    return ass.loadasem(row, bc, neq, ndof_node=nd)


def reciprocity(ctx):
    name = ctx.choose("model", NAMES)
    sparse = ctx.choose("sparse", [True, False])
    nodes, elements, mats, cons, bc, neq, K, nd = build(name, sparse=sparse)
    free = [tuple(map(int, p)) for p in np.argwhere(cons == 0)]
    a = ctx.choose("first", free)
    b = ctx.choose("second", free)
    fa, fb = rhs(*a, bc, neq, nd), rhs(*b, bc, neq, nd)
    ua, ub = sol.static_sol(K, fa), sol.static_sol(K, fb)
    da = pos.complete_disp(bc, nodes, ua, ndof_node=nd)
    db = pos.complete_disp(bc, nodes, ub, ndof_node=nd)
    ctx.visit(name, a, b)
    scale = np.sqrt(abs(da[a]*db[b]))
    ctx.close(da[b], db[a], "reciprocal displacements", tol=1e-8, scale=scale)
    ctx.check(da[a] > 0, "load does negative work", got=da[a])
    # energy: Clapeyron, superposition
    for x in (1.0, -3.0):
        u = sol.static_sol(K, fa + x*fb)
        want = -.5*(da[a] + x*da[b] + x*db[a] + x*x*db[b])
        ctx.close(pos.energy(u, K), want, "energy", tol=1e-7,
                  scale=da[a] + x*x*db[b])
    # element by element
    full = pos.complete_disp(bc, nodes, u, ndof_node=nd)
    tot = 0.0
    for k in range(len(elements)):
        ke, _ = ass.retriever(elements, mats, nodes, k)
        ue = full[elements[k, 3:]].ravel()
        part = .5*ue @ ke @ ue
        ctx.check(part > -1e-9*scale, "negative strain energy of an element")
        tot += part
    ctx.close(-tot, pos.energy(u, K), "sum of the element energies",
              tol=1e-7)
    ctx.outcome(da)


def load_cases(n, nd):
    k = np.arange(n*nd, dtype=float)
    return [np.cos(k), np.ones(n*nd), (k % nd == 1)*1.0, np.sin(3*k + 1)]


def stiffening(ctx):
    """More supports, stiffness or elements: never more work"""
    name = ctx.choose("model", NAMES)
    change = ctx.choose("change", ["support", "stiffness", "element"])
    pts, conn, et, nd, mats, base = case(name)
    n = len(pts)
    kw = {}
    if change == "support":
        free = [(v, d) for v in range(n) for d in range(nd)
                if (v, d) not in base]
        kw["fixed"] = base + [ctx.choose("support", free)]
        ctx.require(len(free) > 1)
    elif change == "stiffness":
        kw["factor"] = (ctx.choose("element", range(len(conn))),
                        ctx.choose("factor", [1.001, 2., 1e3]))
    else:
        kw["extra"] = ctx.choose("element", range(len(conn)))
    lc = ctx.choose("loads", range(4))
    f = load_cases(n, nd)[lc].reshape(n, nd)
    loads = np.column_stack([np.arange(n), f])
    work = []
    for opt in ({}, kw):
        nodes, elements, ms, cons, bc, neq, K, _ = build(name, **opt)
        b = ass.loadasem(loads, bc, neq, ndof_node=nd)
        u = sol.static_sol(K, b)
        full = pos.complete_disp(bc, nodes, u, ndof_node=nd)
        work.append(float(np.sum(full*f)))
        ctx.close(pos.energy(u, K), -.5*work[-1], "Clapeyron", tol=1e-7)
    ctx.visit(name, change, sorted(kw.items(), key=str), lc)
    ctx.check(work[1] <= work[0]*(1 + 1e-7), "work increased", got=work)
    if change == "support":
        ctx.check(work[1] > 0, "no work at all", got=work)


def minimum(ctx):
    """Potential energy is smallest at the solution"""
    name = ctx.choose("model", NAMES)
    nodes, elements, mats, cons, bc, neq, K, nd = build(name)
    lc = ctx.choose("loads", range(4))
    f = load_cases(len(nodes), nd)[lc].reshape(len(nodes), nd)
    b = ass.loadasem(np.column_stack([np.arange(len(nodes)), f]), bc, neq,
                     ndof_node=nd)
    u = sol.static_sol(K, b)
    k = ctx.choose("perturbed DOF", neq)
    h = ctx.choose("perturbation", [1e-3, -1e-3, 1., -20.])
    v = u.copy()
    v[k] += h*np.abs(u).max()

    def pot(w):
        return -pos.energy(w, K) - b @ w
    ctx.visit(name, lc, k, h)
    ctx.check(pot(v) > pot(u), "potential energy decreased", got=pot(v),
              want=pot(u))
    d = v - u
    ctx.close(pot(v) - pot(u), .5*d @ (K @ d), "second variation", tol=1e-5,
              scale=abs(pot(v)) + abs(pot(u)))


def small(ctx):
    """energy() of all small symmetric matrices and vectors"""
    a, b, c = (ctx.choose(k, [-2., 0., 1., 3.]) for k in "abc")
    x, y = (ctx.choose(k, [-1., 0., 2., 5.]) for k in "xy")
    kind = ctx.choose("matrix", ["dense", "csr", "int"])
    A = np.array([[a, b], [b, c]])
    mat = {"dense": A, "csr": csr_matrix(A), "int": A.astype(int)}[kind]
    ctx.visit(a, b, c, x, y, kind)
    got = pos.energy(np.array([x, y]), mat)
    ctx.check(np.ndim(got) == 0, "scalar", got=got)
    ctx.close(got, -.5*(a*x*x + 2*b*x*y + c*y*y), "energy", tol=1e-12,
              scale=1.0)


def flexibility(ctx):
    """Whole flexibility matrix of models under all stable pairs of pinned
    nodes: symmetric and positive definite"""
    name = ctx.choose("model", ["quad4", "tri3", "truss", "mixed", "frame"])
    pts, conn, et, nd, mats, _ = case(name)
    pins = ctx.choose("pinned", [c for n in (2, 3) for c in
                                 combinations(range(len(pts)), n)])
    nodes, elements, mats, cons, bc, neq, K, nd = build(
        name, [(v, d) for v in pins for d in range(nd)])
    ctx.require(neq > 1)
    Kd = K.toarray()
    s = np.sqrt(np.abs(np.diag(Kd)))
    ctx.require(np.linalg.eigvalsh(Kd/np.outer(s, s))[0] > 1e-6)
    F = np.array([sol.static_sol(K, row) for row in np.eye(neq)])
    ctx.visit(name, pins)
    ctx.close(F, F.T, "flexibility is symmetric", tol=1e-9)
    ctx.check(np.linalg.eigvalsh((F + F.T)/2)[0] > 0, "positive definite")
    Kr = ref.full_matrices(nodes, elements, mats, nd)[0]
    idx = np.flatnonzero(cons.ravel() == 0)
    ctx.close(F @ Kr[np.ix_(idx, idx)], np.eye(neq), "inverse of the "
              "stiffness", tol=1e-7)


def sizes(ctx):
    """Clapeyron for models of one up to several hundred unknowns, in all
    units"""
    kind = ctx.choose("model", ["spring", "chain", "quad4", "tri6", "quad9"])
    n = ctx.choose("size", [1, 2, 5, 8])
    length, force = ctx.choose("units", [(1., 1.), (1e-6, 1e-3), (1e3, 1e-6),
                                         (1e-3, 1e9)])
    way = ctx.choose("matrix", ["csr", "dense", "csc"])
    if kind in ("spring", "chain"):
        n = {1: 1, 2: 2, 5: 23, 8: 150}[n]
        pts = np.array([[1.5*k, 0.] for k in range(n + 1)])
        conn = [[k, k + 1] for k in range(n)]
        et, mats = (5, [[4., 1]]) if kind == "spring" else (6, [[4., 2.]])
        cons = np.zeros((n + 1, 2), dtype=int)
        cons[:, 1] = cons[0] = -1
        mats = np.array(mats)
        if kind == "spring":
            mats[:, 0] *= force/length
        else:
            mats *= [force/length**2, length**2]
    else:
        m = n if kind == "quad4" else (n + 1)//2
        pts, conn = models.grid(kind, n, m, 2., 1.)
        et = models.ETYPE[kind]
        cons = np.zeros((len(pts), 2), dtype=int)
        cons[pts[:, 0] == 0] = -1
        mats = np.array([[50.*force/length**2, .3]])
    nodes, elements = models.tables(pts*length, conn, et, [0]*len(conn))
    f = np.cos(np.arange(2*len(pts), dtype=float)).reshape(-1, 2)*force
    op, bc, neq = ass.DME(cons, elements)
    K, _ = ass.assembler(elements, mats, nodes, neq, op, sparse=way != "dense")
    if way == "csc":
        K = K.asformat(way)
    b = ass.loadasem(np.column_stack([np.arange(len(pts)), f]), bc, neq)
    u = sol.static_sol(K.tocsr() if way == "csc" else K, b)
    ctx.visit(kind, n, length, force, way)
    ctx.check(np.ndim(pos.energy(u, K)) == 0, "scalar")
    ctx.close(pos.energy(u, K), -.5*float(u @ b), "energy", tol=1e-7)
    ctx.close(pos.energy(-3*u, K), -4.5*float(u @ b), "quadratic", tol=1e-7)
    ctx.close(-sum(.5*x @ ref.element(elements[k, 1], nodes[
        elements[k, 3:], 1:3], mats[0])[0] @ x for k, x in enumerate(
            pos.complete_disp(bc, nodes, u)[elements[:, 3:]].reshape(
                len(elements), -1))), pos.energy(u, K),
        "sum of the element energies", tol=1e-6)


def harnesses(tier):
    return [
        Harness("sizes", sizes, "5 kinds x 4 sizes (1 to 300 unknowns) x 4 "
                "units x 3 storage schemes"),
        Harness("small", small, "all small systems"),
        Harness("reciprocity", reciprocity, "9 models x all pairs of DOFs"),
        Harness("stiffening", stiffening, "9 models x all added supports, "
                "stiffened and added elements x 4 loads"),
        Harness("minimum", minimum, "9 models x all perturbed DOFs"),
        Harness("flexibility", flexibility, "5 models x all stable sets of "
                "pinned nodes"),
    ]
