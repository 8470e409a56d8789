"""C04: static solutions"""
from itertools import combinations

import numpy as np
from scipy.sparse import csr_matrix
from scipy.sparse.linalg import spsolve

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol
from solidspy.solids_GUI import solids_auto
from mc import models, ref
from mc.core import Harness

TITLE = "Static analyses return the equilibrium displacements"
STATEMENT = (
    "For every well-posed model (any element type, restraints, materials and "
    "loads) the displacements returned are those of the finite element "
    "equations: restrained components are exactly zero, internal forces "
    "balance the loads at every free degree of freedom, and loads and "
    "reactions are in global equilibrium of forces and moments. Dense and "
    "sparse systems, the step-by-step calls and the automatic workflow give "
    "the same displacements.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="all stable restraint patterns of small models of every element "
         "type, load patterns, materials, storage schemes and entry points; "
         "all small invertible matrices for the solver")
WHY = ("Tests solve a handful of models with one support condition each; "
       "whether equilibrium holds for every support, load and material "
       "combination is a statement about all of them.")
ANCHORS = dict(
    files=["solidspy/assemutil.py", "solidspy/solutil.py",
           "solidspy/postprocesor.py", "solidspy/solids_GUI.py"],
    mechanism=[dict(name="static_sol", where="solutil.py"),
               dict(name="complete_disp", where="postprocesor.py"),
               dict(name="solids_auto", where="solids_GUI.py"),
               dict(name="assembler", where="assemutil.py"),
               dict(name="loadasem", where="assemutil.py")],
    observe_at=["static_sol()", "complete_disp()", "solids_auto()"])
TECHNIQUE = ("explicit-state enumeration of restraint patterns, loads and "
             "models, executed end to end against a reference solver")
LEVEL_NOTE = ("Exhaustive within the bounds; models with a condition number "
              "above 1e7 are outside of the domain (mechanisms).")

CONT = np.array([[1e3, .3, 2], [4e3, .1, 5]])
LINE = np.array([[200., 3, 4, 5], [500, 1, 2, 1]])


def case(name):
    """coords, conn, types, ndof, materials"""
    if name in ("quad4", "tri3", "tri6", "quad9"):
        pts, conn = models.grid(name, 1, 1, 2.0, 1.0)
        return models.smooth(pts, .1), conn, models.ETYPE[name], 2, CONT
    if name == "quad4 2x1":
        pts, conn = models.grid("quad4", 2, 1, 2.0, 1.0)
        return pts, conn, 1, 2, CONT
    if name == "truss":
        pts, conn = models.truss_square()
        return pts*3 - 1, conn, 6, 2, LINE
    if name == "springs":
        pts, conn = models.truss_square()
        return pts, conn, 5, 2, LINE
    if name == "spring+truss":
        pts, conn = models.truss_square()
        return pts, conn, [5, 6, 6, 5, 6, 5], 2, LINE
    if name == "frame":
        pts, conn = models.portal()
        return pts, conn, 8, 3, LINE
    if name == "beam":
        return np.array([[0, 0], [1., 0], [3, 0]]), [[0, 1], [1, 2]], 7, 3, \
            LINE
    if name == "mixed frame":
        pts, conn = models.portal()
        return pts, conn, [8, 7, 8], 3, LINE
    raise KeyError(name)


NAMES = ["quad4", "tri3", "tri6", "quad9", "quad4 2x1", "truss", "springs",
         "spring+truss", "frame", "beam", "mixed frame"]


def restraints(total, deep):
    """All patterns for few DOFs, otherwise all with few restrained"""
    if total <= 9 or deep and total <= 12:
        return [[k for k in range(total) if b >> k & 1]
                for b in range(1, 2**total - 1)]
    out = [list(c) for n in ((3, 4) if deep else (3,))
           for c in combinations(range(total), n)]
    out += [[k for k in range(total) if k not in c]
            for n in (1, 2) for c in combinations(range(total), n)]
    return out


def judge(ctx, full, want, react, nodes, cons, K, f, nd, label, tol):
    free = np.asarray(cons) == 0
    ctx.check(np.shape(full) == (len(nodes), nd), "shape of displacements",
              got=np.shape(full), label=label)
    ctx.check(np.all(np.asarray(full)[~free] == 0.0),
              "restrained DOF moves", label=label, disp=full)
    ctx.close(full, want, "displacements", tol=tol, label=label)
    r = (K @ np.asarray(full).ravel()).reshape(-1, nd) - f
    scale = np.abs(f).max()
    ctx.close(r[free], 0*r[free], "nodal equilibrium", tol=100*tol,
              scale=scale, label=label)
    # global equilibrium of loads and reactions
    r[free] = 0
    tot = f + r
    size = max(scale, np.abs(r).max())
    x, y = nodes[:, 1], nodes[:, 2]
    ctx.close(tot[:, :2].sum(axis=0), np.zeros(2), "global forces",
              tol=100*tol, scale=size, label=label)
    mom = (x*tot[:, 1] - y*tot[:, 0]).sum() + (tot[:, 2].sum()
                                               if nd == 3 else 0)
    ctx.close(mom, 0.0, "global moments", tol=1000*tol, scale=size,
              label=label)


def solutions(deep, names, load_kinds):
    def run(ctx):
        name = ctx.choose("model", names)
        pts, conn, et, nd, mats = case(name)
        nn = len(pts)
        fixed = ctx.choose("restrained", restraints(nn*nd, deep))
        cons = np.zeros((nn, nd), dtype=int)
        cons.flat[fixed] = -1
        mat = [k % 2 for k in range(len(conn))]
        nodes, elements = models.tables(pts, conn, et, mat)
        K, M = ref.full_matrices(nodes, elements, mats, nd)
        free = np.flatnonzero(cons.ravel() == 0)
        Kff = K[np.ix_(free, free)]
        d = np.sqrt(np.abs(np.diag(Kff)))
        ctx.require(np.all(d > 0))
        ev = np.linalg.eigvalsh(Kff/np.outer(d, d))
        ctx.require(ev[0] > 1e-6, "mechanism")
        kind = ctx.choose("loads", load_kinds)
        if kind == "all":
            loads = np.array([[n] + [(-1)**(n + k)*(1. + n + 2*k)
                                     for k in range(nd)]
                              for n in range(nn)])
        elif kind == "one":
            loads = np.array([[nn - 1] + [3., -2., .5][:nd]])
        else:
            loads = np.array([[1] + [1., 2, 3][:nd], [0] + [.5, 1, 2][:nd],
                              [1] + [-3., 1, 1][:nd], [1] + [0, 5., 0][:nd]])
        f = ref.load_vector(nn, loads, nd)
        ctx.require(np.abs(f.ravel()[free]).max() > 0)
        want, react, _, _ = ref.solve(nodes, cons, elements, mats, loads, nd)
        ctx.visit(name, fixed, kind)
        tol = 1e-12/ev[0] + 1e-11
        for sparse in (True, False):
            full, info = models.pipeline(ass, sol, pos, nodes, cons,
                                         elements, mats, loads, nd, sparse)
            judge(ctx, full, want, react, nodes, cons, K, f, nd,
                  "sparse" if sparse else "dense", tol)
        if nd == 2:
            data = dict(nodes=nodes, cons=cons, elements=elements, mats=mats,
                        loads=loads)
            full = solids_auto(data, plot_contours=False,
                               compute_strains=False)
            judge(ctx, full, want, react, nodes, cons, K, f, nd,
                  "solids_auto", tol)
            if np.max(elements[:, 1]) <= 4:
                full, E, S = solids_auto(data, plot_contours=False,
                                         compute_strains=True)
                judge(ctx, full, want, react, nodes, cons, K, f, nd,
                      "solids_auto with strains", tol)
        ctx.outcome(full)
    return run


def scales(deep):
    """Materials, sizes and loads of very different magnitude"""
    def run(ctx):
        name = ctx.choose("model", NAMES)
        mod = ctx.choose("modulus", [1e-6, 1.0, 2e11])
        size = ctx.choose("size", [1e-4, 1.0, 1e4])
        load = ctx.choose("load", [1e-7, 1.0, 1e8])
        pts, conn, et, nd, mats = case(name)
        ctx.require(nd == 2 or size == 1.0)
        mats = mats.copy()
        mats[:, 0] *= mod
        nodes, elements = models.tables(pts*size, conn, et, 0)
        cons = np.zeros((len(pts), nd), dtype=int)
        low = np.argsort(pts[:, 1], kind="stable")[:2]
        cons[low] = -1
        if name in ("beam", "mixed frame"):
            cons[:] = 0
            cons[0] = cons[-1] = -1
            cons[:, 0] = -1
        loads = np.array([[n, load, -2*load, 3*load][:nd + 1]
                          for n in range(len(pts))])
        want, react, K, M = ref.solve(nodes, cons, elements, mats, loads, nd)
        ctx.visit(name, mod, size, load)
        f = ref.load_vector(len(pts), loads, nd)
        for sparse in (True, False):
            full, _ = models.pipeline(ass, sol, pos, nodes, cons, elements,
                                      mats, loads, nd, sparse)
            ctx.close(full, want, "displacements", tol=1e-8, sparse=sparse)
            ctx.check(np.all(full[cons == -1] == 0), "restrained DOF moves")
        if nd == 2:
            data = dict(nodes=nodes, cons=cons, elements=elements, mats=mats,
                        loads=loads)
            full = solids_auto(data, plot_contours=False,
                               compute_strains=bool(np.max(et) <= 4))
            full = full[0] if isinstance(full, tuple) else full
            ctx.close(full, want, "displacements (solids_auto)", tol=1e-8)
    return run


def forms(ctx):
    """Whole numbers, wide tables, memory layouts, vanishing and tiny
    loads"""
    name = ctx.choose("model", NAMES)
    form = ctx.choose("tables", ["plain", "whole numbers", "wide nodes",
                                 "Fortran", "view", "read-only",
                                 "one material row", "many materials"])
    kind = ctx.choose("loads", ["none", "zeros", "tiny", "huge", "whole",
                                "one component", "on supports only"])
    sup = ctx.choose("supports", ["first two", "first and last", "mixed"])
    pts, conn, et, nd, mats = case(name)
    if form == "whole numbers":
        pts = np.round(4*pts)
    nodes, elements = models.tables(pts, conn, et, [k % 2 for k in
                                                    range(len(conn))])
    mats = mats.copy()
    if form == "one material row":
        elements[:, 2] = 0
        mats = mats[:1]
    elif form == "many materials":
        mats = np.vstack([mats*(1 + .1*k) for k in range(9)])
        elements[:, 2] = [(7*k + 16) % 18 for k in range(len(conn))]
    n = len(pts)
    cons = np.zeros((n, nd), dtype=int)
    cons[0] = -1
    other = 1 if sup == "first two" else n - 1
    cons[other] = -1
    if sup == "mixed":
        cons[other] = [0, -1, -1][:nd]
        cons[1, 0] = -1
    if name in ("beam", "mixed frame"):
        cons[1] = [0, -1 if sup == "mixed" else 0, 0]
        cons[:, 0] = -1
        cons[-1] = -1
    loads = np.array([[k] + [2. - k, 1. + 3*k, .5*k][:nd] for k in range(n)])
    if kind == "none":
        loads = np.zeros((0, nd + 1))
    elif kind == "one component":
        loads[:, 1] = 0
        loads[:, 3:] = 0
    elif kind == "on supports only":
        loads = loads[:1]
    elif kind == "whole":
        loads = np.round(2*loads).astype(int)
        loads[:, 0] = np.arange(n)
    else:
        loads[:, 1:] *= {"zeros": 0., "tiny": 1e-12, "huge": 1e12}[kind]
    K = ref.full_matrices(nodes, elements, mats, nd)[0]
    free = np.flatnonzero(cons.ravel() == 0)
    kff = K[np.ix_(free, free)]
    d = np.sqrt(np.abs(np.diag(kff)))
    ctx.require(np.all(d > 0) and
                np.linalg.eigvalsh(kff/np.outer(d, d))[0] > 1e-6)
    want, _, _, _ = ref.solve(nodes, cons, elements, mats, loads, nd)

    def lay(x):
        if form == "Fortran":
            return np.asfortranarray(x)
        if form == "view":
            big = np.full((2*len(x), x.shape[1] + 2), 5, dtype=x.dtype)
            big[::2, 1:-1] = x
            return big[::2, 1:-1]
        x = x.copy()
        if form == "read-only":
            x.flags.writeable = False
        return x
    if form == "whole numbers":
        nodes = nodes.astype(int)
    given = [lay(x) for x in (nodes, cons, elements, mats, loads)]
    keep = [x.copy() for x in given]
    ctx.visit(name, form, kind, sup)
    for sparse in (True, False):
        if form == "wide nodes":
            wide = np.column_stack([nodes, cons])
            op, bc, neq = ass.DME(wide[:, 3:].astype(int), elements,
                                  ndof_node=nd)
            k, _ = ass.assembler(elements, mats, wide[:, :3], neq, op,
                                 sparse=sparse)
            u = sol.static_sol(k, ass.loadasem(loads, bc, neq,
                                               ndof_node=nd))
            full = pos.complete_disp(bc, wide, u, ndof_node=nd)
        else:
            full, _ = models.pipeline(ass, sol, pos, *given, nd, sparse)
        ctx.close(full, want, "displacements", tol=1e-8, sparse=sparse)
        ctx.check(np.all(np.asarray(full)[cons == -1] == 0),
                  "restrained DOF moves")
        ctx.check(np.shape(full) == (n, nd), "shape", got=np.shape(full))
    if nd == 2 and form != "wide nodes":
        data = dict(zip(("nodes", "cons", "elements", "mats", "loads"),
                        given))
        full = solids_auto(data, plot_contours=False)
        ctx.close(full, want, "displacements (solids_auto)", tol=1e-8)
    for a, b in zip(given, keep):
        ctx.same(a, b, "a table was modified")


def meshes(sizes):
    """Cantilevers with more equations"""
    def run(ctx):
        kind = ctx.choose("element", ["quad4", "tri3", "tri6", "quad9"])
        nx, ny = ctx.choose("mesh", sizes)
        side = ctx.choose("clamped side", [0, 1, 2, 3])
        ctx.require(side < 2 or (nx, ny) != sizes[-1])
        pts, conn = models.grid(kind, nx, ny, float(nx)/ny, 1.0)
        pts = models.smooth(pts, .05)
        et = models.ETYPE[kind]
        nodes, elements = models.tables(pts, conn, et,
                                        [k % 2 for k in range(len(conn))])
        ref_pts, _ = models.grid(kind, nx, ny, float(nx)/ny, 1.0)
        edge = [ref_pts[:, 0] == 0, ref_pts[:, 1] == 0,
                ref_pts[:, 0] == ref_pts[:, 0].max(),
                ref_pts[:, 1] == 1][side]
        cons = np.zeros((len(pts), 2), dtype=int)
        cons[edge] = -1
        loads = np.column_stack([np.arange(len(pts)),
                                 np.cos(np.arange(len(pts))),
                                 np.sin(3.*np.arange(len(pts)))])
        want, react, K, M = ref.solve(nodes, cons, elements, CONT, loads)
        full, _ = models.pipeline(ass, sol, pos, nodes, cons, elements, CONT,
                                  loads)
        ctx.visit(kind, nx, ny, side)
        ctx.close(full, want, "displacements", tol=1e-8)
        data = dict(nodes=nodes, cons=cons, elements=elements, mats=CONT,
                    loads=loads)
        full = solids_auto(data, plot_contours=False)
        ctx.close(full, want, "displacements (solids_auto)", tol=1e-8)
        ctx.count("largest_system", 0)
    return run


def big(sizes):
    """Thousands of elements of a few shapes: the matrices of the reference
    are computed once for each shape and material"""
    def run(ctx):
        kind, nx, ny = ctx.choose("mesh", sizes)
        fixed = ctx.choose("supports", ["side", "side and some", "corners"])
        entry = ctx.choose("entry", ["auto", "steps"])
        pts, conn = models.grid(kind, nx, ny, 1., 1.)
        ints = np.round(pts*[2*nx, 2*ny]).astype(int)
        base = np.array([[1.25, .2], [-.1, .8]])
        pts = pts @ base
        nodes, elements = models.tables(pts, conn, models.ETYPE[kind],
                                        [k % 2 for k in range(len(conn))])
        cons = np.zeros((len(pts), 2), dtype=int)
        side = ints[:, 0] == 0
        if fixed == "corners":
            cons[np.argmin(ints @ [1, 1])] = -1
            cons[np.argmax(ints @ [1, -1])] = -1
            cons[np.argmax(ints @ [1, 1]), 0] = -1
        else:
            cons[side] = -1
        if fixed == "side and some":
            cons[7::11, 0] = -1
        v = np.arange(len(pts))
        loads = np.column_stack([v, np.cos(v), np.sin(3.*v)])
        known, rows, cols, vals = {}, [], [], []
        for k, c in enumerate(conn):
            key = tuple((ints[c] - ints[c[0]]).ravel()), k % 2
            if key not in known:
                known[key] = ref.element(models.ETYPE[kind], pts[c],
                                         CONT[k % 2])[0]
            dof = np.add.outer(2*np.array(c), [0, 1]).ravel()
            rows.append(np.repeat(dof, len(dof)))
            cols.append(np.tile(dof, len(dof)))
            vals.append(known[key].ravel())
        K = csr_matrix((np.concatenate(vals), (np.concatenate(rows),
                                               np.concatenate(cols))),
                       shape=(2*len(pts), 2*len(pts)))
        free = np.flatnonzero(cons.ravel() == 0)
        want = np.zeros(2*len(pts))
        want[free] = spsolve(K[free][:, free].tocsc(),
                             loads[:, 1:].ravel()[free])
        want = want.reshape(-1, 2)
        ctx.visit(kind, nx, ny, fixed, entry)
        if entry == "auto":
            full, E, S = solids_auto(dict(
                nodes=nodes, cons=cons, elements=elements, mats=CONT,
                loads=loads), plot_contours=False, compute_strains=True)
            Er, Sr = ref.nodal_fields(nodes, elements, CONT, want)
            ctx.close(E, Er, "strains", tol=1e-8)
            ctx.close(S, Sr, "stresses", tol=1e-8)
        else:
            full, _ = models.pipeline(ass, sol, pos, nodes, cons, elements,
                                      CONT, loads)
        ctx.close(full, want, "displacements", tol=1e-9)
        ctx.check(not np.any(full[cons != 0]), "restrained components")
    return run


def solver(n, entries):
    def run(ctx):
        vals = [ctx.choose("a%d%d" % (i, j), entries)
                for i in range(n) for j in range(n)]
        A = np.array(vals, dtype=float).reshape(n, n)
        ctx.require(abs(np.linalg.det(A)) > .5)
        ctx.visit(A)
        for k, b in enumerate((np.arange(1., n + 1), np.eye(n)[0])):
            for name, mat in (("dense", A.copy()), ("csr", csr_matrix(A))):
                rhs = b.copy()
                x = sol.static_sol(mat, rhs)
                ctx.check(np.shape(x) == (n,), "shape", got=np.shape(x))
                ctx.close(A @ x, b, "solution of the system", tol=1e-9,
                          scale=10, matrix=A, scheme=name)
                ctx.same(rhs, b, "right-hand side was modified")
                ctx.close(mat, A, "matrix was modified", tol=0, scale=0)
        ctx.outcome(A)
    return run


def systems(sizes):
    def run(ctx):
        n = ctx.choose("equations", sizes)
        kind = ctx.choose("matrix", ["laplace", "unsymmetric", "diagonal",
                                     "indefinite"])
        scheme = ctx.choose("scheme", ["dense", "csr"])
        ctx.require(scheme == "csr" or n <= 1500)
        scale = ctx.choose("scale", [1e-9, 1.0, 1e12])
        main = {"laplace": 2.5, "unsymmetric": 3.0, "diagonal": 1.0,
                "indefinite": 3.0}[kind]*np.ones(n)
        if kind == "indefinite":
            main[::2] *= -1
        lo = 0 if kind == "diagonal" else -1.0
        up = {"laplace": -1.0, "unsymmetric": .7, "diagonal": 0,
              "indefinite": -1.0}[kind]
        from scipy.sparse import diags
        A = (scale*diags([lo*np.ones(n - 1), main, up*np.ones(n - 1)],
                         [-1, 0, 1])).tocsr()
        b = np.cos(np.arange(n))
        x = sol.static_sol(A.toarray() if scheme == "dense" else A, b)
        ctx.visit(n, kind, scheme, scale)
        ctx.close(A @ x, b, "solution of the system", tol=1e-9)
    return run


def several(ctx):
    """Right-hand sides in several columns, of other types or layouts"""
    n = ctx.choose("equations", [1, 2, 3, 7, 40])
    scheme = ctx.choose("scheme", ["dense", "csr"])
    cols = ctx.choose("columns", [None, 1, 2, 3, 7])
    form = ctx.choose("numbers", ["float", "int", "complex", "view",
                                  "Fortran", "read-only"])
    kind = ctx.choose("matrix", ["float", "int", "complex", "Fortran",
                                 "read-only"])
    ctx.require(scheme == "dense" or kind in ("float", "int", "complex"))
    i, j = np.indices((n, n))
    A = np.where(i == j, 4, 0) + np.where(abs(i - j) == 1, -1, 0) \
        + np.where(i == j + 2, 1, 0)
    A = {"int": A, "complex": A*(1 + .5j) - .25j*A.T}.get(
        kind, A.astype(float))
    A = np.asfortranarray(A) if kind == "Fortran" else A
    shape = (n,) if cols is None else (n, cols)
    b = np.round(9*np.cos(np.arange(np.prod(shape)) + 1.)).reshape(shape)
    if form == "int":
        b = b.astype(int)
    elif form == "complex":
        b = b*(1 - 2j) + 1j
    elif form == "view":
        big = np.zeros(tuple(2*m for m in shape))
        big[tuple(slice(None, None, 2) for _ in shape)] = b
        b = big[tuple(slice(None, None, 2) for _ in shape)]
    elif form == "Fortran":
        b = np.asfortranarray(b)
    b.flags.writeable = form != "read-only"
    A.flags.writeable = kind != "read-only"
    keep = b.copy()
    mat = csr_matrix(A) if scheme == "csr" else A
    x = sol.static_sol(mat, b)
    ctx.visit(n, scheme, cols, form, kind)
    ctx.check(np.shape(x) == shape or (cols == 1 and np.shape(x) == (n,)),
              "shape", got=np.shape(x), want=shape)
    x = np.asarray(x.toarray() if hasattr(x, "toarray") else x)
    ctx.close(A @ x.reshape(shape), b, "solution of the system", tol=1e-9)
    ctx.same(b, keep, "right-hand side was modified")


def scaled(ctx):
    """Systems whose equations have very different units: the solution is
    known, each component to its own precision"""
    n = ctx.choose("equations", [2, 3, 8])
    rows = ctx.choose("units of the equations", [0, 4, 9])
    cols = ctx.choose("units of the unknowns", [0, 4, 9])
    kind = ctx.choose("matrix", ["diagonal", "triangular", "full"])
    scheme = ctx.choose("scheme", ["dense", "csr"])
    A = np.eye(n)*2.
    if kind != "diagonal":
        A[np.tril_indices(n, -1)] = 1/n
    if kind == "full":
        A[np.triu_indices(n, 1)] = -.5/n
    dr = 10.**(rows*(np.arange(n) % 3 - 1))
    dc = 10.**(cols*((np.arange(n) + 1) % 3 - 1))
    B = dr[:, None]*A*dc
    y = 1. + np.arange(n) % 3
    b = dr*(A @ y)
    ctx.visit(n, rows, cols, kind, scheme)
    x = sol.static_sol(B if scheme == "dense" else csr_matrix(B), b)
    ctx.close(x*dc, y, "solution", tol=1e-6 if kind == "full" else 1e-9)


def completion(ctx):
    """complete_disp puts every solution component in its place"""
    nn, nd = ctx.choose("nodes x dofs", [(1, 2), (2, 2), (3, 2), (4, 1),
                                         (2, 3), (1, 6)])
    bits = ctx.choose("restrained", 2**(nn*nd))
    flat = [-1 if bits >> k & 1 else 0 for k in range(nn*nd)]
    order = ctx.choose("numbering", ["forward", "backward"])
    ids = [k for k, c in enumerate(flat) if c == 0]
    vals = {}
    bc = np.full(nn*nd, -1)
    for eq, k in enumerate(ids if order == "forward" else ids[::-1]):
        bc[k] = eq
        vals[k] = (-1.5)**(k + 1) + .1
    x = np.zeros(len(ids))
    for k in ids:
        x[bc[k]] = vals[k]
    want = np.array([vals.get(k, 0.0) for k in range(nn*nd)])
    ctx.visit(nn, nd, bits, order)
    keep = x.copy()
    got = pos.complete_disp(bc.reshape(nn, nd), np.zeros((nn, 3)), x,
                            ndof_node=nd)
    ctx.same(got, want.reshape(nn, nd), "completed displacements")
    ctx.same(x, keep, "solution was modified")
    ctx.check(not np.shares_memory(got, x), "aliases the solution")
    if nd == 2:
        ctx.same(pos.complete_disp(bc.reshape(nn, nd), np.zeros((nn, 3)), x),
                 want.reshape(nn, nd), "two DOFs per node is the default")


def harnesses(tier):
    deep = tier == "thorough"
    kinds = ["all", "one", "repeated"]
    return [
        Harness("solver-2", solver(2, [-3, -1, 0, 1, 2]),
                "all invertible 2x2 matrices over {-3,-1,0,1,2}"),
        Harness("solver-3", solver(3, [-1, 0, 1, 2] if deep else [-1, 0, 1]),
                "all invertible 3x3 matrices over {-1,0,1}"),
        Harness("systems", systems([1, 5, 400, 1200, 5000] + (
            [20000, 100000] if deep else [])), "banded systems"),
        Harness("several", several, "5 sizes x 2 schemes x 5 numbers of "
                "columns x 6 forms of them x 5 forms of the matrix"),
        Harness("scaled", scaled, "systems whose rows and columns differ by "
                "up to 18 orders of magnitude"),
        Harness("completion", completion, "all restraint patterns"),
        Harness("solutions", solutions(deep, NAMES, kinds),
                "11 models x all stable restraint patterns (many DOFs: all "
                "with 3 restrained or 1-2 free) x 3 load lists"),
        Harness("scales", scales(deep), "moduli, sizes and loads over many "
                                        "orders of magnitude"),
        Harness("forms", forms, "11 models x 8 forms of the tables x 7 "
                "kinds of loads x 3 supports"),
        Harness("meshes", meshes([(2, 1), (3, 3), (6, 4), (9, 5)] + (
            [(16, 8)] if deep else [])), "cantilevers"),
        Harness("big", big([("quad4", 40, 35), ("tri3", 45, 30),
                            ("tri6", 25, 16), ("quad9", 20, 20),
                            ("quad4", 64, 60), ("tri3", 130, 9)] + (
            [("quad4", 110, 100), ("quad9", 40, 40)] if deep else [])),
                "meshes of thousands of elements"),
    ]
