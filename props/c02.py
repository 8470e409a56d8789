"""C02: global matrices are the scatter-sum of the element matrices"""
from itertools import permutations, product

import numpy as np
from scipy.sparse import csr_matrix

import solidspy.assemutil as ass
import solidspy.solutil as sol
from mc import models, ref
from mc.core import Harness

TITLE = "Global matrices are the sum of the element matrices, dense or sparse"
STATEMENT = (
    "For every mesh, material table, restraint pattern and element routine, "
    "each entry of the assembled stiffness and mass matrix is the sum, over "
    "the elements sharing both degrees of freedom, of the entries of the "
    "element matrices, and restrained degrees of freedom contribute nothing. "
    "Every element receives the coordinates of its own nodes and its own row "
    "of the material table, and its type selects the routine. Dense and "
    "sparse assembly give the same matrices.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="all connectivities, restraint patterns, material assignments, "
         "element types, user elements (also unsymmetric), 1-3 dimensions, "
         "both storage schemes")
WHY = ("Tests assemble a couple of regular meshes with one material; an "
       "error for shared nodes, second materials, unsymmetric elements, "
       "small values, many equations or only one of the storage schemes "
       "stays invisible.")
ANCHORS = dict(
    files=["solidspy/assemutil.py"],
    mechanism=[dict(name="retriever", where="assemutil.py"),
               dict(name="dense_assem", where="assemutil.py"),
               dict(name="sparse_assem", where="assemutil.py"),
               dict(name="ele_fun", where="assemutil.py")],
    observe_at=["assembler()", "dense_assem()", "sparse_assem()",
                "retriever()"])
TECHNIQUE = ("explicit-state enumeration of meshes, materials and restraints "
             "on the real code against a dictionary-based assembler")
LEVEL_NOTE = ("Exhaustive within the bounds; coded integer element matrices "
              "make every misplaced or missing contribution visible.")


def to_dense(mat):
    return mat.toarray() if hasattr(mat, "toarray") else np.asarray(mat)


def coded_uel(coord, params):
    """Unsymmetric integer matrices that identify the element (through its
    coordinates and its material) and the entry"""
    coord = np.asarray(coord)
    n = int(params[1])*len(coord)
    tag = float(np.sum((coord + 3)*np.arange(1, coord.size + 1).reshape(
        coord.shape)) + 17*params[0])
    i, j = np.indices((n, n))
    return (tag*(1000*i + j + 1.0), tag + 31.0*i*i - 7.0*j + 0.25)


def expected(nodes, cons, elements, mats, nd, bc, neq):
    K = np.zeros((neq, neq))
    M = np.zeros((neq, neq))
    for el in elements:
        conn = [int(c) for c in el[3:]]
        k, m = coded_uel(np.asarray(nodes)[conn][:, 1:], mats[int(el[2])])
        ids = [int(bc[c, d]) for c in conn for d in range(nd)]
        for a, ga in enumerate(ids):
            for b, gb in enumerate(ids):
                if ga >= 0 and gb >= 0:
                    K[ga, gb] += k[a, b]
                    M[ga, gb] += m[a, b]
    return K, M


COORD = np.array([[0, 1, 2.5], [4, -1, 0], [2, 7, -3], [5, 5, 11],
                  [-6, 2, 1]])


def coded(nnodes, nels, nnel, dims, masks, dense_dims=(2,)):
    def run(ctx):
        nd = ctx.choose("dofs per node", dims)
        dim = ctx.choose("dimensions", dense_dims)
        perms = list(permutations(range(nnodes), nnel))
        conns = [ctx.choose("connectivity %d" % k, perms)
                 for k in range(nels)]
        which = ctx.choose("materials", list(product(range(2), repeat=nels)))
        cons = np.zeros((nnodes, nd), dtype=int)
        opts = masks(nnodes*nd)
        bits = ctx.choose("restrained", opts)
        for k in range(nnodes*nd):
            if bits >> k & 1:
                cons[k//nd, k % nd] = -1
        nodes = np.column_stack([np.arange(nnodes), COORD[:nnodes, :dim]])
        mats = np.array([[2.0, nd, 5], [3.0, nd, 5]])
        elements = np.array([[k, 77 + k, w, *c] for k, (w, c) in
                             enumerate(zip(which, conns))])
        op, bc, neq = ass.DME(cons, elements, ndof_node=nd,
                              ndof_el=lambda t: nnel*nd)
        K, M = expected(nodes, cons, elements, mats, nd, bc, neq)
        ctx.visit(nd, dim, conns, which, bits)
        for name, args in (("default", {}), ("sparse", dict(sparse=True)),
                           ("dense", dict(sparse=False))):
            k, m = ass.assembler(elements, mats, nodes, neq, op,
                                 uel=coded_uel, **args)
            ctx.check(isinstance(k, np.ndarray) == (name == "dense"),
                      "storage scheme", scheme=name, type=type(k))
            ctx.close(to_dense(k), K, "stiffness, " + name, tol=1e-13)
            ctx.close(to_dense(m), M, "mass, " + name, tol=1e-13)
        ctx.outcome(K)
    return run


def all_masks(n):
    return range(2**n)


def some_masks(n):
    full = 2**n - 1
    out = {0} | {1 << k for k in range(n)} | {full ^ (1 << k)
                                             for k in range(n)}
    out |= {sum(1 << k for k in range(0, n, 2)),
            sum(1 << k for k in range(1, n, 2))}
    return sorted(out)


MATS = {1: [[1e3, .3, 2], [5e3, .2, 7], [2e3, 0, 1]],
        5: [[3., 9, 9], [5., 9, 9], [7, 9, 9]],
        6: [[2., 3, 4], [5, 1, 2], [1, 1, 9]],
        7: [[2., 3, 4, 5], [5, 1, 2, 1], [1, 1, 9, 4]],
        8: [[2., 3, 4, 5], [5, 1, 2, 1], [1, 1, 9, 4]]}


def mesh(et, size, bend=0.2):
    if et <= 4:
        kind = ref.NAMES[et]
        pts, conn = models.grid(kind, *size)
        return models.smooth(pts, bend) if bend else pts, conn
    if et <= 6:
        return models.triangles(3 + size[0])
    pts, conn = models.portal()
    return pts, conn


def builtin(sizes):
    def run(ctx):
        et = ctx.choose("element type", [1, 2, 3, 4, 5, 6, 7, 8])
        size = ctx.choose("size", sizes)
        assign = ctx.choose("materials", ["first", "last", "alternate",
                                          "only column 0", "only column 1",
                                          "only the last column"])
        # equal elements with almost equal materials
        only = assign.startswith("only")
        pts, conn = mesh(et, size, 0 if only else .2)
        mat = {"first": [0]*len(conn), "last": [2]*len(conn)}.get(
            assign, [k % 3 for k in range(len(conn))])
        order = ctx.choose("element order", ["as is", "reversed"])
        ids = ctx.choose("element ids", ["rows", "others"])
        etypes = [et]*len(conn)
        mix = ctx.choose("types", ["single", "mixed"])
        if mix == "mixed":
            ctx.require(et in (5, 7))
            etypes = [et + k % 2 for k in range(len(conn))]
        nodes, elements = models.tables(pts, conn, etypes, mat)
        if order == "reversed":
            elements = elements[::-1]
        if ids == "others":
            elements[:, 0] = 1000 - 3*np.arange(len(elements))
        nd = 3 if et >= 7 else 2
        mats = np.array(MATS[1 if et <= 4 else et], dtype=float)
        if only:
            col = {"0": 0, "1": 1, "n": -1}[assign[-1]]
            mats, own = mats[[1, 1, 1]], mats[:, col]
            mats[:, col] = own
        fix = ctx.choose("restraints", ["none", "node", "x of all"])
        cons = np.zeros((len(pts), nd), dtype=int)
        if fix == "node":
            cons[1] = -1
        elif fix == "x of all":
            cons[:, 0] = -1
        op, bc, neq = ass.DME(cons, elements, ndof_node=nd)
        K, M = ref.full_matrices(nodes, elements, mats, nd)
        where = np.zeros(neq, dtype=int)
        flat = np.asarray(bc).ravel()
        for k, eq in enumerate(flat):
            if eq >= 0:
                where[eq] = k
        K, M = K[np.ix_(where, where)], M[np.ix_(where, where)]
        ctx.visit(et, size, assign, order, ids, mix, fix)
        for sparse in (True, False):
            k, m = ass.assembler(elements, mats, nodes, neq, op,
                                 sparse=sparse)
            ctx.close(to_dense(k), K, "stiffness", sparse=sparse)
            ctx.close(to_dense(m), M, "mass", scale=max(np.abs(M).max(),
                                                        1e-30),
                      sparse=sparse)
        for ele in range(len(elements)):
            kl, ml = ass.retriever(elements, mats, nodes, ele)
            conn_e = elements[ele, 3:]
            kr, mr = ref.element(int(elements[ele, 1]),
                                 nodes[conn_e][:, 1:3],
                                 mats[elements[ele, 2]])
            ctx.close(kl, kr, "element stiffness", element=ele)
            ctx.close(ml, mr, "element mass", element=ele,
                      scale=max(np.abs(mr).max(), 1e-30))
        ctx.outcome(K)
    return run


def scale(ctx):
    """No entry is dropped, rounded or truncated because of its size"""
    big = ctx.choose("stiffness A", [1e-12, 1e-9, 1e-3, 1.0, 2.1e11, 1e15])
    small = ctx.choose("stiffness B", [1e-12, 1e-9, 1e-3, 1.0, 2.1e11, 1e15])
    conn = ctx.choose("meeting", ["chain", "parallel", "separate"])
    sparse = ctx.choose("sparse", [True, False])
    nodes = np.array([[0, 0., 0], [1, 1, 0], [2, 2, 0], [3, 3, 0]])
    b = {"chain": (1, 2), "parallel": (0, 1), "separate": (2, 3)}[conn]
    elements = np.array([[0, 55, 0, 0, 1], [1, 55, 1, *b]])
    mats = np.array([[big], [small]])
    cons = np.zeros((4, 1), dtype=int)

    def uel(coord, params):
        return (params[0]*np.array([[1., -1], [-1, 1]]),
                params[0]*np.array([[2., 1], [1, 2]])/7)
    op, bc, neq = ass.DME(cons, elements, ndof_node=1, ndof_el=lambda t: 2)
    k, m = ass.assembler(elements, mats, nodes, neq, op, sparse=sparse,
                         uel=uel)
    K = np.zeros((4, 4))
    M = np.zeros((4, 4))
    for el in elements:
        a, c = bc[el[3], 0], bc[el[4], 0]
        kl, ml = uel(None, mats[el[2]])
        for (i, gi), (j, gj) in product(enumerate((a, c)), repeat=2):
            K[gi, gj] += kl[i, j]
            M[gi, gj] += ml[i, j]
    ctx.visit(big, small, conn, sparse)
    k, m = to_dense(k), to_dense(m)
    ctx.check(k.dtype == float and m.dtype == float, "dtype",
              k=str(k.dtype), m=str(m.dtype))
    ctx.check(np.all(np.abs(k - K) <= 1e-14*np.abs(K)), "stiffness", got=k,
              want=K)
    ctx.check(np.all(np.abs(m - M) <= 1e-14*np.abs(M)), "mass", got=m,
              want=M)


def entries(ctx):
    """Element matrices with entries of very different magnitude: the sums
    are exact up to the rounding of each of them"""
    levels = [1e-14, 1e-9, 1e-5, 1., 1e6, 1e13]
    lev = [ctx.choose("magnitude %d" % k, levels) for k in range(3)]
    conn = ctx.choose("meeting", [((0, 1), (1, 2)), ((0, 1), (0, 1)),
                                  ((1, 0), (2, 0)), ((2, 1), (1, 2))])
    sparse = ctx.choose("sparse", [True, False])
    nodes = np.array([[0, 0., 0], [1, 1, 0], [2, 2, 0]])
    elements = np.array([[k, 55, k, *c] for k, c in enumerate(conn)])
    ke = np.array([[lev[0], lev[1], lev[2], 0],
                   [lev[1], lev[2], lev[0], lev[1]],
                   [lev[2], 0, lev[1], lev[0]],
                   [0, lev[0], lev[2], lev[1]]])*np.array(
                       [[1, 3, 7, 2], [5, 1, 9, 3], [2, 3, 1, 6],
                        [7, 5, 4, 1]])/3.
    me = ke[:, ::-1]/7

    def uel(coord, params):
        return params[0]*ke, params[0]*me
    mats = np.array([[1.], [.75]])
    op, bc, neq = ass.DME(np.zeros((3, 2), dtype=int), elements,
                          ndof_el=lambda t: 4)
    k, m = ass.assembler(elements, mats, nodes, neq, op, sparse=sparse,
                         uel=uel)
    ctx.visit(lev, conn, sparse)
    for got, one, label in ((k, ke, "stiffness"), (m, me, "mass")):
        want = np.zeros((6, 6))
        size = np.zeros((6, 6))
        for e, c in enumerate(conn):
            ids = [2*v + d for v in c for d in range(2)]
            for (a, i), (b, j) in product(enumerate(ids), repeat=2):
                want[i, j] += mats[e, 0]*one[a, b]
                size[i, j] += abs(mats[e, 0]*one[a, b])
        ctx.check(np.all(np.abs(to_dense(got) - want) <= 1e-14*size), label,
                  got=to_dense(got), want=want)


def numbers(ctx):
    """Large numbers of equations, nodes, materials and types in small
    tables"""
    top = ctx.choose("equations", [40, 200, 300, 40000, 70000, 200000])
    far = ctx.choose("node numbers from", [0, 200, 300, 40000, 70000])
    nmat = ctx.choose("materials", [3, 40, 300])
    nd = ctx.choose("dofs per node", [1, 2])
    dtype = ctx.choose("integers", ["int64", "int32"])
    sparse = ctx.choose("sparse", [True, False])
    ctx.require(sparse or top <= 300)
    conn = [(0, 1), (1, 2), (2, 0), (3, 1), (3, 2), (0, 1)]
    elements = np.array([[k, 55, (nmat - 1 - 37*k) % nmat, far + a, far + b]
                         for k, (a, b) in enumerate(conn)])
    nodes = np.column_stack([np.arange(far + 4), np.cos(np.arange(far + 4)),
                             np.arange(far + 4)*.5])
    mats = np.column_stack([np.arange(1., nmat + 1), np.full(nmat, nd)])
    eqs = np.array([[top - 1 - (top//4)*v - d for d in range(nd)]
                    for v in range(4)])
    eqs[1, 0] = -1
    op = np.zeros((len(conn), 18), dtype=int)
    for k, c in enumerate(conn):
        op[k, :2*nd] = eqs[list(c)].ravel()
    k, m = ass.assembler(elements.astype(dtype), mats, nodes, top,
                         op.astype(dtype), sparse=sparse, uel=coded_uel)
    ctx.visit(top, far, nmat, nd, dtype, sparse)
    K, M = {}, {}
    for e, c in enumerate(conn):
        ke, me = coded_uel(nodes[far + np.array(c), 1:],
                           mats[elements[e, 2]])
        for (a, i), (b, j) in product(enumerate(op[e, :2*nd]), repeat=2):
            if i >= 0 and j >= 0:
                K[i, j] = K.get((i, j), 0.) + ke[a, b]
                M[i, j] = M.get((i, j), 0.) + me[a, b]
    for got, want, label in ((k, K, "stiffness"), (m, M, "mass")):
        ctx.check(got.shape == (top, top), "shape of " + label)
        got = csr_matrix(got).tocoo()
        ctx.close(abs(got).sum(), sum(map(abs, want.values())),
                  "total of " + label, tol=1e-12)
        have = dict(zip(zip(got.row.tolist(), got.col.tolist()), got.data))
        for ij, v in want.items():
            ctx.close(have.get((int(ij[0]), int(ij[1])), 0.), v, label,
                      tol=1e-12, entry=ij)


def large(sizes):
    def run(ctx):
        n = ctx.choose("nodes", sizes)
        nd = ctx.choose("dofs per node", [1, 2] if n < 20000 else [1])
        sparse = ctx.choose("sparse", [True, False])
        ctx.require(sparse or n*nd <= 3000)
        ring = ctx.choose("mesh", ["chain", "star"])
        period = ctx.choose("restrained every", [0, 5])
        cons = np.zeros((n, nd), dtype=int)
        if period:
            cons[::period] = -1
        a = np.arange(n - 1) if ring == "chain" else np.zeros(n - 1, int)
        b = np.arange(1, n)
        elements = np.column_stack([np.arange(n - 1), np.full(n - 1, 55),
                                    np.arange(n - 1) % 7, a, b])
        nodes = np.column_stack([np.arange(n), np.arange(n)*0.5,
                                 np.zeros(n)])
        mats = np.arange(1., 8).reshape(-1, 1)
        ke = np.arange(1., (2*nd)**2 + 1).reshape(2*nd, 2*nd)/3

        def uel(coord, params):
            return params[0]*ke, params[0]*ke[::-1]
        op, bc, neq = ass.DME(cons, elements, ndof_node=nd,
                              ndof_el=lambda t: 2*nd)
        k, m = ass.assembler(elements, mats, nodes, neq, op, sparse=sparse,
                             uel=uel)
        ctx.visit(n, nd, sparse, ring, period)
        ids = bc[elements[:, 3:]].reshape(n - 1, 2*nd)
        rows = np.repeat(ids, 2*nd, axis=1).ravel()
        cols = np.tile(ids, (1, 2*nd)).ravel()
        fac = mats[elements[:, 2], 0]
        kv = (fac[:, None]*ke.ravel()).ravel()
        mv = (fac[:, None]*ke[::-1].ravel()).ravel()
        use = (rows >= 0) & (cols >= 0)
        K = csr_matrix((kv[use], (rows[use], cols[use])), shape=(neq, neq))
        M = csr_matrix((mv[use], (rows[use], cols[use])), shape=(neq, neq))
        for got, want, name in ((k, K, "stiffness"), (m, M, "mass")):
            ctx.check(got.shape == want.shape, "shape of " + name)
            diff = csr_matrix(got) - want
            err = abs(diff).max()
            ctx.check(err <= 1e-12*abs(want).max(), name, error=err)
    return run


def usable(ctx):
    """The assembled matrices are accepted by the solver"""
    sparse = ctx.choose("sparse", [True, False, 1, 0, np.True_, np.False_])
    et = ctx.choose("element type", [1, 2, 3, 4])
    kind = ref.NAMES[et]
    pts, conn = models.grid(kind, 2, 1)
    nodes, elements = models.tables(pts, conn, et)
    cons = np.zeros((len(pts), 2), dtype=int)
    cons[pts[:, 0] == 0] = -1
    op, bc, neq = ass.DME(cons, elements)
    k, m = ass.assembler(elements, np.array([[10., .25]]), nodes, neq, op,
                         sparse=sparse)
    rhs = np.cos(np.arange(neq))
    for mat in (k, m):
        ctx.check(isinstance(mat, np.ndarray) == (not sparse), "scheme",
                  got=type(mat))
        x = sol.static_sol(mat, rhs)
        ctx.close(to_dense(mat) @ x, rhs, "solution", tol=1e-7)
    ctx.visit(sparse, et)


SIGNS = [(1, 1), (1, -1), (-1, 1), (-1, -1), (0, 1), (1, 0), (0, 0)]


def forms(ctx):
    """Matrices of any sign and tables and element matrices of any kind of
    number: nothing is clipped, symmetrised or truncated"""
    sk, sm = ctx.choose("signs", SIGNS)
    table = ctx.choose("tables", ["float", "int", "int materials",
                                  "int nodes", "float32"])
    local = ctx.choose("element matrices", ["float", "int", "Fortran",
                                            "view", "read only", "float32"])
    nd = ctx.choose("dofs per node", [1, 2, 3])
    sparse = ctx.choose("sparse", [True, False])
    conn = ctx.choose("meeting", [((0, 1), (1, 2)), ((0, 1), (0, 1)),
                                  ((1, 0), (2, 0)), ((2, 1), (1, 0))])
    fix = ctx.choose("restrained", [None, 0, 2])
    n = 2*nd
    i, j = np.indices((n, n))
    base = sk*(3*i - 2*j + 1), sm*(i - 3*j + 2)
    if local not in ("int", "Fortran"):
        base = base[0] + 1/3., base[1] - 1/7.
    nodes = np.array([[0, 0, 0], [1, 4, 1], [2, 1, 5]])
    mats = np.array([[2, 1], [3, 4]])
    if table != "int":
        if table != "int materials":
            mats = mats.astype("float32" if table == "float32" else float)
        if table != "int nodes":
            nodes = nodes.astype("float32" if table == "float32" else float)
    one = [np.array(b) for b in base]
    if local == "Fortran":
        one = [np.asfortranarray(b.astype(float)) for b in one]
    elif local == "view":
        one = [np.repeat(b, 2, axis=1)[:, ::2] for b in one]
    elif local == "float32":
        one = [b.astype(np.float32) for b in one]

    def uel(coord, params):
        out = [b*params.dtype.type(params[0]) if local != "int"
               else b*int(params[0]) for b in one]
        if local == "Fortran":
            out = [np.asfortranarray(b) for b in out]
        elif local == "view":
            out = [np.repeat(b, 2, axis=1)[:, ::2] for b in out]
        elif local == "read only":
            for b in out:
                b.setflags(write=False)
        return tuple(out)
    elements = np.array([[k, 55, k, *c] for k, c in enumerate(conn)])
    cons = np.zeros((3, nd), dtype=int)
    if fix is not None:
        cons[fix] = -1
    op, bc, neq = ass.DME(cons, elements, ndof_node=nd,
                          ndof_el=lambda t: n)
    k, m = ass.assembler(elements, mats, nodes, neq, op, sparse=sparse,
                         uel=uel)
    ctx.visit(sk, sm, table, local, nd, sparse, conn, fix)
    for got, b, label in ((k, one[0], "stiffness"), (m, one[1], "mass")):
        want = np.zeros((3*nd, 3*nd))
        for e, c in enumerate(conn):
            ids = [nd*v + d for v in c for d in range(nd)]
            want[np.ix_(ids, ids)] += float(mats[e, 0])*b.astype(float)
        free = np.flatnonzero(cons.ravel() == 0)
        ctx.close(to_dense(got), want[np.ix_(free, free)], label, scale=100,
                  tol=1e-7 if "float32" in (table, local) else 1e-14)


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("coded-2x2", coded(3, 2, 2, (1, 2), all_masks, (1, 2, 3)),
                "all pairs of two-noded elements on 3 nodes, all materials, "
                "all restraint patterns, 1-2 dofs, 1-3 dimensions"),
        Harness("coded-3x2", coded(3 if not deep else 4, 3, 2, (1,),
                                   all_masks),
                "all triples of two-noded elements on %d nodes, 1 dof" % (
                    4 if deep else 3)),
        Harness("coded-2x3", coded(4, 2, 3, (1, 2, 3) if deep else (2,),
                                   some_masks),
                "all pairs of three-noded elements on 4 nodes"),
        Harness("coded-1x4", coded(5, 1, 4, (1, 2, 3), some_masks, (2, 3)),
                "all four-noded elements on 5 nodes"),
        Harness("builtin", builtin([(1, 1), (2, 1), (2, 2)] + (
            [(3, 2), (4, 3)] if deep else [])),
            "element types 1-8 and mixtures, several meshes, materials, "
            "orders, ids and restraints against the reference elements"),
        Harness("scale", scale, "pairs of stiffnesses from 1e-12 to 1e15"),
        Harness("large", large([2, 150, 600, 1100, 5000, 33000] + (
            [66000, 140000] if deep else [])),
            "chains and stars of springs"),
        Harness("entries", entries, "all triples of 6 magnitudes of the "
                "entries of an element"),
        Harness("numbers", numbers, "up to 200000 equations, node numbers up "
                "to 70000, 300 materials, in small tables"),
        Harness("forms", forms, "signs, kinds of number and layouts of the "
                "tables and of the element matrices"),
        Harness("usable", usable, "static_sol accepts both schemes"),
    ]
