"""Small models shared by the harnesses (built without the code under test)"""
import numpy as np

ETYPE = {"quad4": 1, "tri6": 2, "tri3": 3, "quad9": 4}
# corner loops, used by boundaries and areas
CORNERS = {"quad4": 4, "quad9": 4, "quad8": 4, "tri3": 3, "tri6": 3}


def grid(kind, nx, ny, lx=1.0, ly=1.0, x0=0.0, y0=0.0, flip=False):
    """Structured mesh: coordinates (n, 2) and connectivity (list of rows).
    Counterclockwise elements."""
    quad = kind in ("quad9", "tri6", "quad8")
    m = 2 if quad else 1
    X = np.linspace(x0, x0 + lx, m*nx + 1)
    Y = np.linspace(y0, y0 + ly, m*ny + 1)
    num = {}
    pts = []

    def node(i, j):
        if (i, j) not in num:
            num[i, j] = None
        return (i, j)
    conn = []
    for b in range(ny):
        for a in range(nx):
            i, j = m*a, m*b
            if kind == "quad4":
                cell = [[(i, j), (i+1, j), (i+1, j+1), (i, j+1)]]
            elif kind == "tri3":
                p, q, r, s = (i, j), (i+1, j), (i+1, j+1), (i, j+1)
                if (a + b + flip) % 2:
                    cell = [[p, q, s], [q, r, s]]
                else:
                    cell = [[p, q, r], [p, r, s]]
            elif kind in ("quad9", "quad8"):
                cell = [[(i, j), (i+2, j), (i+2, j+2), (i, j+2), (i+1, j),
                         (i+2, j+1), (i+1, j+2), (i, j+1), (i+1, j+1)]]
                if kind == "quad8":
                    cell = [cell[0][:8]]
            else:
                p, q, r, s = (i, j), (i+2, j), (i+2, j+2), (i, j+2)

                def mid(u, v):
                    return ((u[0] + v[0])//2, (u[1] + v[1])//2)
                if (a + b + flip) % 2:
                    tris = [(p, q, s), (q, r, s)]
                else:
                    tris = [(p, q, r), (p, r, s)]
                cell = [[u, v, w, mid(u, v), mid(v, w), mid(w, u)]
                        for u, v, w in tris]
            conn += cell
    used = sorted({p for c in conn for p in c}, key=lambda t: (t[1], t[0]))
    num = {p: k for k, p in enumerate(used)}
    pts = np.array([[X[i], Y[j]] for i, j in used])
    return pts, [[num[p] for p in c] for c in conn]


def tables(coords, conn, etype, mat=0):
    """nodes (n, 3) and elements tables in the format of the package"""
    coords = np.asarray(coords, dtype=float)
    nodes = np.column_stack([np.arange(len(coords)), coords])
    mat = mat if np.iterable(mat) else [mat]*len(conn)
    etype = etype if np.iterable(etype) else [etype]*len(conn)
    elements = np.array([[k, e, m] + list(c) for k, (e, m, c) in
                         enumerate(zip(etype, mat, conn))], dtype=int)
    return nodes, elements


def smooth(coords, amount=0.1):
    """A smooth non-affine map that keeps small meshes regular"""
    c = np.asarray(coords, dtype=float)
    x, y = c[:, 0], c[:, 1]
    return np.column_stack([x + amount*(0.7*x*y - 0.3*y*y),
                            y + amount*(0.5*x*x + 0.4*x*y)])


def rot(c, s):
    return np.array([[c, -s], [s, c]], dtype=float)


# rotations with rational sine and cosine
ROTATIONS = [rot(1, 0), rot(0, 1), rot(-1, 0), rot(0, -1), rot(.6, .8),
             rot(-.6, .8), rot(-.8, -.6), rot(5/13, -12/13)]


def truss_square():
    """Statically indeterminate truss: unit square with both diagonals"""
    coords = np.array([[0, 0], [1, 0], [1, 1], [0, 1.]])
    conn = [[0, 1], [1, 2], [2, 3], [3, 0], [0, 2], [1, 3]]
    return coords, conn


def triangles(n):
    """Small truss tower"""
    coords = np.array([[k//2 + 0.5*(k % 2), float(k % 2)] for k in range(n)])
    conn = [[k, k + 1] for k in range(n - 1)]
    conn += [[k, k + 2] for k in range(n - 2)]
    return coords, conn


def portal():
    """Frame with a free corner and an inclined member"""
    coords = np.array([[0, 0], [0, 2.], [3., 2.], [4.5, 0]])
    conn = [[0, 1], [1, 2], [2, 3]]
    return coords, conn


def pipeline(ass, sol, pos, nodes, cons, elements, mats, loads, ndof=2,
             sparse=True):
    """The documented sequence of calls; returns displacements and system"""
    op, bc, neq = ass.DME(cons, elements, ndof_node=ndof)
    K, M = ass.assembler(elements, mats, nodes, neq, op, sparse=sparse)
    rhs = ass.loadasem(loads, bc, neq, ndof_node=ndof)
    u = sol.static_sol(K, rhs)
    full = pos.complete_disp(bc, nodes, u, ndof_node=ndof)
    return full, dict(K=K, M=M, rhs=rhs, u=u, bc=bc, op=op, neq=neq)


def edges_of(kind, c):
    if kind == "tri3":
        return [(c[0], c[1]), (c[1], c[2]), (c[2], c[0])]
    if kind == "quad4":
        return [(c[0], c[1]), (c[1], c[2]), (c[2], c[3]), (c[3], c[0])]
    if kind == "tri6":
        return [(c[0], c[3], c[1]), (c[1], c[4], c[2]), (c[2], c[5], c[0])]
    return [(c[0], c[4], c[1]), (c[1], c[5], c[2]), (c[2], c[6], c[3]),
            (c[3], c[7], c[0])]


def boundary(kind, conn):
    seen = {}
    for c in conn:
        for e in edges_of(kind, c):
            seen.setdefault(frozenset(e), []).append(e)
    return [v[0] for v in seen.values() if len(v) == 1]


def traction_loads(kind, pts, conn, stress):
    """Consistent nodal loads of the boundary tractions of a stress field
    stress(x, y) -> (sxx, syy, sxy)"""
    pts = np.asarray(pts, dtype=float)
    f = np.zeros((len(pts), 2))
    xg, wg = np.polynomial.legendre.leggauss(6)
    for e in boundary(kind, conn):
        P = pts[list(e)]
        for x, w in zip(xg, wg):
            if len(e) == 2:
                N = np.array([1 - x, 1 + x])/2
                dN = np.array([-1, 1])/2
            else:
                N = np.array([x*(x - 1)/2, 1 - x*x, x*(x + 1)/2])
                dN = np.array([x - .5, -2*x, x + .5])
            t = dN @ P               # tangent, counterclockwise
            n = np.array([t[1], -t[0]])
            sx, sy, sxy = stress(*(N @ P))
            T = np.array([sx*n[0] + sxy*n[1], sxy*n[0] + sy*n[1]])
            f[list(e)] += w*np.outer(N, T)
    return f


def straight(kind, corners, cells):
    """Mesh with given corner nodes and cells (rows of corner numbers);
    adds mid-side and centre nodes for the quadratic kinds"""
    pts = [tuple(map(float, p)) for p in corners]
    num = {}

    def mid(*ids):
        key = frozenset(ids)
        if key not in num:
            pts.append(tuple(np.mean([pts[i] for i in ids], axis=0)))
            num[key] = len(pts) - 1
        return num[key]
    conn = []
    for c in cells:
        c = list(c)
        row = list(c)
        if kind in ("tri6", "quad8", "quad9"):
            row += [mid(c[k], c[(k + 1) % len(c)]) for k in range(len(c))]
        if kind == "quad9":
            row.append(mid(*c))
        conn.append(row)
    return np.array(pts), conn
