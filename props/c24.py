"""C24: principal values and directions"""
from itertools import product

import numpy as np

import solidspy.postprocesor as pos
from mc.core import Harness

TITLE = "Principal values and directions diagonalise the tensor"
STATEMENT = (
    "For every symmetric 2x2 tensor, of any magnitude, the two values "
    "returned are its eigenvalues ordered by decreasing magnitude and each "
    "direction is a unit eigenvector of its own value, orthogonal to the "
    "other. The values do not change when the axes are rotated, null tensors "
    "give zero values without an error, and the routine for fields gives for "
    "each row what the routine for one tensor gives.")
QUANTIFIER = dict(
    over=["inputs"],
    text="all tensors over a set of component values (signs, zeros, nearly "
         "diagonal, nearly isotropic), magnitudes over many orders, "
         "rotations, orders of the rows of a field")
WHY = ("The doctest has one tensor; wrong pairing or ordering only appears "
       "for some signs and magnitudes of the components.")
ANCHORS = dict(
    files=["solidspy/postprocesor.py"],
    mechanism=[dict(name="eigvals, principal_dirs",
                    where="postprocesor.py")],
    observe_at=["eigvals()", "principal_dirs()"])
TECHNIQUE = ("explicit-state enumeration of tensors against the defining "
             "equations of the eigenproblem")
LEVEL_NOTE = ("Exhaustive over the stated components. The documented "
              "tolerance (off-diagonals below it relative to the largest "
              "component are neglected) bounds the accuracy required.")


def judge(ctx, A, res, tol=1e-6):
    A = np.array(A, dtype=float)
    e1, e2, v1, v2 = res
    size = np.abs(A).max()
    if size == 0:
        ctx.check(e1 == 0 and e2 == 0, "null tensor", got=(e1, e2))
        ctx.check(np.shape(v1) == (2,) and np.shape(v2) == (2,), "shape")
        return
    acc = 1e-9*size
    if abs(A[0, 1]) < tol*size:
        acc = 2*tol*size
    want = np.linalg.eigvalsh(A)
    want = want[np.argsort(-np.abs(want), kind="stable")]
    ctx.check(abs(e1) >= abs(e2) - 1e-12*size, "order of the values",
              got=(e1, e2))
    ctx.close(sorted([e1, e2]), np.sort(want), "eigenvalues", tol=1,
              scale=acc)
    for e, v in ((e1, v1), (e2, v2)):
        v = np.asarray(v, dtype=float)
        ctx.check(v.shape == (2,), "shape of the direction", got=v.shape)
        ctx.close(v @ v, 1.0, "unit direction", tol=1e-9)
        ctx.close(A @ v, e*v, "direction of the value", tol=1,
                  scale=4*acc, tensor=A, value=e, direction=v)
    ctx.close(np.dot(v1, v2), 0.0, "orthogonal directions", tol=1e-9,
              scale=1.0)


VALS = [0., 1., -1., 2., -3., .5, 1e-3, -1e-3, 1e-5, -2e-6, 1e-9, 1 + 1e-5,
        7., -100.]


def tensors(vals, scales):
    def run(ctx):
        a = ctx.choose("xx", vals)
        b = ctx.choose("yy", vals)
        c = ctx.choose("xy", vals)
        s = ctx.choose("scale", scales)
        A = s*np.array([[a, c], [c, b]])
        # relative thresholds must not be hit exactly
        size = np.abs(A).max()
        ctx.require(not size or abs(abs(A[0, 1])/size/1e-6 - 1) > 1e-3)
        keep = A.copy()
        res = pos.eigvals(A)
        ctx.visit(a, b, c, s)
        judge(ctx, A, res)
        ctx.same(A, keep, "tensor was modified")
        e1, e2, v1, v2 = pos.principal_dirs(np.array([[A[0, 0], A[1, 1],
                                                       A[0, 1]]]))
        ctx.same(e1, [res[0]], "field of one tensor")
        ctx.same(e2, [res[1]], "field of one tensor")
        if size:
            ctx.same(v1, [res[2]], "field of one tensor")
            ctx.same(v2, [res[3]], "field of one tensor")
        ctx.outcome(res[0], res[1])
    return run


def invariance(ctx):
    p, q = ctx.choose("principal values", [
        (p, q) for p, q in product([5., 1., -1., -2., 0., 4.999, 1e-4, 300.],
                                   repeat=2) if p or q])
    ang = ctx.choose("angle", range(49))
    s = ctx.choose("scale", [1.0, 1e8, 1e-3, 1e-9])
    th = ang*np.pi/24 + .011
    c, n = np.cos(th), np.sin(th)
    Q = np.array([[c, -n], [n, c]])
    A = s*(Q @ np.diag([p, q]) @ Q.T)
    A = (A + A.T)/2
    res = pos.eigvals(A)
    ctx.visit(p, q, ang, s)
    judge(ctx, A, res)
    big = max(abs(p), abs(q))*s
    ctx.close(sorted(res[:2]), sorted([p*s, q*s]), "principal values",
              tol=1e-6, scale=big)
    if abs(abs(p) - abs(q)) > .5:
        first = Q[:, 0] if abs(p) > abs(q) else Q[:, 1]
        ctx.close(abs(np.dot(res[2], first)), 1.0, "first direction",
                  tol=1e-5)


def types(ctx):
    a, b, c = (ctx.choose(k, [-2, 0, 1, 3]) for k in ("xx", "yy", "xy"))
    ctx.require(a or b or c)
    how = ctx.choose("type", ["int", "float32", "Fortran", "tol"])
    A = np.array([[a, c], [c, b]])
    if how == "float32":
        A = A.astype(np.float32)
    elif how == "Fortran":
        A = np.asfortranarray(A.astype(float))
    ctx.visit(a, b, c, how)
    if how == "tol":
        tol = ctx.choose("tolerance", [1e-12, 1e-9, 1e-3])
        small = A*1e-7
        res = pos.eigvals(small, tol)
        res2 = pos.eigvals(small, tol=tol)
        ctx.same(res[0], res2[0], "tolerance by position or keyword")
        judge(ctx, small, res, tol)
    else:
        res = pos.eigvals(A)
        e1, e2, v1, v2 = res
        scale = np.abs(A).max()
        A = A.astype(float)
        tol = 1e-5 if how == "float32" else 1e-10
        ctx.close(A @ v1, e1*np.asarray(v1), "first", tol=tol, scale=scale)
        ctx.close(A @ v2, e2*np.asarray(v2), "second", tol=tol, scale=scale)


ROWS = [[5., 9., 6.], [9., 5., 6.], [0., 0., 0.], [1., -4., 0.],
        [-4., 1., 0.], [2., 2., 0.], [0., 0., -3.], [1e6, 2e6, -5e5],
        [3., 3., 1.]]


def fields(depth):
    def run(ctx):
        rows = [ctx.choose("row %d" % k, ROWS) for k in range(depth)]
        field = np.array(rows)
        keep = field.copy()
        ctx.visit(rows)
        e1, e2, v1, v2 = pos.principal_dirs(field)
        ctx.check(e1.shape == e2.shape == (depth,) and
                  v1.shape == v2.shape == (depth, 2), "shapes")
        ctx.same(field, keep, "field was modified")
        for k, r in enumerate(rows):
            judge(ctx, [[r[0], r[2]], [r[2], r[1]]],
                  (e1[k], e2[k], v1[k], v2[k]))
    return run


def long_field(ctx):
    n = ctx.choose("rows", [1, 2, 15, 100, 3000])
    s = ctx.choose("scale", [1e-2, 1., 1e9, 1e-7, 1e-11])
    how = ctx.choose("array", ["C", "Fortran", "view", "int", "read only"])
    k = np.arange(n)
    field = s*np.column_stack([np.sin(k), np.cos(2.*k), np.sin(5.*k)])
    if how == "Fortran":
        field = np.asfortranarray(field)
    elif how == "view":
        field = np.repeat(field, 2, axis=0)[::2]
    elif how == "int":
        field = np.round(field*10).astype(int)
    elif how == "read only":
        field.setflags(write=False)
    e1, e2, v1, v2 = pos.principal_dirs(field)
    ctx.visit(n, s, how)
    for q in range(n):
        r = field[q]
        judge(ctx, [[r[0], r[2]], [r[2], r[1]]], (e1[q], e2[q], v1[q],
                                                  v2[q]))


def harnesses(tier):
    deep = tier == "thorough"
    vals = VALS + ([3e-4, -.5, 11., 1e4, -1 - 1e-9, 2.5e-6, -7.] if deep
                   else [])
    scales = [1.0, 1e-4, 1e9, 1e-8, 1e-15] + ([3e5, 40., 1e-30, 1e40] if deep else [])
    return [
        Harness("tensors", tensors(vals, scales),
                "all tensors over %d component values x %d scales" %
                (len(vals), len(scales))),
        Harness("invariance", invariance, "principal values x 49 angles"),
        Harness("types", types, "integers, single precision, tolerances"),
        Harness("fields", fields(5 if deep else 4),
                "all fields of %d rows over 9 tensors" % (5 if deep else 4)),
        Harness("long", long_field, "long fields"),
    ]
