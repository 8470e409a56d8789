"""C12: quadrature rules"""
from itertools import product
from math import factorial

import numpy as np

import solidspy.gaussutil as gau
from mc.core import Harness

TITLE = "Quadrature rules are exact up to their order on their domain"
STATEMENT = (
    "Every Gauss rule offered integrates exactly all the polynomials it "
    "should: n points per direction up to degree 2n-1 in each variable on "
    "the interval, square or cube, and the rules for triangles and "
    "tetrahedra up to their order, with weights that add up to the measure "
    "(one for the normalised simplex rules). All points lie inside of the "
    "domain, and the same request always gives the same rule.")
QUANTIFIER = dict(
    over=["inputs"],
    text="all rules offered (2-10 points in 1-4 dimensions, triangles of "
         "order 1-7, tetrahedra of order 1-10) and all monomials")
WHY = ("Tests integrate a few functions with a few rules; a wrong digit in "
       "one of several hundred table entries, or a wrong rule for one "
       "order, is not noticed.")
ANCHORS = dict(
    files=["solidspy/gaussutil.py"],
    mechanism=[dict(name="gauss_1d, gauss_nd, gauss_tri, gauss_tet",
                    where="gaussutil.py")],
    observe_at=["gauss_1d()", "gauss_nd()", "gauss_tri()", "gauss_tet()"])
TECHNIQUE = ("exhaustive enumeration of all rules and all monomials within "
             "their order, evaluated on the real tables")
LEVEL_NOTE = ("Complete for the rules offered; a polynomial is a sum of the "
              "monomials checked. Tolerance 1e-11 (tables with 12 digits).")


def one_dim(ctx):
    n = ctx.choose("points", range(2, 11))
    deg = ctx.choose("degree", 2*n)
    typ = ctx.choose("type", [int, np.int64, np.int32])
    pts, wts = gau.gauss_1d(typ(n))
    p, w = np.array(pts, dtype=float), np.array(wts, dtype=float)
    ctx.visit(n, deg)
    ctx.check(p.shape == w.shape == (n,), "number of points")
    ctx.check(np.all(np.abs(p) < 1), "point outside", points=p)
    ctx.check(np.all(w > 0), "negative weight")
    ctx.close((w*p**deg).sum(), 0.0 if deg % 2 else 2/(deg + 1),
              "integral of x^%d" % deg, tol=1e-13, scale=1)
    ctx.check(len(set(np.round(p, 9))) == n, "repeated points")


def boxes(cases):
    def run(ctx):
        n, ndim = ctx.choose("points, dimensions", cases)
        pts, wts = gau.gauss_nd(n, ndim=ndim)
        if ndim == 2:
            q, v = gau.gauss_nd(n)
            ctx.same(q, pts, "two dimensions is the default")
        p, w = np.asarray(pts), np.asarray(wts)
        ctx.check(p.shape == (n**ndim, ndim) and w.shape == (n**ndim,),
                  "number of points", got=p.shape)
        ctx.check(np.all(np.abs(p) < 1), "point outside")
        ctx.check(np.all(w > 0), "negative weight")
        pows = np.array([p**k for k in range(2*n)])   # degree, point, dim
        for degs in product(range(2*n), repeat=ndim):
            val = w.copy()
            want = 1.0
            for d, k in enumerate(degs):
                val = val*pows[k][:, d]
                want *= 0.0 if k % 2 else 2/(k + 1)
            ctx.visit(n, degs)
            ctx.count("monomials")
            ctx.close(val.sum(), want, "integral of the monomial %s" % (
                degs,), tol=1e-12, scale=1)
    return run


def simplex(ctx):
    ndim = ctx.choose("dimensions", [2, 3])
    order = ctx.choose("order", range(1, 8 if ndim == 2 else 11))
    rule = gau.gauss_tri if ndim == 2 else gau.gauss_tet
    degs = ctx.choose("monomial", [d for d in product(
        range(order + 1), repeat=ndim) if sum(d) <= order])
    pts, wts = rule(order=order)
    p, w = np.asarray(pts), np.asarray(wts)
    ctx.visit(ndim, order, degs)
    ctx.check(p.shape == (len(w), ndim), "shape", got=p.shape)
    ctx.check(p.min() > 0 and p.sum(axis=1).max() < 1, "point outside")
    want = float(factorial(ndim))
    for d in degs:
        want *= factorial(d)
    want /= factorial(sum(degs) + ndim)
    ctx.close((w*np.prod(p**np.array(degs), axis=1)).sum(), want,
              "integral of the monomial", tol=5e-12, scale=1)
    if order == (2 if ndim == 2 else 3):
        q, v = rule()
        ctx.same(q, p, "default order")
        ctx.same(v, w, "default order")


def requests(ctx):
    """Order of the requests does not matter, results are not shared"""
    calls = {"1d": lambda n: gau.gauss_1d(n), "2d": lambda n: gau.gauss_nd(n),
             "3d": lambda n: gau.gauss_nd(n, ndim=3),
             "tri": lambda n: gau.gauss_tri(order=n),
             "tet": lambda n: gau.gauss_tet(order=n)}
    ops = [(k, n) for k in calls for n in (2, 3, 5)]
    first = ctx.choose("first", ops)
    second = ctx.choose("second", ops)
    scribble = ctx.choose("scribble", [False, True])
    a = calls[second[0]](second[1])
    want = [np.array(x, dtype=float) for x in a]
    b = calls[first[0]](first[1])
    if scribble:
        for x in list(a) + list(b):
            for k in range(len(x)):
                x[k] = 0*x[k] + 77
    c = calls[second[0]](second[1])
    ctx.visit(first, second, scribble)
    for x, y in zip(c, want):
        ctx.same(np.array(x, dtype=float), y, "rule changed after other "
                                              "requests")


def repeated(n):
    def run(ctx):
        """The same rule asked for again and again"""
        rules = ([("1d", k) for k in range(2, 11)] +
                 [("2d", k) for k in range(2, 8)] +
                 [("3d", k) for k in range(2, 5)] +
                 [("tri", k) for k in range(1, 8)] +
                 [("tet", k) for k in range(1, 11)])
        kind, k = ctx.choose("rule", rules)
        between = ctx.choose("in between", [None, "other dimension",
                                            "other order", "writing"])
        ask = {"1d": gau.gauss_1d, "2d": gau.gauss_nd,
               "3d": lambda m: gau.gauss_nd(m, ndim=3),
               "tri": lambda m: gau.gauss_tri(order=m),
               "tet": lambda m: gau.gauss_tet(order=m)}
        p0, w0 = (np.array(x, dtype=float) for x in ask[kind](k))
        ctx.visit(kind, k, between)
        if kind in ("2d", "3d"):
            x, w = np.polynomial.legendre.leggauss(k)
            nd = int(kind[0])
            # as sets: the order of the points is that of the package
            got = sorted(map(tuple, np.round(np.column_stack(
                [p0, w0]), 9).tolist()))
            want = sorted(tuple(np.round(
                [x[i] for i in c] + [np.prod([w[i] for i in c])], 9).tolist())
                for c in product(range(k), repeat=nd))
            ctx.close(got, want, "tensor product", tol=1e-8)
        for step in range(n):
            if between == "other dimension":
                gau.gauss_nd(k if kind not in ("tri", "tet") else 3,
                             ndim=1 + step % 3)
            elif between == "other order":
                ask[kind](2 + step % 4)
            p, w = ask[kind](k)
            ctx.same(np.array(p, dtype=float), p0, "points, request %d" %
                     step)
            ctx.same(np.array(w, dtype=float), w0, "weights, request %d" %
                     step)
            if between == "writing":
                for table in (p, w):
                    if isinstance(table, np.ndarray) and \
                            table.flags.writeable:
                        table += 1.
    return run


def harnesses(tier):
    deep = tier == "thorough"
    cases = [(n, d) for d in (1, 2) for n in range(2, 11)]
    cases += [(n, 3) for n in range(2, 11 if deep else 6)]
    cases += [(n, 4) for n in range(2, 5 if deep else 4)]
    return [
        Harness("interval", one_dim, "2-10 points, all degrees"),
        Harness("boxes", boxes(cases), "all rules in 1-2 dimensions, some in "
                                       "3-4, all monomials"),
        Harness("simplex", simplex, "triangles 1-7, tetrahedra 1-10, all "
                                    "monomials"),
        Harness("repeated", repeated(40 if deep else 12),
                "35 rules x 4 things in between, %d requests" %
                (40 if deep else 12)),
        Harness("requests", requests, "all pairs of 15 requests"),
    ]
