"""C19: Bloch transformation matrix"""
from itertools import permutations

import numpy as np
from scipy.sparse import issparse

import solidspy.assemutil as ass
import solidspy.blochutil as bloch
from mc import models, ref
from mc.core import Harness

TITLE = "Bloch transformation imposes the phase shift of every image"
STATEMENT = (
    "For every wavevector, lattice and set of image/reference nodes, the "
    "transformation matrix maps the independent degrees of freedom to all of "
    "them: the identity on independent ones, and on each image the value at "
    "its reference times exp(i k.(x_image - x_reference)), and nothing else. "
    "Reduced stiffness and mass matrices are Hermitian, periodic in the "
    "reciprocal lattice, and give the dispersion relation of the infinite "
    "periodic structure.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="lattices in 1, 2 and 3 dimensions, 1 to 3 degrees of freedom per "
         "node, grids of wavevectors, orders of the pairs, numberings")
WHY = ("Two doctest examples fix one wavevector each; conjugation, axis or "
       "pairing errors vanish for them.")
ANCHORS = dict(
    files=["solidspy/blochutil.py"],
    mechanism=[dict(name="bloch_transform_mat", where="blochutil.py"),
               dict(name="reassign_dof_bloch", where="blochutil.py")],
    observe_at=["bloch_transform_mat()"])
TECHNIQUE = ("explicit-state enumeration of wavevectors, lattices and "
             "pairings against plane waves and analytical dispersion")
LEVEL_NOTE = "Exhaustive over the stated products; tolerance 1e-12."


def cell(shape, vectors, numbering):
    """Grid of nodes of a periodic cell; pairs (image, reference)"""
    dims = [s + 1 for s in shape]
    idx = np.array(list(np.ndindex(*dims[::-1])))[:, ::-1]
    coords = (idx/np.array(shape)) @ np.array(vectors, dtype=float)
    order = np.arange(len(idx))
    if numbering == "reversed":
        order = order[::-1]
    elif numbering == "shuffled":
        order = np.argsort(np.sin(7.*np.arange(len(idx))))
    where = {tuple(idx[o]): k for k, o in enumerate(order)}
    coords = coords[order]
    pairs = []
    for t, k in sorted(where.items()):
        base = tuple(a % s for a, s in zip(t, shape))
        if base != t:
            pairs.append((k, where[base]))
    return coords, pairs, where


LATTICES = {
    "1D": ((1,), [[1.0]]), "1D long": ((4,), [[2.5]]),
    "square": ((1, 1), [[1, 0], [0, 1]]),
    "2x2": ((2, 2), [[2, 0], [0, 2]]),
    "rectangle": ((3, 2), [[1.5, 0], [0, 4]]),
    "hexagonal": ((2, 2), [[1, 0], [.5, np.sqrt(3)/2]]),
    "strip": ((3, 1), [[1, 0], [.2, 1]]),
    "cube": ((1, 1, 1), [[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    "box": ((2, 1, 2), [[1, 0, .1], [0, 2, 0], [.3, 0, 1]]),
}


def transform(k, coords, pairs, nd, conv=list, reorder=None):
    n = len(coords)*nd
    if reorder is not None:
        pairs = [pairs[q] for q in reorder]
    ima = [p[0] for p in pairs]
    rf = [p[1] for p in pairs]
    dima = [i*nd + d for i in ima for d in range(nd)]
    dref = [r*nd + d for r in rf for d in range(nd)]
    mref = {r: conv(range(r*nd, r*nd + nd)) for r in set(rf)}
    mima = {i: conv(range(i*nd, i*nd + nd)) for i in ima}
    new = bloch.reassign_dof_bloch(n, dima, dref)
    args = (k, coords, n, rf, ima, dref, dima, mref, mima, new)
    keep = repr(args)
    T = bloch.bloch_transform_mat(*args)
    return T, new, dima, repr(args) == keep


def waves(grid):
    def run(ctx):
        lat = ctx.choose("lattice", list(LATTICES))
        shape, vectors = LATTICES[lat]
        nd = ctx.choose("dofs per node", [1, 2, 3])
        num = ctx.choose("numbering", ["natural", "reversed", "shuffled"])
        k = np.array([ctx.choose("k%d" % d, grid) for d in
                      range(len(shape))])
        typ = ctx.choose("type of k", ["array", "list"])
        coords, pairs, where = cell(shape, vectors, num)
        coords = coords + .37       # phases depend on differences only
        T, new, dima, same = transform(k if typ == "array" else list(k),
                                       coords, pairs, nd)
        n = len(coords)*nd
        ctx.check(issparse(T), "sparse matrix")
        ctx.check(T.shape == (n, n - len(dima)), "shape", got=T.shape)
        D = T.toarray()
        want = np.zeros(T.shape, dtype=complex)
        images = dict(pairs)
        rank = {}
        for node in range(len(coords)):
            if node not in images:
                rank[node] = len(rank)
        for node in range(len(coords)):
            base = images.get(node, node)
            ph = np.exp(1j*sum(a*b for a, b in
                               zip(k, coords[node] - coords[base])))
            for d in range(nd):
                want[node*nd + d, rank[base]*nd + d] = ph
        ctx.visit(lat, nd, num, k)
        ctx.close(D, want, "transformation", tol=1e-12, scale=1.0)
        ctx.check(same, "arguments were modified")
        # plane waves of the infinite lattice are reproduced
        free = [m for m in range(len(coords)) if m not in images]
        for d in range(nd):
            amp = np.zeros(n - len(dima), dtype=complex)
            full = np.zeros(n, dtype=complex)
            for m in free:
                amp[rank[m]*nd + d] = np.exp(1j*np.dot(k, coords[m]))
            for m in range(len(coords)):
                full[m*nd + d] = np.exp(1j*np.dot(k, coords[m]))
            ctx.close(T @ amp, full, "plane wave", tol=1e-12, scale=1.0)
        # reciprocal lattice
        G = 2*np.pi*np.linalg.inv(np.array(vectors, dtype=float)).T
        for g in G:
            T2 = transform(k + g, coords, pairs, nd)[0].toarray()
            ctx.close(T2, D, "periodicity in the reciprocal lattice",
                      tol=1e-10, scale=1.0)
        ctx.close(transform(-k, coords, pairs, nd)[0].toarray(), D.conj(),
                  "reversed wavevector", tol=1e-12, scale=1.0)
        ctx.outcome(D)
    return run


def pairings(ctx):
    """The pairs may be given in any order"""
    lat = ctx.choose("lattice", ["1D", "square", "2x2", "cube"])
    shape, vectors = LATTICES[lat]
    nd = ctx.choose("dofs per node", [1, 2])
    conv = ctx.choose("dof lists", [list, tuple, np.array])
    coords, pairs, _ = cell(shape, vectors, "shuffled")
    perms = list(permutations(range(len(pairs))))
    perm = ctx.choose("order", perms if len(perms) <= 720 else
                      perms[::len(perms)//120])
    k = np.array([.3, -1.1, .7])[:len(shape)]
    T = transform(k, coords, pairs, nd, conv, perm)[0].toarray()
    want = transform(k, coords, pairs, nd)[0].toarray()
    ctx.visit(lat, nd, conv.__name__, perm)
    ctx.close(T, want, "order of the pairs", tol=1e-13, scale=1.0)


def dof_numbers(deep):
    """Any numbering of the degrees of freedom, any order of the components
    in the lists, and nodes of which only some components are periodic"""
    perms = list(permutations(range(6)))
    if not deep:
        perms = perms[::5]

    def run(ctx):
        lat = ctx.choose("lattice", ["1D", "two images", "backwards"])
        order = ctx.choose("components listed", [(0, 1), (1, 0)])
        parts = [(0, 1), (0,), (1,)]
        number = ctx.choose("numbering of the DOFs", perms)
        if lat == "1D":
            coords = np.array([[0., 0], [1.5, .2], [.6, 1.]])
            pairs = [(1, 0)]
        elif lat == "two images":
            coords = np.array([[0., 0], [1.5, .2], [.3, 1.]])
            pairs = [(1, 0), (2, 0)]
        else:
            coords = np.array([[0., 0], [-1.5, .2], [.3, -1.]])
            pairs = [(0, 1), (2, 1)]
        comps = ctx.choose("periodic components", parts)
        order = [c for c in order if c in comps]
        typ = ctx.choose("coordinates", ["float", "int"])
        if typ == "int":
            coords = np.round(2*coords).astype(int)
        k = np.array([.8, -.45])
        dof = {(n, c): number[2*n + c] for n in range(3) for c in range(2)}
        ima = [p[0] for p in pairs]
        rf = [p[1] for p in pairs]
        dima = [dof[i, c] for i in ima for c in order]
        dref = [dof[r, c] for r in rf for c in order]
        mref = {r: [dof[r, c] for c in order] for r in set(rf)}
        mima = {i: [dof[i, c] for c in order] for i in ima}
        new = bloch.reassign_dof_bloch(6, dima, dref)
        T = bloch.bloch_transform_mat(k, coords, 6, rf, ima, dref, dima,
                                      mref, mima, new).toarray()
        ctx.visit(lat, order, number, comps, typ)
        free = [d for d in range(6) if d not in dima]
        want = np.zeros((6, len(free)), dtype=complex)
        for q, d in enumerate(free):
            want[d, q] = 1
        for i, r in pairs:
            ph = np.exp(1j*np.dot(k, coords[i] - coords[r]))
            for c in comps:
                want[dof[i, c], free.index(dof[r, c])] = ph
        ctx.close(T, want, "transformation", tol=1e-12, scale=1.0)
        ctx.outcome(T)
    return run


def units(ctx):
    """Lattices in any unit of length, with integer or real, small or large
    wavevectors, and models without images"""
    lat = ctx.choose("lattice", list(LATTICES))
    shape, vectors = LATTICES[lat]
    s = ctx.choose("unit", [1e-9, 1e-3, 1., 1e4])
    kind = ctx.choose("wavevector", ["small", "one", "large", "integers",
                                     "negative", "axis"])
    images = ctx.choose("images", ["all", "last", "none"])
    coords, pairs, _ = cell(shape, vectors, "shuffled")
    coords = s*coords
    pairs = {"all": pairs, "last": pairs[-1:], "none": []}[images]
    dim = len(shape)
    k = {"small": np.array([1e-9, -3e-8, 1e-7]),
         "one": np.array([1., .9, -1.1]), "large": np.array([40., -77., 150]),
         "integers": np.array([2, -1, 3]), "negative": -np.array([.1, .7, 2]),
         "axis": np.array([0, 0, 1.])[::-1]}[kind][:dim]
    if kind != "integers" or s == 1.:
        k = k/s if s != 1. else k
    T, new, dima, same = transform(k, coords, pairs, 2)
    ctx.visit(lat, s, kind, images)
    free = [d for d in range(2*len(coords)) if d not in dima]
    want = np.zeros((2*len(coords), len(free)), dtype=complex)
    base = dict(pairs)
    for n in range(len(coords)):
        r = base.get(n, n)
        for d in range(2):
            want[2*n + d, free.index(2*r + d)] = np.exp(1j*np.dot(
                k, coords[n] - coords[r]))
    ctx.check(T.shape == want.shape, "shape", got=T.shape)
    ctx.close(T.toarray(), want, "transformation", tol=1e-11, scale=1.0)
    ctx.check(same, "arguments were modified")


def large(ctx):
    """Cells with many reference nodes and images"""
    shape, vectors = ctx.choose("lattice", [
        ((60, 2), [[60., 0], [0, 2]]), ((17, 9), [[1., 0], [.4, 2]]),
        ((300,), [[7.]]), ((2, 90), [[1., 0], [0, 3]]),
        ((40, 40), [[1., .1], [-.1, 1]]),
        ((6, 5, 4), [[1., 0, 0], [0, 2, 0], [.3, 0, 1]])])
    nd = ctx.choose("dofs per node", [1, 2, 3])
    num = ctx.choose("numbering", ["natural", "reversed", "shuffled"])
    k = np.array(ctx.choose("wavevector", [(0., 0, 0), (.7, -1.1, 2.3),
                                           (12., .01, -5)]))[:len(shape)]
    coords, pairs, _ = cell(shape, vectors, num)
    T, new, dima, same = transform(k, coords, pairs, nd)
    n = len(coords)
    ctx.visit(shape, nd, num, k)
    base = np.arange(n)
    for i, r in pairs:
        base[i] = r
    rank = np.cumsum(base == np.arange(n)) - 1
    ctx.check(T.shape == (n*nd, nd*(rank[-1] + 1)), "shape", got=T.shape)
    D = T.toarray()
    node, d = np.divmod(np.arange(n*nd), nd)
    col = nd*rank[base[node]] + d
    phase = np.exp(1j*((coords[node] - coords[base[node]]) @ k))
    ctx.close(D[np.arange(n*nd), col], phase, "phases", tol=1e-11, scale=1.0)
    ctx.check(np.count_nonzero(D) == n*nd, "nothing else is coupled")
    ctx.check(same, "arguments were modified")
    ctx.outcome((n, len(pairs)))


def chain(ctx):
    """Dispersion of a chain of n springs per cell, against the exact
    relation of the infinite chain folded into the cell"""
    n = ctx.choose("springs per cell", [1, 2, 3, 5])
    k = ctx.choose("wavenumber", [-3., -1.7, -.2, 0., .4, 1.0, 2.2, 3.1, 9.])
    num = ctx.choose("numbering", ["natural", "reversed", "shuffled"])
    ks, m = 3.0, 0.5
    coords, pairs, where = cell((n,), [[float(n)]], num)
    K = np.zeros((n + 1, n + 1))
    M = np.zeros((n + 1, n + 1))
    for e in range(n):
        a, b = where[(e,)], where[(e + 1,)]
        K[np.ix_([a, b], [a, b])] += ks*np.array([[1, -1], [-1, 1]])
        M[np.ix_([a, b], [a, b])] += m*np.eye(2)/2
    T = transform(np.array([k]), coords, pairs, 1)[0]
    Kr = (T.conj().T @ (K @ T.toarray()))
    Mr = (T.conj().T @ (M @ T.toarray()))
    ctx.visit(n, k, num)
    ctx.close(Kr, Kr.conj().T, "Hermitian", tol=1e-12)
    got = np.sort(np.linalg.eigvals(np.linalg.solve(Mr, Kr)).real)
    want = np.sort([2*ks/m*(1 - np.cos(k + 2*np.pi*q/n)) for q in range(n)])
    ctx.close(got, want, "dispersion relation", tol=1e-10, scale=4*ks/m)


def solid(ctx):
    """Cells of quads assembled by the package: Hermitian, nonnegative, zero
    for rigid translations at k = 0, invariant to the choice of the cell"""
    nx, ny = ctx.choose("cell", [(2, 2), (3, 2)])
    k = np.array([ctx.choose("kx", [-2., 0., .3, 1.5]),
                  ctx.choose("ky", [-.7, 0., .4, 3.])])
    kind = ctx.choose("element", ["quad4", "tri3"])
    pts, conn = models.grid(kind, nx, ny, float(nx), float(ny))
    nodes, elements = models.tables(pts, conn, models.ETYPE[kind], 0)
    cons = np.zeros((len(pts), 2), dtype=int)
    op, bc, neq = ass.DME(cons, elements)
    K, M = ass.assembler(elements, np.array([[5., .3, 2.]]), nodes, neq, op)
    pairs = []
    for a, p in enumerate(pts):
        base = [p[0] % nx, p[1] % ny]
        b = int(np.argmin(np.abs(pts - base).sum(axis=1)))
        if a != b:
            pairs.append((a, b))
    T = transform(k, pts, pairs, 2)[0]
    Kr = (T.conj().T @ K @ T).toarray()
    Mr = (T.conj().T @ M @ T).toarray()
    ctx.visit(nx, ny, k, kind)
    ctx.close(Kr, Kr.conj().T, "Hermitian stiffness", tol=1e-12)
    ctx.close(Mr, Mr.conj().T, "Hermitian mass", tol=1e-12)
    w = np.linalg.eigvals(np.linalg.solve(Mr, Kr))
    ctx.check(np.min(w.real) > -1e-9*np.abs(w).max(), "negative squared "
              "frequency", w=w)
    zero = np.sum(np.abs(w) < 1e-9*np.abs(w).max())
    ctx.check(zero == (2 if not np.any(k) else 0), "rigid translations",
              got=zero, w=np.sort(w.real))
    # the unit cell of one quad (two of triangles) has its bands among them
    if kind == "quad4":
        Ke, Me = ref.continuum("quad4", [[0, 0], [1, 0], [1, 1], [0, 1]],
                               5., .3, 2.)
        c1 = np.array([[0., 0], [1, 0], [1, 1], [0, 1]])
        T1 = np.vstack([np.exp(1j*(c @ k))*np.eye(2) for c in c1])
        w1 = np.linalg.eigvals(np.linalg.solve(T1.conj().T @ Me @ T1,
                                               T1.conj().T @ Ke @ T1)).real
        for v in w1:
            ctx.check(np.min(np.abs(w - v)) < 1e-9*np.abs(w).max(),
                      "bands of the primitive cell", got=w, want=v)


def harnesses(tier):
    deep = tier == "thorough"
    grid = [-1.3, 0.0, .4, np.pi] + ([2.0, -.05, 11.] if deep else [])
    return [
        Harness("waves", waves(grid), "9 lattices x DOFs x numberings x "
                "grids of wavevectors"),
        Harness("pairings", pairings, "orders of the pairs"),
        Harness("DOF numbers", dof_numbers(deep), "lattices x numberings of "
                "6 DOFs x orders and choices of the periodic components"),
        Harness("units", units, "9 lattices x 4 units x 6 wavevectors x "
                "sets of images"),
        Harness("large", large, "6 large cells x DOFs x numberings x "
                "wavevectors"),
        Harness("chain", chain, "chains of springs"),
        Harness("solid", solid, "cells of solid elements"),
    ]
