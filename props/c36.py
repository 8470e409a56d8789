"""C36: Bloch analysis of whole cells"""
from itertools import product

import numpy as np
from scipy.linalg import eigh

import solidspy.assemutil as ass
import solidspy.blochutil as bloch
from mc import models, ref
from mc.core import Harness

TITLE = "Bloch spectra are those of the closed ring of cells"
STATEMENT = (
    "For every periodic cell, the natural frequencies obtained with Bloch "
    "conditions at all wavevectors allowed by a ring (torus) of N cells are, "
    "together, exactly those of the ring assembled in full, with the same "
    "multiplicities; reduced matrices are Hermitian, positive, and the "
    "spectrum does not depend on which nodes are the references, on the "
    "numbering or on the choice of the cell.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="cells of every planar element type, lattices, numbers of cells in "
         "the ring, all allowed wavevectors, numberings and choices of the "
         "reference nodes")
WHY = ("A relation between a family of reduced problems and a large one: "
       "wrong sign, pairing or lost mass on the images breaks it although "
       "single matrices look plausible.")
ANCHORS = dict(
    files=["solidspy/blochutil.py", "solidspy/assemutil.py",
           "solidspy/uelutil.py"],
    mechanism=[dict(name="bloch_transform_mat, reassign_dof_bloch",
                    where="blochutil.py"),
               dict(name="assembler", where="assemutil.py")],
    observe_at=["eigenvalues of the reduced matrices"])
TECHNIQUE = ("explicit-state enumeration of cells, rings and all wavevectors "
             "of each ring against the spectrum of the ring of the reference "
             "model")
LEVEL_NOTE = "Exhaustive over the stated products; spectra to 1e-8."

MATS = np.array([[100., .3, 2.], [400., .1, .5]])
LINE = np.array([[100., 3., 2.], [400., 1., .5]])


def cell(name):
    """points on [0,1]^2, connectivity, type, materials"""
    if name in models.ETYPE:
        n = {"quad4": (2, 2), "tri3": (2, 1), "tri6": (1, 1),
             "quad9": (1, 1)}[name]
        pts, conn = models.grid(name, *n)
        mat = [k % 2 for k in range(len(conn))]
        return pts, conn, models.ETYPE[name], MATS, mat
    pts = np.array([[0, 0], [1, 0], [1, 1], [0, 1], [.4, .55]])
    # the sides belong to one cell only
    conn = [[0, 1], [0, 3], [0, 4], [1, 4], [2, 4], [3, 4]]
    return pts, conn, 6, LINE, [0, 1, 0, 1, 0, 1]


LATTICES = {"square": [[1., 0.], [0., 1.]], "rectangle": [[2., 0.], [0., .7]],
            "oblique": [[1., .2], [-.3, 1.1]]}


# side of the cells: unit, nanometre and kilometre sized
SIZES = [1., 5e-9, 2e4]


def frac_pairs(frac, ring, choice):
    """Image and reference nodes; directions without a ring stay free"""
    groups = {}
    for k, p in enumerate(frac):
        key = tuple(round(x % 1, 9) % 1 if r > 1 else round(x, 9)
                    for x, r in zip(p, ring))
        groups.setdefault(key, []).append(k)
    pairs = []
    for g in groups.values():
        base = g[0] if choice == "first" else g[-1] if choice == "last" \
            else g[len(g)//2]
        pairs += [(k, base) for k in g if k != base]
    return pairs


def torus(frac, vec, conn, et, mats, mat, ring):
    """Ring of cells assembled by the reference"""
    num = {}

    def node(i, j, k):
        p = frac[k] + [i, j]
        key = tuple(round(x % r, 9) % r if r > 1 else round(x, 9)
                    for x, r in zip(p, ring))
        return num.setdefault(key, len(num))
    ids, parts = [], []
    pts = frac @ vec
    for i, j in product(range(ring[0]), range(ring[1])):
        for c, m in zip(conn, mat):
            k, q = ref.element(et, pts[c], mats[m])
            at = [node(i, j, v) for v in c]
            ids.append([2*a + d for a in at for d in range(2)])
            parts.append((k, q))
    n = 2*len(num)
    K, M = np.zeros((n, n)), np.zeros((n, n))
    for idx, (k, q) in zip(ids, parts):
        for a, ga in enumerate(idx):
            for b, gb in enumerate(idx):
                K[ga, gb] += k[a, b]
                M[ga, gb] += q[a, b]
    return K, M


def spectrum(k, pts, pairs, K, M, wrap=list):
    n = 2*len(pts)
    ima = [p[0] for p in pairs]
    rf = [p[1] for p in pairs]
    dima = [2*i + d for i in ima for d in range(2)]
    dref = [2*r + d for r in rf for d in range(2)]
    mref = {r: wrap([2*r, 2*r + 1]) for r in set(rf)}
    mima = {i: wrap([2*i, 2*i + 1]) for i in ima}
    new = bloch.reassign_dof_bloch(n, dima, dref)
    T = bloch.bloch_transform_mat(k, pts, n, rf, ima, dref, dima, mref, mima,
                                  new)
    Kr = (T.conj().T @ K @ T).toarray()
    Mr = (T.conj().T @ M @ T).toarray()
    return Kr, Mr


def rings(sizes):
    def run(ctx):
        name = ctx.choose("cell", ["quad4", "tri3", "tri6", "quad9",
                                   "truss"])
        lat = ctx.choose("lattice", list(LATTICES))
        ring = ctx.choose("ring", sizes)
        size = ctx.choose("size", SIZES)
        choice = ctx.choose("references", ["first", "last", "middle"])
        order = ctx.choose("numbering", ["natural", "reversed", "mixed"])
        frac, conn, et, mats, mat = cell(name)
        vec = size*np.array(LATTICES[lat])
        ctx.require(not (name == "truss" and 1 in ring and
                         "square" not in lat))
        perm = {"natural": np.arange(len(frac)),
                "reversed": np.arange(len(frac))[::-1],
                "mixed": np.argsort(np.sin(5.*np.arange(len(frac))))}[order]
        new = np.argsort(perm)
        frac = frac[perm]
        conn = [[int(new[v]) for v in c] for c in conn]
        pts = frac @ vec + size*np.array([3., -1.])
        nodes, elements = models.tables(pts, conn, et, mat)
        op, bc, neq = ass.DME(np.zeros((len(pts), 2), dtype=int), elements)
        K, M = ass.assembler(elements, mats, nodes, neq, op)
        pairs = frac_pairs(frac, ring, choice)
        G = 2*np.pi*np.linalg.inv(vec).T
        got = []
        for i, j in product(range(ring[0]), range(ring[1])):
            k = i/ring[0]*G[0] + j/ring[1]*G[1]
            Kr, Mr = spectrum(k, pts, pairs, K, M)
            ctx.close(Kr, Kr.conj().T, "Hermitian stiffness", tol=1e-12)
            ctx.close(Mr, Mr.conj().T, "Hermitian mass", tol=1e-12)
            ev = eigh((Kr + Kr.conj().T)/2, (Mr + Mr.conj().T)/2,
                      eigvals_only=True)
            ctx.check(ev[0] > -1e-8*ev[-1], "negative frequency", got=ev[:3])
            if i == j == 0:
                ctx.check(abs(ev[1]) < 1e-8*ev[-1], "translations",
                          got=ev[:3])
            got += list(ev)
            ctx.count("wavevectors")
        Kt, Mt = torus(frac, vec, conn, et, mats, mat, ring)
        want = eigh(Kt, Mt, eigvals_only=True)
        ctx.visit(name, lat, ring, size, choice, order)
        ctx.check(len(got) == len(want), "number of frequencies",
                  got=len(got), want=len(want))
        ctx.close(np.sort(got), want, "spectrum of the ring", tol=1e-8)
        ctx.outcome(want)
    return run


def symmetry(grid):
    """k and -k, and k plus reciprocal vectors: same spectrum; the group of
    the reference choice does not matter"""
    def run(ctx):
        name = ctx.choose("cell", ["quad4", "tri6", "truss"])
        lat = ctx.choose("lattice", list(LATTICES))
        kx = ctx.choose("k1", grid)
        ky = ctx.choose("k2", grid)
        size = ctx.choose("size", SIZES)
        wrap = ctx.choose("dof lists", [list, tuple, np.array])
        frac, conn, et, mats, mat = cell(name)
        vec = size*np.array(LATTICES[lat])
        pts = frac @ vec
        nodes, elements = models.tables(pts, conn, et, mat)
        op, bc, neq = ass.DME(np.zeros((len(pts), 2), dtype=int), elements)
        K, M = ass.assembler(elements, mats, nodes, neq, op)
        G = 2*np.pi*np.linalg.inv(vec).T
        k = kx*G[0] + ky*G[1]
        base = None
        for kk, choice in ((k, "first"), (-k, "first"), (k, "last"),
                           (k + G[0], "middle"), (k - 2*G[1], "first")):
            Kr, Mr = spectrum(kk, pts, frac_pairs(frac, (2, 2), choice), K,
                              M, wrap)
            ev = eigh((Kr + Kr.conj().T)/2, (Mr + Mr.conj().T)/2,
                      eigvals_only=True)
            if base is None:
                base = ev
            ctx.close(ev, base, "spectrum", tol=1e-9)
        ctx.visit(name, lat, kx, ky, size)
    return run


def harnesses(tier):
    deep = tier == "thorough"
    sizes = [(2, 1), (3, 1), (1, 2), (2, 2), (3, 2)]
    if deep:
        sizes += [(5, 1), (1, 4), (3, 3), (4, 3)]
    grid = [0., .1, .25, .5, -.3] if not deep else \
        [round(x, 3) for x in np.linspace(-.5, .5, 13)]
    return [
        Harness("rings", rings(sizes), "5 cells x 3 lattices x %d rings x 3 "
                "sizes x 3 choices of references x 3 numberings, all wavevectors"
                % len(sizes)),
        Harness("symmetry", symmetry(grid), "3 cells x 3 lattices x 3 sizes x %dx%d "
                "wavevectors" % (len(grid), len(grid))),
    ]
