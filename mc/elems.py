"""Catalogue of the element routines with geometries, parameters and oracles"""
from itertools import combinations, product

import numpy as np

import solidspy.uelutil as ue
from mc import models, ref

# name: (routine, reference kind, numbered type or None, mode)
CONTINUUM = {
    "tri3": (ue.elast_tri3, "tri3", 3, "plane"),
    "tri6": (ue.elast_tri6, "tri6", 2, "plane"),
    "quad4": (ue.elast_quad4, "quad4", 1, "plane"),
    "quad9": (ue.elast_quad9, "quad9", 4, "plane"),
    "quad8": (ue.elast_quad8, "quad8", None, "plane"),
}
SOLID = {
    "tet4": (ue.elast_tet4, "tet4", None, "solid"),
    "hex8": (ue.elast_hex8, "hex8", None, "solid"),
}
AXI = {"axi9": (ue.elast_axi_quad9, "quad9", None, "axi")}
LINE = {"spring": (ue.spring, 5), "truss": (ue.truss2D, 6),
        "beamDU": (ue.beam2DU, 7), "beam": (ue.beam2D, 8)}


def optional_density(name):
    return name in ("tri3", "tri6", "quad4", "quad9", "truss", "beam",
                    "beamDU")


def container(kind, values):
    if kind == "tuple":
        return tuple(values)
    if kind == "list":
        return list(values)
    if kind == "row":          # a row of a material table
        return np.array([[9.]*len(values), list(values)], dtype=float)[1, :]
    raise KeyError(kind)


def affine_maps(ndim):
    """Named linear maps with positive determinant"""
    if ndim == 2:
        out = [np.eye(2), np.diag([3., 1]), np.diag([.25, 2]),
               np.array([[1, .7], [0, 1]]), np.array([[1, 0], [-.6, 1]]),
               np.array([[2, .5], [.3, 1.5]])]
        return out + [r @ np.diag([2., 1]) for r in models.ROTATIONS[1:]]
    out = [np.eye(3), np.diag([3., 1, .5]),
           np.array([[1, .5, 0], [0, 1, .3], [0, 0, 1.]]),
           np.array([[2, .2, .1], [.3, 1.5, 0], [0, .4, 1]])]
    cyc = np.array([[0, 1, 0], [0, 0, 1], [1., 0, 0]])
    r = np.eye(3)
    r[:2, :2] = models.ROTATIONS[4]
    out += [cyc @ out[1], r @ out[1], cyc @ r @ cyc @ out[3]]
    return out


def distortions(kind, deep):
    """Lists of moves applied to the natural nodes, all elements stay valid"""
    nat = ref.nat_nodes(kind)
    n, ndim = nat.shape
    if kind == "quad4":
        vals = [-.3, 0, .3] if deep else [0, .3]
        return [np.array(v).reshape(4, 2) for v in
                product(vals, repeat=8)]
    if kind == "tri3":
        vals = [-.2, 0, .2]
        return [np.array(v).reshape(3, 2) for v in product(vals, repeat=6)]
    size = {"tri6": .06, "quad8": .15, "quad9": .15, "tet4": .2,
            "hex8": .3}[kind]
    dirs = [d for d in product((-1, 0, 1), repeat=ndim) if any(d)]
    out = []
    for node in range(n):
        for d in dirs:
            m = np.zeros((n, ndim))
            m[node] = size*np.array(d)
            out.append(m)
    pick = list(combinations(range(n), 2))
    for a, b in pick:
        for da, db in product(dirs if deep else dirs[::3], repeat=2):
            m = np.zeros((n, ndim))
            m[a], m[b] = size*np.array(da), size*np.array(db)
            out.append(m)
    for da in dirs:
        out.append(size*np.outer((-1.)**np.arange(n), da))
        out.append(size*np.cos(np.arange(n*ndim)).reshape(n, ndim))
    return out


def line_geometry(deep):
    """Vectors from the first to the second node in every quadrant, along
    both axes, of very different lengths"""
    base = [(1, 0), (0, 1), (-1, 0), (0, -1), (.6, .8), (-.6, .8),
            (.6, -.8), (-.6, -.8), (12/13, 5/13), (-5/13, 12/13), (.8, -.6)]
    angles = [1e-6, 1e-3, .5*np.pi - 1e-4, np.pi + 2e-5, 1.5*np.pi - 1e-7,
              1., 2.2, 3.9, 5.6]
    if deep:
        angles += list(np.arange(0, 6.3, .37))
    base += [(np.cos(a), np.sin(a)) for a in angles]
    lens = [1.0, 1e-6, 1e-3, 1e-1, 3.0, 2e2, 1e4]
    return [(np.array(b), L) for L in lens for b in base]


# Poisson ratios over the whole range, moduli and densities over many orders
POISSON = [-.99, -.9, -.5, -.1, -1e-3, 0., 1e-6, .05, .1, .2, .25, .3, 1/3,
           .35, .4, .44, .46, .48, .49, .499, .4999]
YOUNG = [1e-9, 1e-3, .5, 1., 10., 4e3, 2e5, 7e9, 2e11]
DENSITY = [1e-12, 1e-6, .1, 1., 2.7, 1e3, 7850., 1e6]


def odd_shapes(kind):
    """(label, coordinates): slender, rotated, skew and slightly or clearly
    distorted elements with the size of one unit"""
    nat = ref.nat_nodes(kind)
    tri = kind.startswith("tri")
    corner = nat[:3] if tri else nat[:4]
    base = "tri3" if tri else "quad4"
    shape = np.array([ref.shape(base, p)[0] for p in nat])
    out = []

    def place(label, pts, scale, rot, skew=0.):
        c, s = np.cos(rot), np.sin(rot)
        A = np.array([[c, -s], [s, c]]) @ np.array([[1, skew], [0, 1]]) \
            @ np.diag(scale)
        out.append((label + (scale, rot, skew), pts @ A.T))

    scales = [(1, 1), (1, .1), (1, .01), (.01, 1), (1, 1e-3), (1e-3, 1),
              (1, 1e-4)]
    rots = [0., 1e-6, 1e-3, .3, np.pi/2, 2.3, np.pi - 1e-3, np.pi, 3.5,
            1.5*np.pi, 5.2]
    for scale in scales:
        for rot in rots:
            for skew in (0., .7):
                place(("affine",), nat, scale, rot, skew)
    for eps in (1e-6, 1e-4, 1e-3, .01, .05, .15):
        pats = []
        if not tri:
            for name, move in (("corner", {2: (1, .4)}),
                               ("trapezoid", {2: (1, 0), 3: (-1, 0)}),
                               ("kite", {0: (-1, -1), 2: (.5, .7)})):
                c = corner.copy()
                for node, d in move.items():
                    c[node] += eps*np.array(d)
                pats.append((name, shape @ c))
        if len(nat) > len(corner):
            for name, node, d in (("bulge", len(corner), (0, -1)),
                                  ("dent", len(corner) + 1, (-.5, .2)),
                                  ("slide", len(corner), (1, 0)),
                                  ("last", len(nat) - 1, (.6, -.8))):
                c = nat.copy()
                c[node] += .5*eps*np.array(d)
                pats.append((name, c))
        for name, pts in pats:
            for scale in ((1, 1), (1, .2), (.02, 1)):
                for rot in (0., .3, 3.5):
                    place((name, eps), pts, scale, rot)
    return out
