"""C18: Bloch numbering"""
from itertools import permutations, product

import numpy as np

import solidspy.blochutil as bloch
from mc.core import Harness

TITLE = "Bloch numbering gives images the number of their reference"
STATEMENT = (
    "For every set of image degrees of freedom and every assignment of "
    "references to them, the independent degrees of freedom are renumbered "
    "0, 1, ... in increasing order without gaps and each image has the "
    "number of its own reference, whatever the order of the pairs and "
    "wherever images and references lie in the numbering. The lists given "
    "are not modified and every degree of freedom gets exactly one number.")
QUANTIFIER = dict(
    over=["inputs"],
    text="all subsets of images and all maps to references for up to 8 (9) "
         "degrees of freedom, all orders of the pairs for up to 6 (7), large "
         "periodic lattices")
WHY = ("The doctest has one example whose references precede all images; the "
       "rule must hold for every position of images and references.")
ANCHORS = dict(
    files=["solidspy/blochutil.py"],
    mechanism=[dict(name="reassign_dof_bloch", where="blochutil.py")],
    observe_at=["reassign_dof_bloch()"])
TECHNIQUE = ("explicit-state enumeration of all image/reference maps against "
             "a counting specification")
LEVEL_NOTE = ("Exhaustive up to 8 (9) degrees of freedom; references are "
              "independent (an image is not a reference).")


def spec(n, pairs):
    ima = {i: r for i, r in pairs}
    rank = {}
    for d in range(n):
        if d not in ima:
            rank[d] = len(rank)
    return [rank[ima.get(d, d)] for d in range(n)]


def judge(ctx, n, pairs, conv):
    ima = conv([p[0] for p in pairs])
    ref = conv([p[1] for p in pairs])
    keep = list(ima), list(ref)
    got = bloch.reassign_dof_bloch(n, ima, ref)
    ctx.check(len(got) == n, "one number per degree of freedom", got=got)
    ctx.check([int(g) for g in got] == spec(n, pairs), "numbering",
              got=got, want=spec(n, pairs), pairs=pairs)
    ctx.check(all(float(g).is_integer() for g in got), "integers", got=got)
    ctx.check((list(ima), list(ref)) == keep, "lists were modified")
    return got


CONV = {"list": list, "tuple": tuple, "array": lambda x: np.array(x, int)}


def maps(top):
    def run(ctx):
        n = ctx.choose("dofs", range(1, top + 1))
        bits = ctx.choose("images", 2**n - 1)
        ima = [d for d in range(n) if bits >> d & 1]
        free = [d for d in range(n) if not bits >> d & 1]
        pairs = [(i, ctx.choose("reference of %d" % i, free)) for i in ima]
        ctx.visit(n, pairs)
        got = judge(ctx, n, pairs, list)
        judge(ctx, n, pairs[::-1], list)
        ctx.outcome(got)
    return run


def orders(top):
    def run(ctx):
        n = ctx.choose("dofs", range(2, top + 1))
        bits = ctx.choose("images", range(1, 2**n - 1))
        kind = ctx.choose("type", list(CONV))
        ima = [d for d in range(n) if bits >> d & 1]
        free = [d for d in range(n) if not bits >> d & 1]
        refs = ctx.choose("references", list(product(free,
                                                     repeat=len(ima))))
        perm = ctx.choose("order", list(permutations(range(len(ima)))))
        pairs = [(ima[k], refs[k]) for k in perm]
        ctx.visit(n, pairs, kind)
        judge(ctx, n, pairs, CONV[kind])
    return run


def lattice(ctx):
    """Periodic grids: images are the right and top sides, in any of four
    numberings of the nodes and node or component ordering of the DOFs"""
    nx, ny = ctx.choose("nodes", [(2, 2), (3, 2), (3, 3), (5, 4), (17, 9),
                                  (2, 40)])
    nd = ctx.choose("dofs per node", [1, 2, 3])
    start = ctx.choose("numbering", range(4))
    blocked = ctx.choose("dof order", ["node", "component"])
    kind = ctx.choose("type", list(CONV))
    order = ctx.choose("pairs", ["forward", "backward"])
    ids = np.arange(nx*ny).reshape(ny, nx)
    if start & 1:
        ids = ids[:, ::-1]
    if start & 2:
        ids = ids[::-1]
    n = nx*ny*nd

    def dof(node, k):
        return int(node*nd + k if blocked == "node" else node + k*nx*ny)
    pairs = []
    for j in range(ny):
        for i in range(nx):
            if i == nx - 1 or j == ny - 1:
                pairs += [(dof(ids[j, i], k),
                           dof(ids[j % (ny - 1), i % (nx - 1)], k))
                          for k in range(nd)]
    if order == "backward":
        pairs = pairs[::-1]
    ctx.visit(nx, ny, nd, start, blocked, kind, order)
    got = judge(ctx, n, pairs, CONV[kind])
    ctx.check(sorted(set(int(g) for g in got)) ==
              list(range((nx - 1)*(ny - 1)*nd)), "numbers of the cell")


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("maps", maps(9 if deep else 8),
                "all maps, up to %d DOFs" % (9 if deep else 8)),
        Harness("orders", orders(7 if deep else 6), "all orders of pairs"),
        Harness("lattice", lattice, "periodic grids"),
    ]
