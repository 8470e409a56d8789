"""C13: degenerate and inverted elements are never analysed"""
from itertools import permutations, product

import numpy as np

import solidspy.assemutil as ass
import solidspy.femutil as fem
import solidspy.postprocesor as pos
import solidspy.uelutil as ue
from solidspy.solids_GUI import solids_auto
from mc import elems, models, ref
from mc.core import Harness

TITLE = "Inverted or degenerate elements are refused, valid ones never"
STATEMENT = (
    "An element whose map has a zero or negative Jacobian at an integration "
    "point (clockwise nodes, collapsed or folded shapes) is refused with a "
    "ValueError, alone or anywhere in a mesh and in every workflow, instead "
    "of contributing to a result. An element with positive Jacobians is "
    "never refused, whatever its size, position or units.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="all placements of the nodes of triangles, quadrilaterals and "
         "tetrahedra on small grids, node orders of every element, sizes, "
         "positions, and places of the bad element in a mesh")
WHY = ("Tests call the Jacobian routine with two matrices; whether every "
       "bad placement is caught, and no good one refused, is a statement "
       "about all placements and sizes.")
ANCHORS = dict(
    files=["solidspy/femutil.py", "solidspy/uelutil.py"],
    mechanism=[dict(name="jacoper", where="femutil.py"),
               dict(name="elast_diff_2d, elast_diff_axi, elast_diff_3d",
                    where="femutil.py")],
    observe_at=["jacoper()", "element routines", "assembler()",
                "solids_auto()", "strain_nodes()"])
TECHNIQUE = ("exhaustive enumeration of node placements on grids, decided on "
             "the real code against exact signs of the Jacobian")
LEVEL_NOTE = ("Exhaustive on the grids; placements with a relative Jacobian "
              "between 0 and 1e-3 are left open.")

NEED = dict(E=1.0, nu=.3, rho=1.0)


def verdict(kind, coord):
    """'bad', 'good' or 'open'"""
    size = np.ptp(coord, axis=0).max()
    far = np.abs(coord).max()
    if size <= 1e-14*far:
        return "bad"          # all nodes at one point, up to round-off
    if size <= 1e-9*far:
        return "open"
    n = coord.shape[1]
    dets = []
    for p in ref.rule(kind)[0]:
        _, dN = ref.shape(kind, p)
        dets.append(np.linalg.det(dN @ coord/size))
    low = min(dets)
    if low <= 1e-12:
        return "bad"
    return "good" if low >= 1e-3**(n - 1) else "open"


def judge(ctx, fun, kind, coord, params=(1.0, .3, 1.0)):
    what = verdict(kind, coord)
    if what == "bad":
        ctx.raises(ValueError, lambda: fun(coord, params),
                   "bad element accepted", coord=coord)
    elif what == "good":
        try:
            K, M = fun(coord, params)
        except ValueError as exc:
            ctx.fail("good element refused: %s" % exc, coord=coord)
        ctx.check(np.all(np.isfinite(K)) and np.all(np.isfinite(M)),
                  "matrices are not finite")
    ctx.count("placements " + what)
    ctx.outcome(what)


def triangles(side):
    pts = [(x, y) for x in range(side) for y in range(side)]

    def run(ctx):
        nodes = [ctx.choose("node %d" % k, pts) for k in range(3)]
        size = ctx.choose("size", [1.0, 1e-7, 1e6])
        off = ctx.choose("position", [(0., 0.), (30., -10.)])
        coord = size*(np.array(nodes, dtype=float) + np.array(off))
        ctx.visit(nodes, size, off)
        judge(ctx, ue.elast_tri3, "tri3", coord)
        mid = (coord + np.roll(coord, -1, axis=0))/2
        judge(ctx, ue.elast_tri6, "tri6", np.vstack([coord, mid]))
    return run


def quads(side, sizes):
    pts = [(x, y) for x in range(side) for y in range(side)]

    def run(ctx):
        nodes = [ctx.choose("node %d" % k, pts) for k in range(4)]
        size = ctx.choose("size", sizes)
        off = ctx.choose("position", [(0., 0.), (30.1, -10.3)])
        coord = size*(np.array(nodes, dtype=float) + np.array(off))
        ctx.visit(nodes, size, off)
        judge(ctx, ue.elast_quad4, "quad4", coord)
        mid = (coord + np.roll(coord, -1, axis=0))/2
        q8 = np.vstack([coord, mid])
        judge(ctx, ue.elast_quad8, "quad8", q8)
        judge(ctx, ue.elast_quad9, "quad9",
              np.vstack([q8, coord.mean(axis=0)]))
    return run


def midsides(ctx):
    """Mid-side and centre nodes moved on a grid, corners fixed"""
    name = ctx.choose("element", ["tri6", "quad8", "quad9"])
    nat = ref.nat_nodes(name)
    node = ctx.choose("moved node", len(nat))
    span = ctx.choose("unit", [.25, .5, 1.0])
    dx = ctx.choose("dx", [-3, -2, -1, 0, 1, 2, 3])
    dy = ctx.choose("dy", [-3, -2, -1, 0, 1, 2, 3])
    size = ctx.choose("size", [1.0, 1e-6])
    coord = nat.copy()
    coord[node] += span*np.array([dx, dy])
    off = ctx.choose("position", [(0., 0.), (-77.7, 13.3)])
    ctx.visit(name, node, span, dx, dy, size, off)
    judge(ctx, elems.CONTINUUM[name][0], name, size*(coord + np.array(off)))


def orders(ctx):
    """All orders in which the nodes of a good element can be listed"""
    name = ctx.choose("element", ["tri3", "quad4", "tet4"])
    fun = {"tet4": ue.elast_tet4}.get(name) or elems.CONTINUUM[name][0]
    nat = ref.nat_nodes(name)
    perm = ctx.choose("order", list(permutations(range(len(nat)))))
    size = ctx.choose("size", [1.0, 1e-8, 1e7])
    ctx.visit(name, perm, size)
    judge(ctx, fun, name, size*nat[list(perm)])


def tets(ctx):
    pts = list(product((0., 1.), repeat=3))
    nodes = [ctx.choose("node %d" % k, pts) for k in range(4)]
    size, off = ctx.choose("size, position", [(1.0, 0.), (1e-5, 0.),
                                              (1.0, 33.3)])
    ctx.visit(nodes, size, off)
    judge(ctx, ue.elast_tet4, "tet4", size*(np.array(nodes) + off))


def hexes(ctx):
    """Hexahedra with two exchanged nodes or one moved node"""
    nat = ref.nat_nodes("hex8")
    a = ctx.choose("node", 8)
    how = ctx.choose("change", ["exchange", "move"])
    coord = nat.copy()
    if how == "exchange":
        b = ctx.choose("other node", 8)
        coord[[a, b]] = coord[[b, a]]
    else:
        move = ctx.choose("move", list(product((-2, 0, 1.5), repeat=3)))
        coord[a] += np.array(move)
    size = ctx.choose("size", [1.0, 1e-5])
    ctx.visit(coord, size)
    judge(ctx, ue.elast_hex8, "hex8", size*coord)


def flat(ctx):
    """Long and thin but valid elements are accepted"""
    name = ctx.choose("element", list(elems.CONTINUUM))
    aspect = ctx.choose("aspect ratio", [10., 1e3, 1e5])
    size = ctx.choose("size", [1e-9, 1.0, 1e9])
    turn = ctx.choose("rotation", range(len(models.ROTATIONS)))
    shear = ctx.choose("sheared", [0., 1., -1.])
    coord = ref.nat_nodes(name)*[1., 1/aspect]
    coord[:, 0] += shear*ref.nat_nodes(name)[:, 1]
    coord = size*coord @ models.ROTATIONS[turn].T
    ctx.visit(name, aspect, size, turn, shear)
    fun = elems.CONTINUUM[name][0]
    ctx.check(np.all(np.isfinite(fun(coord, (1., .3, 1.))[0])), "finite")
    ctx.raises(ValueError, lambda: fun(coord*[-1., 1.], (1., .3, 1.)),
               "mirrored element accepted")


def axisymmetric(ctx):
    nat = ref.nat_nodes("quad9")
    x0 = ctx.choose("centre", [-3., -1., -.5, 0., 1.0, 1.5, 20.])
    flip = ctx.choose("mirrored", [False, True])
    size = ctx.choose("size", [1., 1e-4, 1e4])
    coord = (nat*[-1. if flip else 1., 1.] + [x0, 0])*size
    ctx.visit(x0, flip, size)
    if flip or x0 < .7:
        ctx.raises(ValueError, lambda: ue.elast_axi_quad9(coord,
                                                          (1., .3, 1.)),
                   "element with negative radius or Jacobian accepted")
    else:
        ctx.check(np.all(np.isfinite(ue.elast_axi_quad9(
            coord, (1., .3, 1.))[0])), "finite")


def meshes(ctx):
    """A bad element anywhere in a mesh stops every workflow"""
    kind = ctx.choose("element", ["quad4", "tri3", "tri6", "quad9"])
    nx, ny = ctx.choose("mesh", [(1, 1), (2, 2), (4, 3)])
    pts, conn = models.grid(kind, nx, ny, 2., 1.)
    which = ctx.choose("bad element", range(len(conn)))
    how = ctx.choose("defect", ["clockwise", "collapsed"])
    flow = ctx.choose("workflow", ["sparse", "dense", "automatic",
                                   "automatic with strains", "strains"])
    row = conn[which]
    nc = models.CORNERS[kind]
    bad = list(row)
    if how == "clockwise":
        bad[:nc] = bad[:nc][::-1]
        if len(row) > nc:
            m = list(row[nc:2*nc])
            bad[nc:2*nc] = (m[:nc - 1][::-1] + [m[nc - 1]])
    else:
        bad = [row[0]]*len(row)
    conn = [bad if k == which else c for k, c in enumerate(conn)]
    nodes, elements = models.tables(pts, conn, models.ETYPE[kind])
    cons = np.zeros((len(pts), 2), dtype=int)
    cons[pts[:, 0] == 0] = -1
    mats = np.array([[1., .3]])
    loads = np.array([[len(pts) - 1, 1., 1.]])
    ctx.visit(kind, nx, ny, which, how, flow)
    if flow in ("sparse", "dense"):
        op, bc, neq = ass.DME(cons, elements)

        def fun():
            return ass.assembler(elements, mats, nodes, neq, op,
                                 sparse=flow == "sparse")
    elif flow == "strains":
        def fun():
            return pos.strain_nodes(nodes, elements, mats,
                                    np.ones((len(pts), 2)))
    else:
        def fun():
            return solids_auto(dict(nodes=nodes, cons=cons,
                                    elements=elements, mats=mats,
                                    loads=loads), plot_contours=False,
                               compute_strains="strains" in flow)
    ctx.raises(ValueError, fun, "bad element accepted")


def direct(ctx):
    """The guard itself, for all small integer Jacobians"""
    nd = ctx.choose("dimensions", [2, 3])
    vals = [-2., -1., 0., 1., 2.] if nd == 2 else [-1., 0., 1.]
    J = np.array([ctx.choose("j%d" % k, vals) for k in range(nd*nd)])
    J = J.reshape(nd, nd)
    det = np.round(np.linalg.det(J))
    dN = np.hstack([-np.ones((nd, 1)), np.eye(nd)])
    for size in (1.0, 1e-7, 1e6):
        coord = np.vstack([np.zeros(nd), size*J])
        if det <= 0:
            ctx.raises(ValueError, lambda: fem.jacoper(dN, coord),
                       "Jacobian accepted", J=J, size=size)
        else:
            d, inv = fem.jacoper(dN, coord)
            ctx.close(d, det*size**nd, "determinant", tol=1e-9)
            ctx.close(inv @ (size*J), np.eye(nd), "inverse", tol=1e-9)
    ctx.visit(nd, J)
    ctx.outcome(det)


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("direct", direct, "all 2x2 Jacobians over {-2..2} and 3x3 "
                                  "over {-1,0,1}, 3 sizes"),
        Harness("orders", orders, "all node orders of tri3, quad4, tet4"),
        Harness("triangles", triangles(4 if deep else 3),
                "all placements on a 3x3 (4x4) grid, 3 sizes, 2 positions"),
        Harness("quads", quads(3, [1.0, 1e-7, 1e6] if deep else [1.0, 1e-7]),
                "all placements on a 3x3 grid"),
        Harness("midsides", midsides, "single moved nodes of quadratic "
                                      "elements"),
        Harness("tetrahedra", tets, "all placements on the unit cube"),
        Harness("hexahedra", hexes, "exchanged and moved nodes"),
        Harness("thin", flat, "aspect ratios up to 1e5, "
                "angles down to 1e-5, sizes 1e-9 to 1e9"),
        Harness("axisymmetric", axisymmetric, "positions across the axis"),
        Harness("meshes", meshes, "bad element at every place of a mesh, 5 "
                                  "workflows"),
    ]
