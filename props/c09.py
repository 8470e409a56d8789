"""C09: numbering of nodes, elements and materials is arbitrary"""
from itertools import permutations

import numpy as np

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol
from solidspy.solids_GUI import solids_auto
from mc import elems, elforms, models, ref
from mc.core import Harness
from props.c04 import NAMES, case
from props.c35 import LISTINGS

TITLE = "Results do not depend on node, element or material numbering"
STATEMENT = (
    "Renumbering the nodes, reordering the elements, listing the nodes of "
    "an element from another corner (or, for bars, from the other end), "
    "reordering the loads or the rows of the material table leaves the "
    "displacements, nodal strains and stresses, member stresses and energy "
    "of every physical node and member unchanged.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="all permutations of the nodes of small models, all element orders "
         "of small models, all starting corners, material and load orders")
WHY = ("Each test has one fixed numbering; a dependence on the order of "
       "nodes (connectivity not sorted, bandwidth, first element) shows "
       "only for some of the n! numberings.")
ANCHORS = dict(
    files=["solidspy/assemutil.py", "solidspy/postprocesor.py",
           "solidspy/uelutil.py"],
    mechanism=[dict(name="eqcounter, DME, assembler, loadasem",
                    where="assemutil.py"),
               dict(name="complete_disp, strain_nodes, stress_truss",
                    where="postprocesor.py")],
    observe_at=["displacements", "strain_nodes()", "stress_truss()"])
TECHNIQUE = ("explicit-state enumeration of all renumberings of a model, "
             "each executed on the real code")
LEVEL_NOTE = ("All permutations for up to 5 nodes and elements (6 in the "
              "thorough tier), structured families beyond.")


def base(name):
    """A supported and loaded model: pts, conn, types, mats ids, nd, cons,
    loads"""
    if name == "tri3 patch":
        pts = np.array([[0, 0], [2., 0], [2.2, 1.8], [0, 2], [.9, 1.1]])
        conn = [[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]]
        et, nd = [3]*4, 2
        mats = np.array([[10., .3, 2], [40., .1, 5]])
    elif name.startswith("gable"):
        # inclined members in every quadrant, types alternate
        pts = np.array([[0, 0], [-.4, 2.], [1.5, 3], [3.3, 1.7], [3., -.2]])
        conn = [[0, 1], [2, 1], [2, 3], [4, 3]]
        et = [8, 7, 8, 7] if name == "gable mixed" else [7, 8, 7, 8]
        if name == "gable frame":
            et = [8]*4
        nd, mats = 3, np.array([[200., 3, 4, 5], [500, 1, 2, 1]])
    elif name == "cantilever truss":
        pts, conn = models.triangles(5)
        et, nd, mats = [6]*len(conn), 2, np.array([[9., 2, 1], [3, 1, 1]])
    else:
        pts, conn, et, nd, mats = case(name)
        et = list(et) if np.iterable(et) else [et]*len(conn)
    nn = len(pts)
    cons = np.zeros((nn, nd), dtype=int)
    if name == "beam":
        cons[:, 0] = -1
        cons[0] = -1
    else:
        cons[0] = -1
        cons[1, :2] = -1
        if name in ("springs", "truss", "spring+truss", "cantilever truss"):
            cons[1] = [0, -1]
        if name == "mixed frame":
            cons[3] = -1
        if name.startswith("gable"):
            cons[1] = 0
            cons[4] = -1
    loads = np.array([[n] + [3. - n, .5*n + 1, 2.*n][:nd]
                      for n in range(nn)])
    return pts, conn, et, [k % 2 for k in range(len(conn))], nd, cons, \
        loads, mats


MODELS = ["tri3 patch", "cantilever truss", "gable frame", "gable mixed",
          "gable mixed 2"] + NAMES
SMALL = ["tri3 patch", "cantilever truss", "quad4", "tri3", "truss",
         "springs", "spring+truss", "frame", "beam", "mixed frame", "gable mixed"]


def analyse(m, sparse=True):
    pts, conn, et, mat, nd, cons, loads, mats = m
    nodes, elements = models.tables(pts, conn, et, mat)
    u, info = models.pipeline(ass, sol, pos, nodes, cons, elements, mats,
                              loads, nd, sparse)
    out = dict(u=u, energy=pos.energy(info["u"], info["K"]))
    if max(et) <= 4:
        out["E"], out["S"] = pos.strain_nodes(nodes, elements, mats, u)
        auto = solids_auto(dict(nodes=nodes, cons=cons, elements=elements,
                                mats=mats, loads=loads),
                           plot_contours=False, compute_strains=True)
        out["u_auto"], out["E_auto"], out["S_auto"] = auto
    if min(et) == max(et) == 6:
        out["N"] = pos.stress_truss(nodes, elements, mats, u)
    return out


_CACHE = {}
ODD = {n: elems.odd_shapes(elems.CONTINUUM[n][1])[::4]
       for n in elems.CONTINUUM}


def original(name):
    if name not in _CACHE:
        _CACHE[name] = analyse(base(name))
    return _CACHE[name]


def judge(ctx, one, two, nodes=None, els=None):
    """nodes[old] = new number, els[old] = new position"""
    for key in one:
        a, b = np.asarray(one[key]), np.asarray(two[key])
        if key == "N":
            b = b if els is None else b[els]
        elif key != "energy":
            b = b if nodes is None else b[nodes]
        ctx.close(b, a, "renumbered model: " + key, tol=1e-8,
                  scale=np.abs(a).max())


def renumber(m, perm):
    """perm[old] = new"""
    pts, conn, et, mat, nd, cons, loads, mats = m
    inv = np.argsort(perm)
    loads = loads.copy()
    loads[:, 0] = [perm[int(n)] for n in loads[:, 0]]
    return (pts[inv], [[perm[c] for c in row] for row in conn], et, mat, nd,
            cons[inv], loads, mats)


def nodes(limit):
    def run(ctx):
        name = ctx.choose("model", MODELS)
        m = base(name)
        nn = len(m[0])
        if nn <= limit:
            perms = list(permutations(range(nn)))
        else:
            perms = [[(a*k + s) % nn for k in range(nn)]
                     for a in range(1, nn) if np.gcd(a, nn) == 1
                     for s in range(nn)]
            perms += [[j if k == i else i if k == j else k
                       for k in range(nn)]
                      for i in range(nn) for j in range(i)]
        perm = ctx.choose("new numbers", perms)
        ctx.visit(name, perm)
        judge(ctx, original(name), analyse(renumber(m, perm)),
              nodes=list(perm))
        ctx.outcome(perm)
    return run


def elements(limit):
    def run(ctx):
        name = ctx.choose("model", MODELS)
        m = base(name)
        pts, conn, et, mat, nd, cons, loads, mats = m
        ne = len(conn)
        perms = list(permutations(range(ne))) if ne <= limit else [
            [(a*k + s) % ne for k in range(ne)] for a in range(1, ne)
            if np.gcd(a, ne) == 1 for s in range(ne)]
        order = ctx.choose("element order", perms)
        sparse = ctx.choose("sparse", [True, False])
        two = analyse((pts, [conn[k] for k in order],
                       [et[k] for k in order], [mat[k] for k in order], nd,
                       cons, loads, mats), sparse)
        ctx.visit(name, order, sparse)
        judge(ctx, original(name), two, els=list(np.argsort(order)))
    return run


def turn(etype, row, k):
    """The same element listed from its k-th corner"""
    n = {1: 4, 4: 4, 2: 3, 3: 3}.get(etype, 2)
    k %= n
    out = row[k:n] + row[:k]
    if etype in (2, 4):
        out = out + row[n + k:2*n] + row[n:n + k] + row[2*n:]
    return out


def corners(ctx):
    name = ctx.choose("model", MODELS)
    pts, conn, et, mat, nd, cons, loads, mats = base(name)
    turns = [ctx.choose("start of element %d" % k,
                        {1: 4, 4: 4, 2: 3, 3: 3}.get(t, 2))
             for k, t in enumerate(et)]
    new = [turn(t, list(row), k) for t, row, k in zip(et, conn, turns)]
    two = analyse((pts, new, et, mat, nd, cons, loads, mats))
    ctx.visit(name, turns)
    one = original(name)
    judge(ctx, one, two)


def tables(ctx):
    name = ctx.choose("model", MODELS)
    pts, conn, et, mat, nd, cons, loads, mats = base(name)
    ids = ctx.choose("material rows", list(permutations(range(4), 2)))
    table = np.tile(np.array([1e3, 1e3, 1e3, 1e3])[:mats.shape[1]], (4, 1))
    if max(et) <= 4:
        table[:, 1] = .45
    for k, i in enumerate(ids):
        table[i] = mats[k]
    order = ctx.choose("load order", ["same", "reversed", "odd first",
                                      "split"])
    if order == "reversed":
        loads = loads[::-1]
    elif order == "odd first":
        loads = np.vstack([loads[1::2], loads[::2]])
    elif order == "split":
        half = loads.copy()
        half[:, 1:] *= .25
        rest = loads.copy()
        rest[:, 1:] *= .75
        loads = np.vstack([half, rest[::-1]])
    two = analyse((pts, conn, et, [ids[k] for k in mat], nd, cons, loads,
                   table))
    ctx.visit(name, ids, order)
    judge(ctx, original(name), two)


def labels(ctx):
    """Identifiers in the first column, materials far down a long table"""
    name = ctx.choose("model", MODELS)
    ids = ctx.choose("identifiers", ["rows", "from one", "backwards",
                                     "equal", "large", "negative"])
    rows = ctx.choose("rows of the material table", [2, 3, 11, 40, 300])
    place = ctx.choose("rows used", ["last", "first and last", "middle"])
    pts, conn, et, mat, nd, cons, loads, mats = base(name)
    used = {"last": (rows - 1, rows - 2), "middle": (rows//2, rows//2 - 1),
            "first and last": (0, rows - 1)}[place]
    table = np.array([[77. + k, .1, 3., 2., 1.][:mats.shape[1]]
                      for k in range(rows)])
    table[list(used)] = mats[:2]
    nodes_, elems_ = models.tables(pts, conn, et, [used[k] for k in mat])
    n = len(elems_)
    elems_[:, 0] = {"rows": np.arange(n), "from one": np.arange(n) + 1,
                    "backwards": np.arange(n)[::-1], "equal": np.full(n, 3),
                    "large": 70000 + 3*np.arange(n),
                    "negative": -1 - np.arange(n)}[ids]
    u, info = models.pipeline(ass, sol, pos, nodes_, cons, elems_, table,
                              loads, nd, rows % 2 == 0)
    out = dict(u=u, energy=pos.energy(info["u"], info["K"]))
    if max(et) <= 4:
        out["E"], out["S"] = pos.strain_nodes(nodes_, elems_, table, u)
        out["u_auto"], out["E_auto"], out["S_auto"] = solids_auto(
            dict(nodes=nodes_, cons=cons, elements=elems_, mats=table,
                 loads=loads), plot_contours=False, compute_strains=True)
    if min(et) == max(et) == 6:
        out["N"] = pos.stress_truss(nodes_, elems_, table, u)
    ctx.visit(name, ids, rows, place)
    judge(ctx, original(name), out)


def listing(ctx):
    """Element matrices for every listing of the nodes"""
    name = ctx.choose("element", list(elems.CONTINUUM) + list(elems.LINE) +
                      ["axi9", "tet4", "hex8"])
    size = ctx.choose("size", [1., 1e-5])
    nd = 2
    if name in elems.CONTINUUM:
        fun, kind = elems.CONTINUUM[name][:2]
        label, coord = ctx.choose("shape", ODD[name])
        n = 3 if kind.startswith("tri") else 4
        par = (3., .3, 2.)
    elif name == "axi9":
        fun, n, par = elems.AXI[name][0], 4, (3., .3, 2.)
        label, coord = ctx.choose("section", elforms.revolved())
    elif name in elems.SOLID:
        fun, par, nd = elems.SOLID[name][0], (3., .3, 2.), 3
        label, coord = ctx.choose("shape", elforms.shapes3d(name))
        n = 0
    else:
        fun = elems.LINE[name][0]
        par = {"spring": (4.,), "truss": (4., 2., 3.),
               "beamDU": (4., 2., 3., 5.), "beam": (4., 2., 3., 5.)}[name]
        k = ctx.choose("axis", range(36))
        label = k
        a = [k*np.pi/16 if k < 32 else (1e-6, np.pi/2 + 1e-6, np.pi - 1e-6,
                                        1.5*np.pi + 1e-6)[k - 32]][0]
        coord = np.array([[3., -1], [3 + 2*np.cos(a), -1 + 2*np.sin(a)]])
        nd = 2 if name in ("spring", "truss") else 3
        n = 2
    coord = coord*size
    if name in elems.SOLID:
        perm = ctx.choose("listing", LISTINGS[name])
    else:
        k = ctx.choose("first corner", range(1, n))
        loop = list(range(k, n)) + list(range(k))
        perm = loop + [n + c for c in loop if len(coord) > n]
        perm += [8]*(len(coord) == 9)
    perm = list(perm)
    ctx.visit(name, label, size, perm)
    dof = np.ravel([[p*nd + d for d in range(nd)] for p in perm])
    K, M = map(np.asarray, fun(coord, par))
    K2, M2 = map(np.asarray, fun(coord[perm], par))
    pick = np.ix_(dof, dof)
    thin = 1e-10
    if name in elems.CONTINUUM:
        thin *= max(np.linalg.cond(ref.shape(kind, p)[1] @ coord)
                    for p in ref.rule(kind)[0])
    ctx.close(K2, K[pick], "stiffness of the other listing",
              tol=max(1e-9, thin))
    ctx.close(M2, M[pick], "mass of the other listing", tol=max(1e-9, thin),
              scale=np.abs(M).max() + 1e-300)


def orphans(ctx):
    """Restrained nodes without elements can be inserted anywhere"""
    name = ctx.choose("model", SMALL)
    m = base(name)
    nn = len(m[0])
    at = ctx.choose("position", nn + 1)
    count = ctx.choose("how many", [1, 3])
    pts, conn, et, mat, nd, cons, loads, mats = m
    perm = [k if k < at else k + count for k in range(nn)]
    pts = np.insert(pts, [at]*count, [[50., 60.]], axis=0)
    cons = np.insert(cons, [at]*count, -np.ones((1, nd), int), axis=0)
    conn = [[perm[c] for c in row] for row in conn]
    loads = loads.copy()
    loads[:, 0] = [perm[int(n)] for n in loads[:, 0]]
    two = analyse((pts, conn, et, mat, nd, cons, loads, mats))
    ctx.visit(name, at, count)
    judge(ctx, original(name), two, nodes=perm)


def large(sizes):
    def run(ctx):
        kind = ctx.choose("element", ["quad4", "tri3", "tri6", "quad9"])
        nx, ny = ctx.choose("mesh", sizes)
        how = ctx.choose("numbering", ["reversed", "stride", "by columns"])
        pts, conn = models.grid(kind, nx, ny, float(nx), float(ny))
        nn = len(pts)
        cons = np.zeros((nn, 2), dtype=int)
        cons[pts[:, 0] == 0] = -1
        loads = np.column_stack([np.arange(nn), np.cos(np.arange(nn)),
                                 np.sin(2.*np.arange(nn))])
        mats = np.array([[10., .3, 2], [40., .1, 5]])
        et = [models.ETYPE[kind]]*len(conn)
        m = (models.smooth(pts/nx, .1), conn, et,
             [k % 2 for k in range(len(conn))], 2, cons, loads, mats)
        if how == "reversed":
            perm = list(range(nn))[::-1]
        elif how == "stride":
            a = next(a for a in (7, 11, 13) if np.gcd(a, nn) == 1)
            perm = [(a*k + 3) % nn for k in range(nn)]
        else:
            perm = np.argsort(np.lexsort((pts[:, 1], pts[:, 0]))).tolist()
        two = renumber(m, perm)
        back = len(conn) > 3
        two = list(two)
        if back:
            for k in (1, 2, 3):
                two[k] = two[k][::-1]
        ctx.visit(kind, nx, ny, how)
        judge(ctx, analyse(m), analyse(tuple(two)), nodes=perm)
    return run


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("nodes", nodes(6 if deep else 5),
                "all node permutations for up to %d nodes, all affine "
                "renumberings and transpositions beyond" % (
                    6 if deep else 5)),
        Harness("elements", elements(6 if deep else 5),
                "all element orders up to %d elements" % (6 if deep else 5)),
        Harness("corners", corners, "all combinations of starting corners "
                                    "or ends of all elements"),
        Harness("tables", tables, "all placements of the material rows, "
                                  "load orders and splits"),
        Harness("labels", labels, "identifiers of the elements, tables of up to "
                "300 materials"),
        Harness("listing", listing, "matrices of 12 elements x shapes or "
                "axes x all listings of the nodes"),
        Harness("orphans", orphans, "inserted restrained nodes"),
        Harness("large", large([(5, 4), (12, 8)] + (
            [(20, 15)] if deep else [])), "larger meshes"),
    ]
