"""C01: equation numbering and assembly operator"""
from itertools import permutations

import numpy as np

import solidspy.assemutil as ass
from mc.core import Harness

TITLE = "Equation numbering is a bijection between free DOFs and equations"
STATEMENT = (
    "For every restraint table (0 free, -1 restrained), any number of nodes "
    "and of degrees of freedom per node, the free degrees of freedom get the "
    "equation numbers 0..neq-1, each exactly once, the restrained ones get "
    "-1, and neq is the number of free degrees of freedom. The assembly "
    "operator lists for each element, in the order of its nodes, the "
    "numbers of the degrees of freedom of those nodes, for built-in and user "
    "elements alike. The tables given are not modified.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="all restraint patterns, nodes, DOFs per node, connectivities "
         "(any order, shared nodes) and element types, up to the bounds")
WHY = ("Tests number two or three hand-written meshes; a numbering that is "
       "wrong for one pattern of restraints, an unusual connectivity, three "
       "DOFs per node or large tables passes them.")
ANCHORS = dict(
    files=["solidspy/assemutil.py", "solidspy/femutil.py"],
    state=[dict(name="bc_array", meaning="equation of every nodal DOF",
                where="assemutil.eqcounter"),
           dict(name="assem_op", meaning="equations of every element",
                where="assemutil.DME")],
    mechanism=[dict(name="eqcounter", where="assemutil.py"),
               dict(name="DME", where="assemutil.py"),
               dict(name="eletype", where="femutil.py")],
    observe_at=["eqcounter()", "DME()"])
TECHNIQUE = ("explicit-state enumeration of all restraint patterns and "
             "connectivities, each executed on the real code")
LEVEL_NOTE = ("Exhaustive within the stated bounds; larger tables only for "
              "periodic restraint patterns.")


def as_dtype(ctx, table):
    kind = ctx.choose("cons dtype", ["int64", "float64", "int8", "view",
                                     "fortran", "readonly"])
    table = np.asarray(table)
    if kind == "view":
        big = np.full((table.shape[0], table.shape[1] + 3), 7.5)
        big[:, -table.shape[1]:] = table
        return big[:, -table.shape[1]:]
    if kind == "fortran":
        return np.asfortranarray(table.astype(float))
    if kind == "readonly":
        table = table.astype(int)
        table.setflags(write=False)
        return table
    return table.astype(kind)


def judge_numbering(ctx, cons, neq, bc):
    ctx.check(np.shape(bc) == np.shape(cons), "shape of the numbering",
              got=np.shape(bc))
    bc = np.asarray(bc)
    ctx.check(bc.dtype.kind in "iu", "equation numbers must be integers",
              dtype=str(bc.dtype))
    free = np.asarray(cons) == 0
    ctx.check(int(neq) == int(free.sum()), "number of equations",
              neq=neq, free=int(free.sum()))
    ctx.same(np.sort(bc[free]), np.arange(int(free.sum())),
             "free DOFs and equations are not in bijection", cons=cons,
             bc=bc)
    ctx.check(np.all(bc[~free] == -1), "restrained DOF with an equation",
              cons=cons, bc=bc)


def patterns(limit):
    shapes = [(n, d) for d in (1, 2, 3, 6) for n in range(1, 9)
              if n*d <= limit]

    def run(ctx):
        nn, nd = ctx.choose("nodes x dofs", shapes)
        cons = np.zeros((nn, nd), dtype=int)
        bits = ctx.choose("restrained (bit mask)", 2**(nn*nd))
        for k in range(nn*nd):
            if bits >> k & 1:
                cons[k//nd, k % nd] = -1
        table = as_dtype(ctx, cons)
        before = table.copy()
        neq, bc = ass.eqcounter(table, ndof_node=nd)
        ctx.visit(nn, nd, cons)
        judge_numbering(ctx, cons, neq, bc)
        ctx.same(table, before, "restraints were modified")
        ctx.check(not np.shares_memory(bc, table),
                  "numbering aliases the restraints")
        if nd == 2:
            neq2, bc2 = ass.eqcounter(table)
            ctx.check(neq2 == neq, "two DOFs per node is the default")
            ctx.same(bc2, bc, "two DOFs per node is the default")
        ctx.outcome(neq, bc)
    return run


# type: (nodes, dofs per node)
BUILTIN = {1: (4, 2), 2: (6, 2), 3: (3, 2), 4: (9, 2), 5: (2, 2), 6: (2, 2),
           7: (2, 3), 8: (2, 3)}


def judge_operator(ctx, cons, elements, nd, op, bc, neq):
    judge_numbering(ctx, cons, neq, bc)
    ctx.check(len(op) == len(elements), "a row per element", got=np.shape(op))
    for row, el in zip(op, elements):
        want = [bc[n, d] for n in el[3:] for d in range(nd)]
        ctx.same(row[:len(want)], want, "row of the assembly operator",
                 element=el, bc=bc)


def builtin(deep):
    def run(ctx):
        et = ctx.choose("element type", sorted(BUILTIN))
        nnel, nd = BUILTIN[et]
        nn = nnel + 1
        # two elements: the first with every rotation/permutation of its
        # nodes, the second shares some of them
        if nnel <= 3:
            perms = list(permutations(range(nn), nnel))
        else:
            perms = [[(k*m + s) % nn for k in range(nnel)]
                     for s in range(nn) for m in (1, nn - 1)]
        c1 = ctx.choose("connectivity 1", perms)
        c2 = ctx.choose("connectivity 2", perms if nnel <= 2 or deep
                        else perms[::3])
        extra = ctx.choose("orphan nodes", [0, 2])
        tot = nn + extra
        single = [(k,) for k in range(tot*nd)]
        pats = [(), tuple(range(tot*nd))] + single
        pats += [tuple(k for k in range(tot*nd) if k != j)
                 for j in range(tot*nd)]
        pats += [tuple(range(j, tot*nd, nd)) for j in range(nd)]
        if nnel <= 2 and deep:
            pats = [tuple(k for k in range(tot*nd) if b >> k & 1)
                    for b in range(2**(nn*nd))]
        pat = ctx.choose("restrained", pats)
        cons = np.zeros((tot, nd), dtype=int)
        cons.flat[list(pat)] = -1
        elements = np.array([[0, et, 0, *c1], [1, et, 3, *c2]])
        keep_c, keep_e = cons.copy(), elements.copy()
        kw = {} if nd == 2 else dict(ndof_node=nd)
        op, bc, neq = ass.DME(cons, elements, **kw)
        ctx.visit(et, c1, c2, pat, extra)
        judge_operator(ctx, keep_c, keep_e, nd, op, bc, neq)
        ctx.same(cons, keep_c, "restraints were modified")
        ctx.same(elements, keep_e, "elements were modified")
        ctx.outcome(op, neq)
    return run


def user(ctx):
    nd = ctx.choose("dofs per node", [1, 2, 3, 4, 6])
    nnel = ctx.choose("nodes per element", [1, 2, 3, 4, 8, 20])
    et = ctx.choose("element type", [1, 8, 0, 9, 57])
    nn = nnel + ctx.choose("extra nodes", [0, 3])
    step = ctx.choose("stride", [1, -1, 2])
    start = ctx.choose("first node", [0, 1, nn - 1])
    if step == 2 and nn % 2 == 0:
        ctx.require(False)
    conn = [(start + step*k) % nn for k in range(nnel)]
    pat = ctx.choose("restrained", ["none", "first", "last", "even", "odd",
                                    "node", "all but one"])
    tot = nn*nd
    cons = np.zeros((nn, nd), dtype=int)
    idx = {"none": [], "first": [0], "last": [tot - 1],
           "even": range(0, tot, 2), "odd": range(1, tot, 2),
           "node": range(nd), "all but one": range(1, tot)}[pat]
    cons.flat[list(idx)] = -1
    width = nnel*nd
    maxw = ctx.choose("room", [0, 5])
    calls = []

    def ndof_el(iet):
        calls.append(iet)
        return width
    elements = np.array([[0, et, 0, *conn], [1, et, 1, *conn[::-1]],
                         [2, et, 0, *conn]])
    if ctx.choose("elements", [3, 1]) == 1:
        elements = elements[1:2]
    if maxw == 0 and nnel < 20:
        cons = as_dtype(ctx, cons)
    op, bc, neq = ass.DME(cons, elements, ndof_node=nd,
                          ndof_el_max=max(width + maxw, 1), ndof_el=ndof_el)
    ctx.visit(nd, nnel, et, conn, pat)
    judge_operator(ctx, cons, elements, nd, op, bc, neq)
    ctx.outcome(op, neq)


def mixed(ctx):
    """Different element types in one table, user element with a number of
    DOFs that depends on the type"""
    pair = ctx.choose("types", [(5, 6), (6, 5), (7, 8), (8, 7)])
    nd = BUILTIN[pair[0]][1]
    conns = [(a, b) for a in range(4) for b in range(4) if a != b]
    c1 = ctx.choose("connectivity 1", conns)
    c2 = ctx.choose("connectivity 2", conns)
    first = ctx.choose("restrained node", [None, 0, 1, 2, 3])
    cons = np.zeros((4, nd), dtype=int)
    if first is not None:
        cons[first] = -1
    elements = np.array([[0, pair[0], 0, *c1], [1, pair[1], 0, *c2]])
    lay = ctx.choose("element table", ["C", "Fortran", "view", "one"])
    cons = as_dtype(ctx, cons)
    if lay == "Fortran":
        elements = np.asfortranarray(elements)
    elif lay == "view":
        elements = np.repeat(elements, 2, axis=0)[::2]
    elif lay == "one":
        elements = elements[1:]
    op, bc, neq = ass.DME(cons, elements, ndof_node=nd)
    ctx.visit(pair, c1, c2, first)
    judge_operator(ctx, cons, elements, nd, op, bc, neq)


def fans(ctx):
    """Nodes shared by many elements, elements listed in any order"""
    et = ctx.choose("element type", [3, 6, 8, 1])
    nnel, nd = BUILTIN[et]
    many = ctx.choose("elements at the hub", [5, 6, 7, 8, 9, 17, 130, 260])
    slot = ctx.choose("place of the hub", range(nnel))
    hub = ctx.choose("hub", ["first", "last", "middle"])
    order = ctx.choose("order", ["natural", "reversed", "strided"])
    pat = ctx.choose("restrained", ["none", "hub", "rim", "alternate",
                                    "hub in one direction"])
    nn = (nnel - 1)*many + 1 if et == 1 else many + 2
    h = {"first": 0, "last": nn - 1, "middle": nn//2}[hub]
    rest = [k for k in range(nn) if k != h]
    conn = []
    for k in range(many):
        c = [rest[(k + j if et != 1 else k*(nnel - 1) + j) % len(rest)]
             for j in range(nnel - 1)]
        conn.append(c[:slot] + [h] + c[slot:])
    if order == "reversed":
        conn = conn[::-1]
    elif order == "strided":
        conn = conn[::2] + conn[1::2]
    cons = np.zeros((nn, nd), dtype=int)
    if pat == "hub":
        cons[h] = -1
    elif pat == "rim":
        cons[rest] = -1
    elif pat == "alternate":
        cons.flat[::2] = -1
    elif pat == "hub in one direction":
        cons[h, nd - 1] = -1
    elements = np.array([[k, et, k % 3, *c] for k, c in enumerate(conn)])
    keep_c, keep_e = cons.copy(), elements.copy()
    kw = {} if nd == 2 else dict(ndof_node=nd)
    op, bc, neq = ass.DME(cons, elements, **kw)
    ctx.visit(et, many, slot, hub, order, pat)
    judge_operator(ctx, keep_c, keep_e, nd, op, bc, neq)
    ctx.same(cons, keep_c, "restraints were modified")
    ctx.same(elements, keep_e, "elements were modified")


def large(sizes):
    def run(ctx):
        nn = ctx.choose("nodes", sizes)
        nd = ctx.choose("dofs per node", [1, 2, 3])
        period = ctx.choose("period of the restraints", [1, 2, 7, 97])
        phase = ctx.choose("phase", [0, period - 1] if period > 1 else [0])
        inverse = ctx.choose("restrained or free", [0, 1])
        ctx.require(not (period == 1 and inverse == 0 and nn > 300))
        cons = np.zeros((nn, nd), dtype=int)
        cons[phase::period] = -1
        if inverse:
            cons = -1 - cons
        nels = min(nn, ctx.choose("elements", [300] if nn < 1000 else
                                  [300, 9000]))
        first = np.arange(nn - nels, nn)
        elements = np.column_stack([np.arange(nels), np.full(nels, 6),
                                    np.zeros(nels, int), first,
                                    nn - 1 - first])
        op, bc, neq = ass.DME(cons, elements, ndof_node=nd,
                              ndof_el=lambda t: 2*nd)
        ctx.visit(nn, nd, period, phase, inverse)
        judge_operator(ctx, cons, elements, nd, op, bc, neq)
    return run


def harnesses(tier):
    deep = tier == "thorough"
    lim = 16 if deep else 12
    return [
        Harness("patterns", patterns(lim),
                "all restraint patterns of nodes x dofs <= %d, dofs 1,2,3,6, "
                "6 layouts of the table" % lim),
        Harness("builtin", builtin(deep),
                "element types 1-8, two elements sharing nodes, node orders, "
                "restraints: none/all/each/all but each/each direction"
                + (", all patterns for two-noded" if deep else "")),
        Harness("user", user, "user elements: 1-20 nodes, 1-6 dofs per node"),
        Harness("mixed", mixed, "two types in a table, all connectivities of "
                                "two elements on four nodes"),
        Harness("fans", fans, "nodes shared by 5 to 260 elements of 4 types, "
                              "any place in the element, orders, restraints"),
        Harness("large", large([10, 300, 1000, 33000] + (
            [66000, 140000] if deep else [])),
            "tables of up to %d nodes, periodic restraints" % (
                140000 if deep else 33000)),
    ]
