"""C03: load vector"""
from itertools import product

import numpy as np

import solidspy.assemutil as ass
from mc.core import Harness

TITLE = "The load vector is the sum of all given loads on free DOFs"
STATEMENT = (
    "For every list of nodal loads and every restraint pattern, the entry of "
    "the right-hand side for a free degree of freedom is the sum of all the "
    "loads listed for that node and direction, in any order and however "
    "often the node is repeated. Loads on restrained degrees of freedom do "
    "not enter, degrees of freedom without load get zero, and the list is "
    "not modified.")
QUANTIFIER = dict(
    over=["inputs", "configurations"],
    text="all load lists (nodes, values, repetitions, order), restraint "
         "patterns and DOFs per node within the bounds")
WHY = ("Tests use one short list per model without repeated nodes; "
       "accumulation, order, restrained loaded nodes and number formats are "
       "not covered.")
ANCHORS = dict(
    files=["solidspy/assemutil.py"],
    mechanism=[dict(name="loadasem", where="assemutil.py")],
    observe_at=["loadasem()"])
TECHNIQUE = ("explicit-state enumeration of all load lists and restraint "
             "patterns on the real code against a counting model")
LEVEL_NOTE = "Exhaustive within the bounds (lists of up to 3 or 4 loads)."


def expect(loads, bc, neq, nd):
    out = np.zeros(neq)
    for row in loads:
        for d in range(nd):
            eq = bc[int(row[0]), d]
            if eq != -1:
                out[eq] += row[1 + d]
    return out


def lists(nodes, dims, length, values):
    def run(ctx):
        nd = ctx.choose("dofs per node", dims)
        bits = ctx.choose("restrained", 2**(nodes*nd))
        cons = np.zeros((nodes, nd), dtype=int)
        for k in range(nodes*nd):
            if bits >> k & 1:
                cons[k//nd, k % nd] = -1
        n = ctx.choose("number of loads", range(length + 1))
        rows = []
        for k in range(n):
            node = ctx.choose("node %d" % k, nodes)
            vals = ctx.choose("load %d" % k, values[nd])
            rows.append((node,) + vals)
        loads = np.array(rows, dtype=float).reshape(n, nd + 1)
        neq, bc = ass.eqcounter(cons, ndof_node=nd)
        keep_l, keep_b = loads.copy(), bc.copy()
        rhs = ass.loadasem(loads, bc, neq, ndof_node=nd)
        ctx.visit(nd, bits, rows)
        ctx.close(rhs, expect(keep_l, keep_b, neq, nd), "load vector",
                  tol=1e-14)
        ctx.same(loads, keep_l, "loads were modified")
        ctx.same(bc, keep_b, "numbering was modified")
        if nd == 2:
            ctx.same(ass.loadasem(loads, bc, neq), rhs,
                     "two DOFs per node is the default")
        ctx.outcome(rhs)
    return run


def formats(ctx):
    nd = ctx.choose("dofs per node", [1, 2, 3, 6])
    dtype = ctx.choose("dtype", ["int64", "int32", "float64", "float32",
                                 "view", "fortran"])
    mag = ctx.choose("magnitude", [1.0, 1e-12, 3e9]) \
        if dtype[0] != "i" else 3
    order = ctx.choose("order", [(0, 1, 2, 3), (3, 2, 1, 0), (2, 2, 2, 2),
                                 (0, 3, 0, 3), (1, 2, 1, 1)])
    fixed = ctx.choose("restrained node", [None, 0, 2, 3])
    cons = np.zeros((4, nd), dtype=int)
    if fixed is not None:
        cons[fixed, ::2] = -1
    table = np.array([[n] + [mag*(1 + k + 10*d) * (-1)**k for d in range(nd)]
                      for k, n in enumerate(order)])
    if dtype == "view":
        big = np.full((8, nd + 4), 99.)
        big[::2, :nd + 1] = table
        loads = big[::2, :nd + 1]
    elif dtype == "fortran":
        loads = np.asfortranarray(table)
    else:
        loads = table.astype(dtype)
    neq, bc = ass.eqcounter(cons, ndof_node=nd)
    rhs = ass.loadasem(loads, bc, neq, ndof_node=nd)
    ctx.visit(nd, dtype, mag, order, fixed)
    ctx.check(np.asarray(rhs).dtype == float, "dtype of the load vector",
              dtype=str(np.asarray(rhs).dtype))
    ctx.close(rhs, expect(loads.astype(float), bc, neq, nd), "load vector",
              tol=1e-12 if dtype != "float32" else 1e-6)


def large(sizes):
    def run(ctx):
        n = ctx.choose("nodes", sizes)
        nd = ctx.choose("dofs per node", [1, 2, 3])
        nl = ctx.choose("number of loads", [1, 7, 300, 2000])
        spread = ctx.choose("loaded nodes", ["last", "stride", "same",
                                             "backwards"])
        period = ctx.choose("restrained every", [0, 3])
        cons = np.zeros((n, nd), dtype=int)
        if period:
            cons[::period, -1] = -1
        k = np.arange(nl)
        ids = {"last": n - 1 - k % min(n, 50), "stride": (k*7919) % n,
               "same": np.full(nl, n//2),
               "backwards": (n - 1 - k) % n}[spread]
        loads = np.column_stack([ids] + [(k % 11 - 5.)*(d + 1)
                                         for d in range(nd)])
        neq, bc = ass.eqcounter(cons, ndof_node=nd)
        rhs = ass.loadasem(loads, bc, neq, ndof_node=nd)
        ctx.visit(n, nd, nl, spread, period)
        ctx.close(rhs, expect(loads, bc, neq, nd), "load vector", tol=1e-13,
                  scale=np.abs(loads[:, 1:]).sum())
    return run


V = {1: [(2.,), (-.5,), (0.,)],
     2: list(product((2., -.5, 0.), repeat=2))[:-1],
     3: [(1., -2., 4.), (0, 0, -8.), (0, 3., 0)]}
# components that cancel each other, repeat or differ by many orders
W = {1: [(2.,), (-2.,), (1e-9,), (-3e12,)],
     2: list(product((2., -2., 1., 1e-9, -3e12, 0.), repeat=2)),
     3: list(product((2., -2., -4., 0.), repeat=3))}


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("lists-1d", lists(3, (1,), 4, V),
                "3 nodes, 1 dof, all lists of up to 4 loads of 3 values"),
        Harness("lists-2d", lists(2 if not deep else 3, (2,), 3 if not deep
                                  else 2, V),
                "2 dofs, all lists of up to 3 loads of 8 values, all "
                "restraint patterns"),
        Harness("lists-3d", lists(2, (3,), 3 if not deep else 4, V),
                "2 nodes, 3 dofs, all lists of up to 3 loads of 3 values"),
        Harness("cancelling", lists(2, (1, 2, 3), 2 if deep else 1, W),
                "1 to 3 dofs, all lists of up to %d loads of components that "
                "cancel, repeat or differ in magnitude" % (2 if deep else 1)),
        Harness("cancelling pairs", lists(1, (1, 2, 3), 2, W),
                "all pairs of such loads on one node"),
        Harness("formats", formats, "dtypes, layouts, magnitudes, orders"),
        Harness("large", large([5, 120, 1001, 40000] + (
            [66000, 140000] if deep else [])), "large tables"),
    ]
