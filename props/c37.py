"""C37: edited models"""
import numpy as np

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol
from solidspy.solids_GUI import solids_auto
from mc import models, ref
from mc.core import Harness

TITLE = "After every edit of a model, analyses follow the model as it is"
STATEMENT = (
    "For every history of edits of a model, made in place or with new "
    "tables (supports, loads, materials, coordinates, elements, order of "
    "the rows), each analysis gives the displacements, strains and stresses "
    "of the model as it is at that moment, the same as for a model built "
    "anew, whichever entry point is used. Analyses do not edit the model, "
    "and results obtained earlier keep their values.")
QUANTIFIER = dict(
    over=["histories"],
    text="all sequences of edits up to a depth, starting from three models, "
         "with an analysis after every edit")
WHY = ("Tests analyse each model once; stale numbering, cached matrices or "
       "results that alias the model need an edit between two analyses.")
ANCHORS = dict(
    files=["solidspy/solids_GUI.py", "solidspy/assemutil.py",
           "solidspy/postprocesor.py", "solidspy/solutil.py"],
    mechanism=[dict(name="solids_auto", where="solids_GUI.py"),
               dict(name="DME, assembler, loadasem", where="assemutil.py"),
               dict(name="complete_disp, strain_nodes, stress_truss",
                    where="postprocesor.py")],
    observe_at=["results after every edit"])
TECHNIQUE = ("explicit-state exploration of all edit histories up to a "
             "depth, with the reference model evaluated in every state")
LEVEL_NOTE = "Exhaustive up to the stated depth; tolerance 1e-7."


def start(name):
    if name == "truss":
        pts, conn = models.triangles(5)
        pts = pts*[2., 1.5]
        mats = np.array([[200., 3.], [500., 1.]])
        et = 6
    else:
        pts, conn = models.grid(name, 2, 1, 2.0, 1.0)
        pts = models.smooth(pts, .05)
        mats = np.array([[100., .3], [250., .2]])
        et = models.ETYPE[name]
    nodes, elements = models.tables(pts, conn, et,
                                    [k % 2 for k in range(len(conn))])
    cons = np.zeros((len(pts), 2), dtype=int)
    cons[0] = -1
    cons[1, 1] = -1
    cons[len(pts) - 1, 0] = -1
    loads = np.array([[1, 2., 0.], [2, 0., -3.]])
    return dict(nodes=nodes, cons=cons, elements=elements, mats=mats,
                loads=loads)


EDITS = ["support", "release", "load", "add load", "modulus", "second "
         "material", "move", "drop element", "reverse rows", "new arrays",
         "solve in steps", "last modulus", "exchange", "shift support"]


def edit(d, op, count):
    """Change the model; most edits are in place"""
    n = len(d["nodes"])
    if op == "support":
        free = np.flatnonzero(d["cons"].ravel() == 0)
        if len(free) > 2:
            d["cons"].flat[free[(3*count + 1) % len(free)]] = -1
    elif op == "release":
        used = np.flatnonzero(d["cons"].ravel() != 0)
        if len(used) > 3:
            d["cons"].flat[used[(2*count + 1) % len(used)]] = 0
    elif op == "load":
        d["loads"][0, 1:] = [-1. - count, 4.]
    elif op == "add load":
        d["loads"] = np.vstack([d["loads"], [[(count + 2) % n, 1., 2.]]])
    elif op == "modulus":
        d["mats"][0, 0] *= 1.5
    elif op == "last modulus":
        d["mats"][-1] *= [.8, .9]
    elif op == "exchange":             # every total remains
        k, q = (count + 1) % n, (2*count + 3) % n
        d["mats"][:] = d["mats"][::-1].copy()
        d["loads"][[0, 1], 0] = d["loads"][[1, 0], 0]
        if d["elements"][0, 1] in (1, 3, 6):
            delta = np.array([.02, -.03])*(d["nodes"][0, 1] + 1)
            d["nodes"][k, 1:] += delta
            d["nodes"][q, 1:] -= delta
    elif op == "shift support":
        used = np.flatnonzero(d["cons"][:, 0] != d["cons"][:, 1])
        if len(used):
            i = used[count % len(used)]
            d["cons"][i] = d["cons"][i, ::-1].copy()
    elif op == "second material":
        d["elements"][0, 2] = 1 - d["elements"][0, 2]
    elif op == "move":
        d["nodes"][(count + 2) % n, 1:] += [.03, -.02]
    elif op == "drop element":
        if len(d["elements"]) > len(d["nodes"]) and d["elements"][0, 1] == 6:
            d["elements"] = d["elements"][:-1]
        elif d["elements"][0, 1] != 6:
            d["elements"] = np.vstack([d["elements"], d["elements"][:1]])
            d["elements"][:, 0] = np.arange(len(d["elements"]))
    elif op == "reverse rows":
        d["elements"][:, 1:] = d["elements"][::-1, 1:].copy()
        d["loads"][:] = d["loads"][::-1].copy()
    elif op == "new arrays":
        for k in d:
            d[k] = d[k].copy()


def regular(d):
    K, _ = ref.full_matrices(d["nodes"], d["elements"], d["mats"])
    free = np.flatnonzero(d["cons"].ravel() == 0)
    kff = K[np.ix_(free, free)]
    return np.linalg.cond(kff) < 1e7


def analyse(d, steps):
    cont = d["elements"][0, 1] != 6
    if not steps:
        out = solids_auto(d, plot_contours=False,
                          compute_strains=bool(cont))
        if not cont:
            out = (out, pos.stress_truss(d["nodes"], d["elements"],
                                         d["mats"], out))
        return out
    op, bc, neq = ass.DME(d["cons"], d["elements"])
    K, _ = ass.assembler(d["elements"], d["mats"], d["nodes"], neq, op,
                         sparse=False)
    u = sol.static_sol(K, ass.loadasem(d["loads"], bc, neq))
    full = pos.complete_disp(bc, d["nodes"], u)
    if cont:
        return (full,) + tuple(pos.strain_nodes(d["nodes"], d["elements"],
                                                d["mats"], full))
    return full, pos.stress_truss(d["nodes"], d["elements"], d["mats"], full)


def expected(d):
    u = ref.solve(d["nodes"], d["cons"], d["elements"], d["mats"],
                  d["loads"])[0]
    if d["elements"][0, 1] != 6:
        return (u,) + tuple(ref.nodal_fields(d["nodes"], d["elements"],
                                             d["mats"], u))
    s = []
    for e in d["elements"]:
        v = d["nodes"][e[4], 1:3] - d["nodes"][e[3], 1:3]
        s.append(d["mats"][e[2], 0]*np.dot(u[e[4]] - u[e[3]], v)
                 / np.dot(v, v))
    return u, np.array(s)


def freeze(d):
    return {k: (v.dtype.str, v.shape, v.tobytes()) for k, v in d.items()}


def histories(depth, names, edits):
    def run(ctx):
        name = ctx.choose("model", names)
        d = start(name)
        old = []
        history = []
        steps = False
        for count in range(depth + 1):
            if count:
                op = ctx.choose("edit", edits)
                history.append(op)
                steps = op == "solve in steps"
                edit(d, op, count)
            state = freeze(d)
            ctx.visit(name, sorted(state.items()), steps)
            if not regular(d):
                ctx.require(count < depth)
                continue
            got = analyse(d, steps)
            want = expected(d)
            ctx.check(freeze(d) == state, "the analysis edited the model",
                      history=history)
            for k, (a, b) in enumerate(zip(got, want)):
                ctx.close(a, b, ("displacements", "strains", "stresses")[k],
                          tol=1e-7, history=history)
            for res, copies in old:
                for a, b in zip(res, copies):
                    ctx.check(np.array_equal(a, b), "an earlier result "
                              "changed", history=history)
            old.append((got, [np.array(a) for a in got]))
            ctx.count("analyses")
        ctx.outcome(got[0])
    return run


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("short", histories(3, ["truss", "quad4", "tri6", "quad9",
                                       "tri3"] if deep else
                                   ["truss", "quad4", "tri6"], EDITS),
                "%d models x all sequences of 3 edits out of %d" %
                (5 if deep else 3, len(EDITS))),
        Harness("long", histories(5 if deep else 4, ["truss", "tri3"],
                                  EDITS[:7]),
                "2 models x all sequences of %d edits" % (5 if deep else 4)),
    ]
