"""C10: linearity and physical units"""
from itertools import combinations

import numpy as np

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol
from solidspy.solids_GUI import solids_auto
from mc import models
from mc.core import Harness
from props.c09 import MODELS, base

TITLE = "Responses are linear in the loads and independent of the units"
STATEMENT = (
    "Displacements, strains, stresses and member stresses are linear in the "
    "loads: they superpose, scale with the loads by any factor and vanish "
    "without loads. Expressing a model in other units of length and force "
    "gives the same results in those units, from micrometres to "
    "kilometres and from newtons to giganewtons; scaling all moduli divides "
    "the displacements and leaves the stresses unchanged.")
QUANTIFIER = dict(
    over=["inputs"],
    text="all pairs of unit loads of models of every element type, load "
         "factors of both signs, units of length and force, moduli")
WHY = ("Tests use numbers of order one; thresholds, absolute tolerances, "
       "integer truncation and sign-dependent branches only show for other "
       "magnitudes or combinations of loads.")
ANCHORS = dict(
    files=["solidspy/assemutil.py", "solidspy/femutil.py",
           "solidspy/uelutil.py", "solidspy/postprocesor.py",
           "solidspy/solids_GUI.py"],
    mechanism=[dict(name="assembler, loadasem", where="assemutil.py"),
               dict(name="jacoper", where="femutil.py"),
               dict(name="strain_nodes, stress_truss",
                    where="postprocesor.py")],
    observe_at=["displacements", "strain_nodes()", "stress_truss()"])
TECHNIQUE = ("explicit-state enumeration of related pairs and triples of "
             "analyses (metamorphic relations) on the real code")
LEVEL_NOTE = "Exhaustive over the stated models, load pairs and factors."


def run_model(m, loads, auto):
    pts, conn, et, mat, nd, cons, _, mats = m
    nodes, elements = models.tables(pts, conn, et, mat)
    out = {}
    if auto and nd == 2:
        data = dict(nodes=nodes, cons=cons, elements=elements, mats=mats,
                    loads=loads)
        if max(et) <= 4:
            out["u"], out["E"], out["S"] = solids_auto(
                data, plot_contours=False, compute_strains=True)
        else:
            out["u"] = solids_auto(data, plot_contours=False)
    else:
        out["u"], _ = models.pipeline(ass, sol, pos, nodes, cons, elements,
                                      mats, loads, nd, sparse=bool(auto))
        if max(et) <= 4:
            out["E"], out["S"] = pos.strain_nodes(nodes, elements, mats,
                                                  out["u"])
    if min(et) == max(et) == 6:
        out["N"] = pos.stress_truss(nodes, elements, mats, out["u"])
    return out


def unit(m, dof):
    nd = m[4]
    row = np.zeros((1, nd + 1))
    row[0, 0] = dof//nd
    row[0, 1 + dof % nd] = 1.0
    return row


def combine(ctx, got, parts, factors, msg):
    for key in got:
        want = sum(a*np.asarray(p[key]) for a, p in zip(factors, parts))
        scale = max(np.abs(a*np.asarray(p[key])).max()
                    for a, p in zip(factors, parts))
        ctx.close(got[key], want, msg + ": " + key, tol=1e-9,
                  scale=max(scale, 1e-280))


def superpose(deep):
    def run(ctx):
        name = ctx.choose("model", MODELS)
        m = base(name)
        total = m[5].size
        pairs = list(combinations(range(total), 2))
        if not deep and len(pairs) > 60:
            pairs = [p for p in pairs if (p[0] + 2*p[1]) % 3 == 0]
        i, j = ctx.choose("loaded DOFs", pairs)
        a, b = ctx.choose("factors", [(1., 1.), (-2.5, 1e3), (1e-6, 3.)])
        auto = ctx.choose("automatic", [True, False])
        one = run_model(m, unit(m, i), auto)
        two = run_model(m, unit(m, j), auto)
        la, lb = unit(m, i), unit(m, j)
        la[:, 1:] *= a
        lb[:, 1:] *= b
        both = run_model(m, np.vstack([la, lb]), auto)
        ctx.visit(name, i, j, a, b)
        combine(ctx, both, (one, two), (a, b), "superposition")
        ctx.outcome(both["u"])
    return run


def factors(ctx):
    name = ctx.choose("model", MODELS)
    m = base(name)
    fac = ctx.choose("factor", [-1., 0., 2., 1e-9, -1e-5, 1e7, 1e12])
    auto = ctx.choose("automatic", [True, False])
    dtype = ctx.choose("loads", ["float", "int"])
    loads = m[6].copy()
    loads[:, 1:] = np.round(4*loads[:, 1:])
    one = run_model(m, loads, auto)
    more = loads.copy()
    more[:, 1:] *= fac
    if dtype == "int":
        ctx.require(fac in (-1., 0., 2., 1e7))
        more = more.astype(int)
    two = run_model(m, more, auto)
    ctx.visit(name, fac, auto, dtype)
    combine(ctx, two, (one,), (fac,), "load factor")
    if fac == 0:
        ctx.check(np.all(two["u"] == 0), "displacements without load")


def convert(m, c, p):
    """Lengths times c and forces times p: new model and factors of the
    results"""
    pts, conn, et, mat, nd, cons, loads, mats = m
    mats = mats.copy()
    loads = loads.copy()
    kinds = set(et)
    if max(kinds) <= 4:
        # loads per unit thickness: the modulus is E*thickness per length
        mats[:, 0] *= p/c**2
        loads[:, 1:] *= p/c
        fac = dict(u=c, E=1., S=p/c**2)
    elif kinds <= {5}:
        mats[:, 0] *= p/c
        loads[:, 1:] *= p
        fac = dict(u=c)
    elif kinds <= {6}:
        mats[:, 0] *= p/c**2
        mats[:, 1] *= c**2
        loads[:, 1:] *= p
        fac = dict(u=c, N=p/c**2)
    elif kinds <= {7, 8}:
        # E, I, (A for type 8 | density for type 7)
        mats[:, 0] *= p/c**2
        mats[:, 1] *= c**4
        mats[:, 2] *= c**2
        loads[:, 1:3] *= p
        loads[:, 3] *= p*c
        fac = dict(u=np.array([c, c, 1.]))
    else:
        return None, None
    return (pts*c, conn, et, mat, nd, cons, loads, mats), fac


def units(deep):
    lengths = [1e-9, 1e-6, 1e-3, .0254, 1e3, 1e6, 1e9]

    def run(ctx):
        name = ctx.choose("model", MODELS)
        c = ctx.choose("unit of length", lengths)
        p = ctx.choose("unit of force", [1e-3, 1., 1e9])
        auto = ctx.choose("automatic", [True, False])
        graded = ctx.choose("mesh", ["given", "graded"])
        m = base(name)
        if graded == "graded":
            # neighbours of different sizes
            x = np.asarray(m[0], dtype=float)
            m = (x*(1 + .1*(x - x.min(axis=0))/np.ptp(x[:, 0])),) + m[1:]
        if ctx.choose("materials", ["alternate", "one"]) == "one":
            m = m[:3] + ([0]*len(m[1]),) + m[4:]
        new, fac = convert(m, c, p)
        ctx.require(new is not None)
        one = run_model(m, m[6], auto)
        two = run_model(new, new[6], auto)
        ctx.visit(name, c, p, auto)
        for key in one:
            want = fac[key]*one[key]
            col = np.abs(want).max(axis=0) if key == "u" and m[4] == 3 \
                else np.abs(want).max()
            ctx.close(two[key]/np.where(col == 0, 1, col),
                      want/np.where(col == 0, 1, col),
                      "other units: " + key, tol=1e-7, scale=1)
        ctx.outcome(two["u"])
    return run


def moduli(ctx):
    name = ctx.choose("model", MODELS)
    fac = ctx.choose("factor", [1e-8, .5, 3., 1e6, 2e11])
    auto = ctx.choose("automatic", [True, False])
    m = base(name)
    one = run_model(m, m[6], auto)
    mats = m[7].copy()
    mats[:, 0] *= fac
    two = run_model(m[:7] + (mats,), m[6], auto)
    ctx.visit(name, fac, auto)
    for key in one:
        f = 1/fac if key in ("u", "E") else 1.0
        ctx.close(two[key], f*one[key], "scaled moduli: " + key, tol=1e-8)


def density(ctx):
    """Static results do not depend on the density"""
    name = ctx.choose("model", [n for n in MODELS if base(n)[4] == 2 and
                                max(base(n)[2]) in (1, 2, 3, 4, 6) and
                                5 not in base(n)[2]])
    dens = ctx.choose("density", [None, 0., 1e-9, 1., 7.8e3])
    m = base(name)
    one = run_model(m, m[6], True)
    mats = m[7][:, :2] if dens is None else np.column_stack(
        [m[7][:, :2], np.full(len(m[7]), dens)])
    two = run_model(m[:7] + (mats,), m[6], True)
    ctx.visit(name, dens)
    for key in one:
        ctx.close(two[key], one[key], "density: " + key, tol=1e-12)


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Harness("superpose", superpose(deep),
                "13 models x pairs of unit loads%s x 3 factors x 2 "
                "workflows" % ("" if deep else " (a third of them for the "
                               "larger models)")),
        Harness("factors", factors, "13 models x 7 load factors"),
        Harness("units", units(deep), "12 models x units of length 1e-6..1e6 "
                                      "x units of force 1e-3..1e9"),
        Harness("moduli", moduli, "13 models x 5 factors of the moduli"),
        Harness("density", density, "models with an optional density"),
    ]
