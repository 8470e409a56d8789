"""Fresh copies of the package and a catalogue of calls with their inputs"""
import contextlib
import gc
import importlib
import importlib.machinery as machinery
import locale
import os
import random
import sys
import types
import warnings

import matplotlib
import numpy as np

from mc import models, ref

MODULES = ["assemutil", "blochutil", "femutil", "gaussutil", "postprocesor",
           "preprocesor", "solids_GUI", "solutil", "uelutil"]
_CODE = {}
_get_code = machinery.SourceFileLoader.get_code


def _cached(self, fullname):
    if not fullname.startswith("solidspy"):
        return _get_code(self, fullname)
    if fullname not in _CODE:
        _CODE[fullname] = _get_code(self, fullname)
    return _CODE[fullname]


def fresh():
    """Import the package anew: module state as in a new interpreter"""
    old = {k: sys.modules.pop(k) for k in list(sys.modules)
           if k == "solidspy" or k.startswith("solidspy.")}
    machinery.SourceFileLoader.get_code = _cached
    try:
        ns = types.SimpleNamespace()
        for m in MODULES:
            setattr(ns, m, importlib.import_module("solidspy." + m))
    finally:
        machinery.SourceFileLoader.get_code = _get_code
        for k in list(sys.modules):
            if k == "solidspy" or k.startswith("solidspy."):
                del sys.modules[k]
        sys.modules.update(old)
    return ns


# ------------------------------------------------------------------ inputs
def _model(kind, v):
    """A model; the values, not the shapes, depend on v"""
    if kind == "truss":
        pts, conn = models.truss_square()
        pts = pts*[2. + v, 1.5]
        et, mats = 6, np.array([[200. + 30*v, 3, 1], [500., 1, 2 + v]])
    elif kind == "spring":
        pts, conn = models.truss_square()
        pts = pts*[1., 1 + v]
        et, mats = 5, np.array([[20. + v], [50.]])
    else:
        nx = {"quad4": 2, "tri3": 2, "tri6": 1, "quad9": 1}[kind]
        pts, conn = models.grid(kind, nx, 1, 2.0 + v, 1.0)
        pts = models.smooth(pts, .05*(v + 1))
        et = models.ETYPE[kind]
        mats = np.array([[1e3 + 100*v, .3], [2e3, .2 + .05*v]])
    if v == 1:
        conn = conn[1:] + conn[:1]
    nodes, elements = models.tables(pts, conn, et,
                                    [(k + v) % 2 for k in range(len(conn))])
    cons = np.zeros((len(pts), 2), dtype=int)
    if kind in ("truss", "spring"):
        cons[0] = -1
        cons[1 + v, 1] = -1
        cons[3, 0] = -1
    else:
        cons[np.argsort(pts[:, 0], kind="stable")[:2]] = -1
        cons[-1, v] = -1
    loads = np.array([[k, 1. + v, k - 2.*v] for k in range(len(pts))])
    disp = np.column_stack([np.sin(np.arange(len(pts)) + v),
                            np.cos(2.*np.arange(len(pts)))])
    return dict(nodes=nodes, cons=cons, elements=elements, mats=mats,
                loads=loads, disp=disp)


def _frame(v):
    pts, conn = models.portal()
    pts = pts*(1 + .5*v)
    nodes, elements = models.tables(pts, conn, 8, [0, 1 - v, 1])
    cons = np.zeros((4, 3), dtype=int)
    cons[0] = cons[3] = -1
    cons[3, 2] = -v
    mats = np.array([[200. + v, 3, 4, 5], [500, 1, 2, 1]])
    loads = np.array([[1, 1., 2. + v, 3], [2, 0, -1, .5]])
    return dict(nodes=nodes, cons=cons, elements=elements, mats=mats,
                loads=loads, disp=np.ones((4, 3)))


def _coords(kind, v):
    nat = ref.nat_nodes(kind)
    move = .05*np.cos(np.arange(nat.size) + v).reshape(nat.shape)
    return (nat + move)*(1 + v) + 4.0


def _numbering(m, d, nd=2):
    neq = int(np.sum(d["cons"] == 0))
    bc = d["cons"].copy()
    bc[bc == 0] = np.arange(neq)
    op = np.array([[bc[n, k] for n in el[3:] for k in range(nd)]
                   for el in d["elements"]])
    return bc, op, neq


def _assembly(kind, scheme):
    def inputs(v):
        d = _frame(v) if kind == "frame" else _model(kind, v)
        bc, op, neq = _numbering(None, d, 3 if kind == "frame" else 2)
        return [d["elements"], d["mats"], d["nodes"], neq, op]

    def call(m, elements, mats, nodes, neq, op):
        return m.assemutil.assembler(elements, mats, nodes, neq, op,
                                     sparse=scheme == "sparse")
    return inputs, call


def _auto(kind):
    def inputs(v):
        d = _model(kind, v)
        d.pop("disp")
        return [d]

    def call(m, data):
        return m.solids_GUI.solids_auto(
            data, plot_contours=False,
            compute_strains=kind not in ("truss", "spring"))
    return inputs, call


def _element(name, kind, params):
    def inputs(v):
        if kind == "line":
            coord = np.array([[0, 1.], [3., 2. + 4*v]])
        else:
            coord = _coords(kind, v)
        p = np.array(params, dtype=float)
        p[0] += v
        return [coord, p]

    def call(m, coord, p):
        return getattr(m.uelutil, name)(coord, p)
    return inputs, call


def _bloch_in(v):
    coords = np.array([[0., 0], [1, 0], [0, 1], [1 + v, 1]])
    return [np.array([.3 + v, .7]), coords, 8, [0, 0, 0], [1, 2, 3],
            [0, 1, 0, 1, 0, 1], [2, 3, 4, 5, 6, 7], {0: [0, 1]},
            {1: [2, 3], 2: [4, 5], 3: [6, 7]}, [0, 1]*4]


def _gmsh(v):
    cells = {"quad": np.array([[0, 1, 4, 3], [1, 2, 5, 4]])[::1 - 2*v],
             "line": np.array([[0, 1], [1, 2], [3, 4]])}
    data = {"quad": {"gmsh:physical": np.array([7, 7 + v])},
            "line": {"gmsh:physical": np.array([1, 1, 2 - v])}}
    return cells, data


def catalogue():
    """name -> (inputs(v) for v in 0, 1, call(modules, *inputs))"""
    cat = {}
    for kind in ("quad4", "tri3", "tri6", "quad9", "truss", "spring"):
        cat["auto " + kind] = _auto(kind)
    for kind in ("quad4", "tri6", "truss", "frame"):
        for scheme in ("sparse", "dense"):
            cat["assemble %s %s" % (kind, scheme)] = _assembly(kind, scheme)
    cat["numbering"] = (
        lambda v: [_model("quad4", v)[k] for k in ("cons", "elements")],
        lambda m, c, e: m.assemutil.DME(c, e))
    cat["numbering frame"] = (
        lambda v: [_frame(v)[k] for k in ("cons", "elements")],
        lambda m, c, e: m.assemutil.DME(c, e, ndof_node=3))
    cat["equations"] = (lambda v: [_model("tri3", v)["cons"]],
                        lambda m, c: m.assemutil.eqcounter(c))

    def loads_in(v):
        d = _model("truss", v)
        bc, _, neq = _numbering(None, d)
        return [d["loads"], bc, neq]
    cat["loads"] = (loads_in, lambda m, *a: m.assemutil.loadasem(*a))
    cat["retriever"] = (
        lambda v: [_model("tri6", v)[k] for k in ("elements", "mats",
                                                  "nodes")],
        lambda m, *a: m.assemutil.retriever(*a, 1))

    def complete_in(v):
        d = _model("quad4", v)
        bc, _, neq = _numbering(None, d)
        return [bc, d["nodes"], np.arange(1., neq + 1)*(v + 1)]
    cat["complete"] = (complete_in,
                       lambda m, *a: m.postprocesor.complete_disp(*a))
    for kind in ("quad4", "tri3", "tri6", "quad9"):
        cat["strains " + kind] = (
            lambda v, kind=kind: [_model(kind, v)[k] for k in (
                "nodes", "elements", "mats", "disp")],
            lambda m, *a: m.postprocesor.strain_nodes(*a))
    cat["member stresses"] = (
        lambda v: [_model("truss", v)[k] for k in (
            "nodes", "elements", "mats", "disp")],
        lambda m, *a: m.postprocesor.stress_truss(*a))
    cat["eigvals"] = (
        lambda v: [np.array([[5., 6 - v], [6 - v, 9]])],
        lambda m, a: m.postprocesor.eigvals(a))
    cat["principal"] = (
        lambda v: [np.array([[5., 9, 6 - v], [1, 2, 0], [1, v, 3]])],
        lambda m, a: m.postprocesor.principal_dirs(a))
    cat["energy"] = (
        lambda v: [np.array([1., 2 + v]), np.array([[3., 1], [1, 2 + v]])],
        lambda m, u, k: m.postprocesor.energy(u, k))
    cat["triangulation"] = (
        lambda v: [_model("quad9", v)[k] for k in ("nodes", "elements")],
        lambda m, *a: (lambda t: [t.triangles, t.x.copy(),
                                     t.y.copy()])(
            m.postprocesor.mesh2tri(*a)))
    cat["solve dense"] = (
        lambda v: [np.array([[3., 1], [1, 2 + v]]), np.array([1., 2 - v])],
        lambda m, *a: m.solutil.static_sol(*a))

    def csr(m, K, f):
        from scipy.sparse import csr_matrix
        return m.solutil.static_sol(csr_matrix(K), f)
    cat["solve sparse"] = (cat["solve dense"][0], csr)
    for name, kind, par in (
            ("elast_tri3", "tri3", [8., .3]),
            ("elast_tri6", "tri6", [8., .3, 2]),
            ("elast_quad4", "quad4", [8., .3]),
            ("elast_quad9", "quad9", [8., .3, 2]),
            ("elast_quad8", "quad8", [8., .3, 2]),
            ("elast_axi_quad9", "quad9", [8., .3, 2]),
            ("elast_tet4", "tet4", [8., .3, 2]),
            ("elast_hex8", "hex8", [8., .3, 2]),
            ("spring", "line", [8.]), ("truss2D", "line", [8., 2]),
            ("beam2DU", "line", [8., 2]), ("beam2D", "line", [8., 2, 3])):
        cat[name] = _element(name, kind, par)
    for name, ndim in (("shape_tri3", 2), ("shape_tri6", 2),
                       ("shape_quad4", 2), ("shape_quad8", 2),
                       ("shape_quad9", 2), ("shape_tet4", 3),
                       ("shape_hex8", 3)):
        cat[name] = (lambda v, n=ndim: [.1 + .3*v, .2, .35][:n],
                     lambda m, *a, f=name: getattr(m.femutil, f)(*a))
    for kind in ("tri3", "quad4", "tri6", "quad9"):
        n = {"tri3": 3, "quad4": 4, "tri6": 6, "quad9": 9}[kind]
        cat["str_el%d" % n] = (
            lambda v, kind=kind, n=n: [_coords(kind, v),
                                       np.cos(np.arange(2.*n) + v)],
            lambda m, *a, n=n: getattr(m.femutil, "str_el%d" % n)(*a))
    for name, par in (("elast_mat_2d", [8., .3]), ("elast_mat_axi", [8., .3]),
                      ("elast_mat", [8., .3]), ("umat", [8., .3])):
        cat[name] = (lambda v, p=par: [np.array(p) + [v, 0]],
                     lambda m, p, f=name: getattr(m.femutil, f)(p))
    cat["elast_diff_2d"] = (
        lambda v: [.1, .2, _coords("quad4", v)],
        lambda m, *a: m.femutil.elast_diff_2d(*a, m.femutil.shape_quad4))
    cat["elast_diff_axi"] = (
        lambda v: [.1, .2, _coords("quad9", v)],
        lambda m, *a: m.femutil.elast_diff_axi(*a, m.femutil.shape_quad9))
    cat["elast_diff_3d"] = (
        lambda v: [.1, .2, .3, _coords("hex8", v)],
        lambda m, *a: m.femutil.elast_diff_3d(*a))
    cat["jacoper"] = (
        lambda v: [ref.shape("quad4", (.1, .2 + v/9))[1],
                   _coords("quad4", v)],
        lambda m, *a: m.femutil.jacoper(*a))
    for name, args in (("gauss_1d", (3, 4)), ("gauss_nd", (3, 2)),
                       ("gauss_tri", (2, 3)), ("gauss_tet", (1, 3))):
        cat[name] = (lambda v, a=args: [a[v]],
                     lambda m, n, f=name: getattr(m.gaussutil, f)(n))
    cat["eletype"] = (lambda v: [1 + v], lambda m, e: m.femutil.eletype(e))
    cat["bloch numbers"] = (
        lambda v: [4, [2 + v], [0]],
        lambda m, *a: m.blochutil.reassign_dof_bloch(*a))
    cat["bloch matrix"] = (
        _bloch_in,
        lambda m, *a: m.blochutil.bloch_transform_mat(*a).toarray())
    cat["rect_grid"] = (lambda v: [2. + v, 1., 2, 1],
                        lambda m, *a: m.preprocesor.rect_grid(*a))
    cat["ele_writer"] = (
        lambda v: list(_gmsh(v)),
        lambda m, c, d: m.preprocesor.ele_writer(c, d, "quad", 7, 1, 0, 3))
    cat["node_writer"] = (
        lambda v: [_model("quad4", v)["nodes"], {}],
        lambda m, *a: m.preprocesor.node_writer(*a))
    cat["loading"] = (
        lambda v: list(_gmsh(v)),
        lambda m, c, d: m.preprocesor.loading(c, d, 1, 2., 3.))
    return cat


# ---------------------------------------------------------------- plumbing
def freeze(obj):
    """Deep, comparable copy of inputs or results"""
    if hasattr(obj, "toarray"):
        return ("sparse", freeze(obj.toarray()))
    if isinstance(obj, np.ndarray):
        return ("array", obj.shape, obj.dtype.str, obj.tobytes())
    if isinstance(obj, dict):
        return ("dict", tuple((k, freeze(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(freeze(x) for x in obj))
    return (type(obj).__name__, repr(obj))


def arrays(obj):
    """All arrays reachable from a result or an input"""
    if hasattr(obj, "data") and hasattr(obj, "tocsr"):
        return [obj.data]
    if isinstance(obj, np.ndarray):
        return [obj]
    if isinstance(obj, dict):
        return [a for v in obj.values() for a in arrays(v)]
    if isinstance(obj, (list, tuple)):
        return [a for v in obj for a in arrays(v)]
    return []


def scribble(obj):
    for a in arrays(obj):
        if a.flags.writeable:
            a[...] = -77


def general_warnings():
    """Filters for warnings in general; libraries add some for their own"""
    return [(f[0], f[2]) for f in warnings.filters
            if not f[1] and not f[3] and f[2].__module__ == "builtins"]


def environment():
    st = np.random.get_state()
    return (np.geterr(), sorted(np.get_printoptions().items(), key=str),
            st[1].tobytes(), st[2], random.getstate(), os.getcwd(),
            tuple(sys.path), tuple(sorted(os.environ.items())),
            list(dict.items(matplotlib.rcParams)), np.getbufsize(),
            sys.getrecursionlimit(), gc.isenabled(), general_warnings(),
            locale.setlocale(locale.LC_ALL), sys.stdout)


@contextlib.contextmanager
def unusual():
    """Global state that nobody sets, so that any change of it is seen"""
    keep = np.random.get_state(), random.getstate()
    style = {k: matplotlib.rcParams[k] for k in STYLE}
    with np.printoptions(precision=7, linewidth=71), \
            np.errstate(divide="warn", over="warn", under="ignore",
                        invalid="warn"):
        np.random.seed(90210)
        random.seed(4711)
        dict.update(matplotlib.rcParams, STYLE)
        try:
            yield environment()
        finally:
            dict.update(matplotlib.rcParams, style)
            np.random.set_state(keep[0])
            random.setstate(keep[1])


STYLE = {"image.cmap": "magma", "font.size": 9.5, "lines.linewidth": 1.25,
         "figure.dpi": 97.0, "axes.grid": False}
