"""C30: plots"""
import os
import sys

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

import solidspy.postprocesor as pos
from solidspy.solids_GUI import solids_GUI, solids_auto
from mc import files, models, session
from mc.core import Harness

TITLE = "Plots show the given field and never change the results"
STATEMENT = (
    "For every mesh and every nodal field, plotting makes one new figure per "
    "component with the requested titles, whose contours have at every point "
    "the value of that component, writes the files asked for, and leaves the "
    "arguments, the results, figures already open and the settings of the "
    "process unchanged. For every "
    "truss the members are drawn between their nodes, with widths that grow "
    "with the area and colours that tell tension from compression. An "
    "analysis gives the same results with plots as without them.")
QUANTIFIER = dict(
    over=["inputs", "histories"],
    text="element kinds, meshes, fields and options of each plotting "
         "function; all sequences of plotting calls and closed figures up to "
         "a depth")
WHY = ("No test draws anything: the functions fail, draw another component "
       "or draw over another figure without any test noticing.")
ANCHORS = dict(
    files=["solidspy/postprocesor.py", "solidspy/solids_GUI.py"],
    mechanism=[dict(name="plot_node_field, tri_plot, fields_plot, plot_truss",
                    where="postprocesor.py"),
               dict(name="plot_contours", where="solids_GUI.py")],
    observe_at=["matplotlib figures", "saved files", "arguments and results"])
TECHNIQUE = ("explicit-state enumeration of plotting histories against a "
             "model of the open figures, with the drawn contours evaluated "
             "point by point")
LEVEL_NOTE = ("Exhaustive over the stated products and histories. The drawn "
              "contours are probed at interior points of every triangle.")

KINDS = ("tri3", "quad4", "tri6", "quad9")
NEW_WINDOW = object()


def mesh(kind, size):
    nx, ny = size
    pts, conn = models.grid(kind, nx, ny, 2.0, 1.5, -.5, .25)
    pts = models.smooth(pts, .05)
    nodes, elements = models.tables(pts, conn, models.ETYPE[kind])
    return nodes, elements


def fields(n, name):
    k = np.arange(n)
    return {"ramp": 1.0*k, "wave": 3*np.sin(1.7*k) - 1,
            "small": 1e-9*np.cos(2.3*k + 1), "large": 1e8*np.sin(k*k + .4),
            "peak": np.where(k == n//2, 5., 0.) + .01*k,
            "constant": np.full(n, -3.75), "null": np.zeros(n),
            "almost constant": 7e5 + 1e-4*np.cos(1.3*k)}[name]


def probes(triangles, x, y, z):
    """Interior points of the triangles with interpolated values"""
    out = []
    for t in triangles:
        for w in ((1/3, 1/3, 1/3), (.8, .1, .1), (.1, .8, .1), (.1, .1, .8)):
            out.append((np.dot(w, x[t]), np.dot(w, y[t]), np.dot(w, z[t])))
    return out


def check_filled(ctx, fig, tris, nodes, z, levels=None):
    """The filled contours of the figure are those of the field"""
    ax = [a for a in fig.axes if a.get_label() != "<colorbar>"]
    ctx.check(len(ax) == 1, "one drawing per figure", got=len(ax))
    ctx.check(len(fig.axes) == 2, "one colour bar", got=len(fig.axes))
    ctx.check(len(ax[0].collections) == 1, "one contour plot",
              got=len(ax[0].collections))
    cs = ax[0].collections[0]
    lev = np.asarray(cs.levels)
    eps = 1e-9*max(np.ptp(z), 1e-300)
    ctx.check(lev[0] <= z.min() + eps and lev[-1] >= z.max() - eps,
              "the levels cover the field", levels=lev, field=z)
    if levels is not None:
        ctx.check(len(lev) <= levels + 4, "number of levels", got=len(lev),
                  want=levels)
        ctx.check(len(lev) >= max(2, levels//3), "number of levels",
                  got=len(lev), want=levels)
    paths = cs.get_paths()
    ctx.check(len(paths) == len(lev) - 1, "bands", got=len(paths))
    x, y = nodes[:, 1], nodes[:, 2]
    for px, py, pz in probes(tris, x, y, z):
        k = int(np.searchsorted(lev, pz)) - 1
        if k < 0 or k >= len(paths):
            continue
        gap = min(abs(pz - lev[k]), abs(pz - lev[k + 1]))
        if gap < 2e-3*(lev[k + 1] - lev[k]):
            continue          # on the line between two bands
        hits = [i for i, p in enumerate(paths) if inside(p, px, py)]
        ctx.check(hits == [k], "band of the colour at a point",
                  point=(px, py), value=pz, levels=lev, bands=hits)
        ctx.count("probes")
    ctx.check(ax[0].get_aspect() in ("equal", 1.0, 1), "aspect ratio")
    return ax[0]


def inside(path, px, py):
    """Even-odd rule over all the loops of a path"""
    odd = False
    for poly in path.to_polygons(closed_only=True):
        x, y = poly[:-1, 0] - px, poly[:-1, 1] - py
        x2, y2 = np.roll(x, -1), np.roll(y, -1)
        cross = (y > 0) != (y2 > 0)
        with np.errstate(all="ignore"):
            at = x - y*(x2 - x)/(y2 - y)
        odd ^= bool(np.sum(cross & (at > 0)) % 2)
    return odd


def check_pcolor(ctx, fig, tris, nodes, z):
    ax = [a for a in fig.axes if a.get_label() != "<colorbar>"]
    ctx.check(len(ax) == 1 and len(fig.axes) == 2, "axes of the figure")
    ctx.check(len(ax[0].collections) == 1, "one plot")
    c = ax[0].collections[0]
    tri = getattr(c, "_triangulation", None)
    if tri is not None:
        ctx.same(np.asarray(c.get_array()).ravel(), z, "plotted values")
        ctx.same(tri.x, nodes[:, 1], "x of the plot")
        ctx.same(tri.y, nodes[:, 2], "y of the plot")
        ctx.check(sorted(map(sorted, tri.triangles.tolist())) ==
                  sorted(sorted(t) for t in tris), "triangles of the plot")
    lo, hi = c.get_clim()
    if np.ptp(z) > 1e-6*np.abs(z).max():
        ctx.close([lo, hi], [z.min(), z.max()], "colour range", tol=1e-9)
    else:       # constant fields: any range around the value
        ctx.check(lo <= z.min() and z.max() <= hi and lo < hi,
                  "colour range", got=(lo, hi), value=z.max())
    return ax[0]


def triangles_of(nodes, elements):
    return [list(map(int, t)) for t in pos.mesh2tri(nodes, elements).triangles]


def drawn(sizes):
    """Contours of one call"""
    def run(ctx):
        kind = ctx.choose("kind", KINDS)
        size = ctx.choose("mesh", sizes)
        nodes, elements = mesh(kind, size)
        shape = ctx.choose("field", ["vector", "column", "two", "three",
                                     "five"])
        plot = ctx.choose("plot", ["default", "contourf", "pcolor"])
        first = ctx.choose("values", ["ramp", "wave", "small", "large",
                                      "peak", "constant", "null",
                                      "almost constant"])
        titles = ctx.choose("titles", [None, "tuple", "list"])
        ctx.require(shape != "five" or first in ("ramp", "constant"))
        opts = {}
        levels = 12
        if plot == "contourf":
            levels = opts["levels"] = ctx.choose("levels", [3, 12, 30, 100])
        if plot != "default":
            opts["plt_type"] = plot
        n = len(nodes)
        names = [first, "wave" if first != "wave" else "ramp", "peak",
                 "small", "ramp"]
        nf = {"vector": 1, "column": 1, "two": 2, "three": 3,
              "five": 5}[shape]
        field = np.column_stack([fields(n, m) for m in names[:nf]])
        arg = field[:, 0].copy() if shape == "vector" else field.copy()
        want = ["a%d" % k for k in range(nf)]
        if titles:
            opts["title"] = tuple(want) if titles == "tuple" else want
            opts["figtitle"] = ["win%d" % k for k in range(nf)]
        plt.close("all")
        keep = arg.copy(), nodes.copy(), elements.copy()
        with files.scratch() as folder:
            os.chdir(folder)
            pos.plot_node_field(arg, nodes, elements, **opts)
            ctx.check(os.listdir(folder) == [], "no file without savefigs")
        ctx.visit(kind, size, shape, plot, first, titles)
        for a, b in zip(keep, (arg, nodes, elements)):
            ctx.same(b, a, "arguments were modified")
        ctx.check(len(plt.get_fignums()) == nf, "one figure per component",
                  got=len(plt.get_fignums()), want=nf)
        tris = triangles_of(nodes, elements)
        order = plt.get_fignums() if not titles else opts["figtitle"]
        for k, num in enumerate(order):
            ctx.check(plt.fignum_exists(num), "title of the window", want=num)
            fig = plt.figure(num)
            if plot == "pcolor":
                ax = check_pcolor(ctx, fig, tris, nodes, field[:, k])
            else:
                flat = np.ptp(field[:, k]) < 1e-6*np.abs(field[:, k]).max()
                ax = check_filled(ctx, fig, tris, nodes, field[:, k],
                                  None if flat or not field[:, k].any()
                                  else levels)
            ctx.check(ax.get_title() == (want[k] if titles else ""),
                      "title of the plot", got=ax.get_title())
        plt.close("all")
    return run


def large(ctx):
    """Meshes with many elements"""
    kind = ctx.choose("kind", KINDS)
    size = ctx.choose("mesh", [(40, 27), (3, 90), (70, 66)])
    ctx.require(kind == "quad4" or size != (70, 66))
    plot = ctx.choose("plot", ["contourf", "pcolor"])
    name = ctx.choose("values", ["wave", "peak"])
    nodes, elements = mesh(kind, size)
    z = fields(len(nodes), name)
    if name == "wave":                     # smooth over the mesh
        z = np.sin(2*nodes[:, 1]) + nodes[:, 2]**2
    plt.close("all")
    pos.plot_node_field(z.copy(), nodes, elements, plt_type=plot)
    ctx.visit(kind, size, plot, name)
    ctx.check(len(plt.get_fignums()) == 1, "one figure")
    fig = plt.gcf()
    tris = triangles_of(nodes, elements)
    area = {"quad4": 2, "tri3": 2, "tri6": 8, "quad9": 8}[kind]
    ctx.check(len(tris) == area*size[0]*size[1], "triangles", got=len(tris))
    if plot == "pcolor":
        check_pcolor(ctx, fig, tris, nodes, z)
        plt.close("all")
        return
    cs = [a for a in fig.axes if a.get_label() != "<colorbar>"][0].collections
    ctx.check(len(cs) == 1, "one contour plot")
    lev, paths = np.asarray(cs[0].levels), cs[0].get_paths()
    ctx.check(len(paths) == len(lev) - 1, "bands", got=len(paths))
    T = np.array(tris)
    mid = nodes[:, 1:3][T].mean(axis=1)
    val = z[T].mean(axis=1)
    ctx.check(lev[0] <= z.min() + 1e-9 and lev[-1] >= z.max() - 1e-9,
              "the levels cover the field", levels=lev)
    band = np.searchsorted(lev, val) - 1
    for k, path in enumerate(paths):
        odd = np.zeros(len(mid), dtype=bool)
        for poly in path.to_polygons(closed_only=True):
            for a, b in zip(poly[:-1], poly[1:]):
                c = np.flatnonzero((a[1] > mid[:, 1]) != (b[1] > mid[:, 1]))
                at = a[0] + (mid[c, 1] - a[1])*(b[0] - a[0])/(b[1] - a[1])
                odd[c[at > mid[c, 0]]] ^= True
        near = 2e-3*(lev[k + 1] - lev[k])
        sure = (np.abs(val - lev[k]) > near) & (np.abs(val - lev[k + 1])
                                                > near)
        bad = np.flatnonzero(sure & (odd != (band == k)))
        ctx.check(not len(bad), "band of the colour at triangles", band=k,
                  triangles=bad[:10], values=val[bad[:10]])
    ctx.count("probes", len(mid))
    plt.close("all")


def saved(ctx):
    """Files written by each function"""
    what = ctx.choose("function", ["plot_node_field", "plot_truss",
                                   "tri_plot"])
    nf = ctx.choose("components", [1, 2, 3]) if what == "plot_node_field" \
        else 1
    ext = ctx.choose("format", ["default", ".pdf", ".png", ".svg"])
    sub = ctx.choose("folder", ["", "sub/"])
    save = ctx.choose("savefigs", [True, False])
    nodes, elements = mesh("quad4", (1, 1))
    if ext == "default":
        ctx.require(sub == "")
        names = {"plot_node_field": ["output%d.pdf" % k for k in range(nf)],
                 "plot_truss": ["output.pdf"],
                 "tri_plot": ["solution_plot.pdf"]}[what]
        opts = {}
    else:
        names = [sub + "figure %d%s" % (k, ext) for k in range(nf)]
        opts = dict(filename=tuple(names) if what == "plot_node_field"
                    else names[0])
    plt.close("all")
    with files.scratch() as folder:
        os.chdir(folder)
        os.mkdir("sub")
        if what == "plot_node_field":
            field = np.column_stack([fields(len(nodes), m) for m in
                                     ("ramp", "wave", "peak")[:nf]])
            pos.plot_node_field(field if nf > 1 else field[:, 0], nodes,
                                elements, savefigs=save, **opts)
        elif what == "tri_plot":
            pos.tri_plot(pos.mesh2tri(nodes, elements),
                         fields(len(nodes), "ramp"), savefigs=save, **opts)
        else:
            pts, conn = models.truss_square()
            nodes, elements = models.tables(pts, conn, 6)
            pos.plot_truss(nodes, elements, np.array([[1., 2.]]),
                           savefigs=save, **opts)
        got = sorted(os.path.relpath(os.path.join(d, f), folder)
                     for d, _, fs in os.walk(folder) for f in fs)
        ctx.visit(what, nf, ext, sub, save)
        ctx.check(got == (sorted(names) if save else []), "files", got=got)
        for name in got:
            with open(name, "rb") as f:
                head = f.read(5)
            magic = {".pdf": b"%PDF-", ".png": b"\x89PNG\r",
                     ".svg": b"<?xml"}[os.path.splitext(name)[1]]
            ctx.check(head == magic, "contents of the file", file=name)
    plt.close("all")


def contour_fields(ctx):
    """fields_plot: which fields, which titles; structural elements"""
    kind = ctx.choose("kind", KINDS + ("spring", "truss", "beam", "frame"))
    have = ctx.choose("fields", [(False, False), (True, False),
                                 (False, True), (True, True)])
    plt.close("all")
    code = {"spring": 5, "truss": 6, "beam": 7, "frame": 8}.get(kind)
    if code:
        pts, conn = models.truss_square()
        nodes, elements = models.tables(pts, conn, code)
        disp = np.column_stack([np.arange(4.), np.arange(4.)**2,
                                np.arange(4.)])
        disp = disp[:, :3 if code == 8 else 2]
    else:
        nodes, elements = mesh(kind, (2, 1))
        n = len(nodes)
        disp = np.column_stack([fields(n, "wave"), fields(n, "ramp")])
    n = len(nodes)
    E = np.column_stack([fields(n, "small"), fields(n, "peak"),
                         fields(n, "wave") - 7])
    S = np.column_stack([fields(n, "large"), fields(n, "ramp") + .5,
                         fields(n, "peak")*3])
    keep = disp.copy(), E.copy(), S.copy()
    wide = ctx.choose("node columns", [3, 5])
    if wide == 5:
        nodes = np.column_stack([nodes, np.zeros((n, 2))])
    where = sys.stdout.tell()
    pos.fields_plot(elements, nodes, disp, E_nodes=E if have[0] else None,
                    S_nodes=S if have[1] else None)
    ctx.visit(kind, have, wide)
    for a, b in zip(keep, (disp, E, S)):
        ctx.same(b, a, "arguments were modified")
    if code:
        ctx.check(not plt.get_fignums(), "no contours of structural elements")
        said = sys.stdout.getvalue()[where:]
        ctx.check(said.strip() == str(disp).strip(),
                  "the displacements are printed", got=said)
        return
    want = [("Horizontal displacement", "$u_x$", disp[:, 0]),
            ("Vertical displacement", "$u_y$", disp[:, 1])]
    if have[0]:
        want += [("Strain epsilon-xx", r"$\epsilon_{xx}$", E[:, 0]),
                 ("Strain epsilon-yy", r"$\epsilon_{yy}$", E[:, 1]),
                 ("Strain gamma-xy", r"$\gamma_{xy}$", E[:, 2])]
    if have[1]:
        want += [("Stress sigma-xx", r"$\sigma_{xx}$", S[:, 0]),
                 ("Stress sigma-yy", r"$\sigma_{yy}$", S[:, 1]),
                 ("Stress tau-xy", r"$\tau_{xy}$", S[:, 2])]
    ctx.check(len(plt.get_fignums()) == len(want), "figures",
              got=plt.get_figlabels())
    tris = triangles_of(nodes, elements)
    for label, title, z in want:
        ctx.check(plt.fignum_exists(label), "window", want=label,
                  got=plt.get_figlabels())
        ax = check_filled(ctx, plt.figure(label), tris, nodes, z)
        ctx.check(ax.get_title() == title, "title", got=ax.get_title(),
                  want=title)
    plt.close("all")


def trusses(ctx):
    """Members drawn by plot_truss"""
    name = ctx.choose("truss", ["one", "square", "tower"])
    if name == "one":
        pts, conn = np.array([[1., 2], [4, -2]]), [[1, 0]]
    elif name == "square":
        pts, conn = models.truss_square()
    else:
        pts, conn = models.triangles(5)
    pts = pts*[2., 1.3] + [3., -1]
    m = len(conn)
    areas = ctx.choose("areas", [(2., 2., 2.), (1., 2., 3.), (5., .1, 1.),
                                 (.3, .3, .2), (1e-7, 3e-7, 2e-7),
                                 (4e6, 1e6, 9e6), (2e-9, 2e-9, 2e-9)])
    stress = ctx.choose("stresses", [None, "mixed", "tension", "compression",
                                     "zero", "tiny"])
    limits = ctx.choose("widths", [None, (8, 1)])
    text = ctx.choose("titles", [False, True])
    k = np.arange(m)
    vals = {None: None, "mixed": 3*np.cos(2.*k), "tension": 1.0 + k,
            "compression": -2. - k, "zero": np.zeros(m),
            "tiny": 1e-12*np.cos(k + .2)}[stress]
    labels = ctx.choose("identifiers", ["rows", "from one", "backwards"])
    nodes, elements = models.tables(pts, conn, 6, list(k % 3))
    if labels == "from one":
        elements[:, 0] += 1
        nodes[:, 0] += 1
    elif labels == "backwards":
        elements[:, 0] = elements[::-1, 0]
    mats = np.column_stack([[1., 50., 7.], areas])
    opts = {}
    if limits:
        opts.update(max_val=limits[0], min_val=limits[1])
    if text:
        opts.update(title="A truss", figtitle="A window")
    keep = nodes.copy(), elements.copy(), mats.copy()
    plt.close("all")
    pos.plot_truss(nodes, elements, mats,
                   **({} if vals is None else dict(stresses=vals.copy())),
                   **opts)
    ctx.visit(name, areas, stress, limits, text, labels)
    for a, b in zip(keep, (nodes, elements, mats)):
        ctx.same(b, a, "arguments were modified")
    ctx.check(len(plt.get_fignums()) == 1, "one figure")
    fig = plt.gcf()
    ctx.check(fig.get_label() == ("A window" if text else ""), "window")
    ax = fig.axes[0]
    ctx.check(ax.get_title() == ("A truss" if text else ""), "title")
    ctx.check(ax.get_aspect() in ("equal", 1.0, 1), "aspect ratio")
    lines = ax.get_lines()
    ctx.check(len(lines) == m, "one line per member", got=len(lines), want=m)
    left = list(lines)
    width, color = [], []
    for c in conn:
        seg = {tuple(pts[c[0]]), tuple(pts[c[1]])}
        for ln in left:
            xy = np.asarray(ln.get_xydata())
            if {tuple(p) for p in xy} == seg:
                break
        else:
            ctx.fail("member not drawn", member=c)
        left.remove(ln)
        width.append(ln.get_linewidth())
        color.append(matplotlib.colors.to_rgba(ln.get_color()))
    hi, lo = limits or (4, .5)
    area = np.array(areas)[k % 3]
    if min(areas) == max(areas):
        ctx.check(len(set(width)) == 1 and width[0] > 0, "equal widths",
                  got=width)
    else:
        for i in range(m):
            want = lo + (hi - lo)*(area[i] - min(areas))/(
                max(areas) - min(areas))
            ctx.close(width[i], want, "width of a member", tol=1e-9)
    col = np.array(color)
    ctx.check(np.all(col[:, 3] == 1), "visible members", got=col)
    if stress in (None, "zero"):
        ctx.check(len(set(color)) == 1, "one colour without stresses")
    else:
        top = np.abs(vals).max()
        for i in range(m):
            red, blue = col[i, 0], col[i, 2]
            if vals[i] > .02*top:
                ctx.check(red > blue, "tension is red", stress=vals[i],
                          got=col[i])
            elif vals[i] < -.02*top:
                ctx.check(blue > red, "compression is blue", stress=vals[i],
                          got=col[i])
        # darker for larger magnitudes on each side
        for sgn, ch in ((1, 0), (-1, 2)):
            ids = sorted((i for i in range(m) if sgn*vals[i] > 0),
                         key=lambda i: abs(vals[i]))
            shade = [col[i, [1, ch]].sum() for i in ids]
            ctx.check(all(a >= b - 1e-9 for a, b in zip(shade, shade[1:])),
                      "shades follow the stresses", got=shade)
    plt.close("all")


def analyses(ctx):
    """Results with plots = results without plots"""
    kind = ctx.choose("kind", KINDS + ("spring", "truss"))
    strains = ctx.choose("strains", [False, True])
    entry = ctx.choose("entry", ["solids_auto", "solids_GUI"])
    ctx.require(not (strains and kind in ("spring", "truss")))
    if kind in ("spring", "truss"):
        pts, conn = models.truss_square()
        code = 5 if kind == "spring" else 6
        mats = np.array([[100.]]) if kind == "spring" else np.array(
            [[100., 2.]])
        pts = pts*[2., 1.5]
        nodes, elements = models.tables(pts, conn, code)
        cons = np.zeros((4, 2), dtype=int)
        cons[:2] = -1
    else:
        nodes, elements = mesh(kind, (2, 1))
        mats = np.array([[1e4, .25]])
        cons = np.zeros((len(nodes), 2), dtype=int)
        cons[nodes[:, 1] < -.4] = -1
    loads = np.array([[len(nodes) - 1, 3., -2.], [len(nodes) - 2, 0., 1.]])
    plt.close("all")
    runs = []
    with files.scratch() as folder:
        files.folder(folder, nodes, cons, elements, mats, loads, "plain")
        for plots in (False, True, "default"):
            opts = {} if plots == "default" else dict(plot_contours=plots)
            if entry == "solids_GUI":
                res = solids_GUI(compute_strains=strains, folder=folder,
                                     **opts)
            else:
                res = solids_auto(dict(
                    nodes=nodes, cons=cons, elements=elements, mats=mats,
                    loads=loads), compute_strains=strains, **opts)
            runs.append(res if strains else (res,))
            nfig = len(plt.get_fignums())
            want = 0 if plots is False or kind in ("spring", "truss") else \
                8 if strains else 2
            ctx.check(nfig == want, "figures of an analysis", got=nfig,
                      want=want, plots=plots)
            if want:
                for label, z in (("Horizontal displacement", runs[0][0][:, 0]),
                                 ("Vertical displacement",
                                  runs[0][0][:, 1])):
                    check_filled(ctx, plt.figure(label),
                                 triangles_of(nodes, elements), nodes, z)
                if strains:
                    for j, lab in enumerate((
                            "Strain epsilon-xx", "Strain epsilon-yy",
                            "Strain gamma-xy", "Stress sigma-xx",
                            "Stress sigma-yy", "Stress tau-xy")):
                        check_filled(ctx, plt.figure(lab),
                                     triangles_of(nodes, elements), nodes,
                                     runs[0][1 + j//3][:, j % 3])
            plt.close("all")
        ctx.check(sorted(os.listdir(folder)) == [
            "eles.txt", "loads.txt", "mater.txt", "nodes.txt"],
            "files of the folder")
    ctx.visit(kind, strains, entry)
    for other in runs[1:]:
        for a, b in zip(runs[0], other):
            ctx.same(b, a, "results with and without plots")


def snapshot(num):
    """What can be seen in an open figure"""
    fig = plt.figure(num)
    out = [fig.get_label(), len(fig.axes)]
    for ax in fig.axes:
        if ax.get_label() == "<colorbar>":
            continue
        out.append((ax.get_title(), len(ax.get_lines()), tuple(ax.get_xlim()),
                    tuple(ax.get_ylim())))
        for c in ax.collections:
            out.append(tuple(np.asarray(c.levels)))
    return tuple(out)


def histories(depth, ops):
    """Sequences of plots and closed figures: a plot never touches a figure
    that was already open (unless it asks for it by its title)"""
    def run(ctx):
        nodes, elements = mesh("quad4", (1, 1))
        pts, conn = models.truss_square()
        tnodes, telems = models.tables(pts, conn, 6)
        n = len(nodes)
        plt.close("all")
        model = {}
        done = []
        for step in range(depth):
            options = list(ops)
            if model:
                options += ["close first"]
                if len(model) > 1:
                    options += ["close last"]
                if len(model) > 2:
                    options += ["close middle"]
            op = ctx.choose("step", options)
            done.append(op)
            if op.startswith("close"):
                nums = sorted(model)
                num = {"first": nums[0], "last": nums[-1],
                       "middle": nums[len(nums)//2]}[op.split()[1]]
                plt.close(num)
                model.pop(num)
                new = 0
            elif op == "user figure":
                fig = plt.figure()
                plt.plot([0, 1], [step, 1])
                new = 1
            elif op == "truss":
                pos.plot_truss(tnodes, telems, np.array([[1., 1.]]))
                new = 1
            else:
                nf = {"one": 1, "two": 2}[op]
                field = np.column_stack([
                    fields(n, "ramp")*(1 + step), fields(n, "wave")])
                pos.plot_node_field(field[:, :nf] if nf > 1 else field[:, 0],
                                    nodes, elements)
                new = nf
            nums = plt.get_fignums()
            ctx.visit(tuple(done))
            made = [k for k in nums if k not in model]
            ctx.check(set(model) <= set(nums), "open figures were closed",
                      history=done)
            ctx.check(len(made) == new, "new figures", got=len(made),
                      want=new, history=done)
            for k, v in model.items():
                ctx.check(snapshot(k) == v, "an open figure changed",
                          history=done, figure=k)
            for k in made:
                model[k] = snapshot(k)
            if op in ("one", "two"):
                for j, k in enumerate(sorted(made)):
                    check_filled(ctx, plt.figure(k),
                                 triangles_of(nodes, elements), nodes,
                                 field[:, j], 12)
        plt.close("all")
    return run


def surroundings(ctx):
    """Plots leave the settings of the process as they were"""
    what = ctx.choose("plot", ["field", "two fields", "fields", "strains",
                               "stresses", "contours", "structural",
                               "truss", "truss, stresses", "mesh",
                               "analysis", "analysis, strains", "no folder"])
    again = ctx.choose("earlier plot", [False, True])
    nodes, elements = mesh("quad4", (2, 1))
    pts, conn = models.truss_square()
    tnodes, telems = models.tables(pts, conn, 6)
    n = len(nodes)
    u = np.column_stack([fields(n, "ramp"), fields(n, "wave")])
    eps = np.column_stack([u, u[:, 0]*.5])
    cons = np.zeros((n, 2), dtype=int)
    cons[nodes[:, 1] < -.4] = -1
    data = dict(nodes=nodes, cons=cons, elements=elements,
                mats=np.array([[1e4, .25]]),
                loads=np.array([[n - 1, 3., -2.]]))
    calls = {
        "field": lambda: pos.plot_node_field(u[:, 0], nodes, elements),
        "two fields": lambda: pos.plot_node_field(
            u, nodes, elements, title=["a", "b"], plt_type="pcolor"),
        "fields": lambda: pos.fields_plot(elements, nodes, u),
        "strains": lambda: pos.fields_plot(elements, nodes, u, E_nodes=eps),
        "stresses": lambda: pos.fields_plot(elements, nodes, u, E_nodes=eps,
                                            S_nodes=2*eps),
        "structural": lambda: pos.fields_plot(telems, tnodes, u[:4]),
        "truss": lambda: pos.plot_truss(tnodes, telems, np.ones((1, 2))),
        "truss, stresses": lambda: pos.plot_truss(
            tnodes, telems, np.ones((1, 2)), np.arange(len(telems)) - 1.5),
        "contours": lambda: pos.tri_plot(pos.mesh2tri(nodes, elements),
                                         u[:, 0], title="t"),
        "mesh": lambda: pos.mesh2tri(nodes, elements),
        "analysis": lambda: solids_auto(data),
        "analysis, strains": lambda: solids_auto(data, compute_strains=True),
        "no folder": lambda: ctx.raises(
            OSError, lambda: solids_GUI(folder="/nonexistent/folder"),
            "no such folder")}
    plt.close("all")
    plt.figure()                           # what matplotlib loads lazily
    plt.tricontourf([0., 1, 0], [0., 0, 1], [0., 1, 2])
    plt.colorbar()
    plt.close("all")
    ctx.visit(what, again)
    with session.unusual():
        if again:
            calls["field"]()
        before = session.environment()
        backend, live = plt.get_backend(), plt.isinteractive()
        calls[what]()
        after = session.environment()
        ctx.check(before == after, "settings of the process changed", got=[
            (b, a) for b, a in zip(before, after) if a != b])
        ctx.check((backend, live) == (plt.get_backend(),
                                      plt.isinteractive()),
                  "the way of drawing changed")
    plt.close("all")


def harnesses(tier):
    deep = tier == "thorough"
    sizes = [(1, 1), (2, 1), (2, 2), (3, 2)] if deep else [(2, 1)]
    ops = ["one", "two", "truss", "user figure"]
    return [
        Harness("drawn", drawn(sizes), "4 kinds x meshes x 4 shapes of the "
                "field x plot types x 8 fields x titles"),
        Harness("large", large, "4 kinds x 3 meshes of up to 4620 elements"),
        Harness("saved", saved, "functions x file names x formats"),
        Harness("contour fields", contour_fields, "element types x fields "
                "given"),
        Harness("trusses", trusses, "trusses x areas x stresses x options"),
        Harness("analyses", analyses, "analyses with and without plots"),
        Harness("surroundings", surroundings, "13 plots, settings of the "
                "process before and after"),
        Harness("histories", histories(5 if deep else 3, ops),
                "all sequences of plots and closed figures up to length %d"
                % (5 if deep else 3)),
    ]
