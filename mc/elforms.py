"""Harnesses for single elements that serve stiffness (C05) and mass (C06)"""
import numpy as np

from mc import elems, ref


def compare(ctx, part, got, want, tol, S=1.0):
    """part: 0 stiffness, 1 mass"""
    ctx.close(np.asarray(got[part])*S, want[part]*S,
              ("stiffness", "mass")[part], tol=tol)


def integers(part):
    def run(ctx):
        """Integer coordinates on a grid of points, any integer dtype"""
        name = ctx.choose("element", ["tri3", "quad4"])
        pts = [(x, y) for x in (0, 1, 3) for y in (-1, 0, 2)]
        a = ctx.choose("node 1", pts)
        b = ctx.choose("node 2", pts)
        c = ctx.choose("node 3", pts)
        quad = [a, b, c]
        if name == "quad4":
            quad.append(ctx.choose("node 4", pts))
        P = np.array(quad, dtype=float)
        # convex and counterclockwise, not too thin
        n = len(P)
        for k in range(n):
            u, v = P[(k+1) % n] - P[k], P[(k+2) % n] - P[(k+1) % n]
            ctx.require(u[0]*v[1] - u[1]*v[0] > .5)
        ctx.require(sum(np.cross(np.append(P[k], 0), np.append(P[(k+1) % n], 0)
                                 )[2] for k in range(n)) > 0)
        dtype = ctx.choose("dtype", ["int64", "int32", "float64", "float32"])
        fun, kind, et, mode = elems.CONTINUUM[name]
        K, M = fun(P.astype(dtype), (3, 0.25, 2))
        want, wantm = ref.continuum(kind, P, 3., .25, 2.)
        ctx.visit(name, quad)
        tol = 1e-9 if dtype != "float32" else 1e-5
        compare(ctx, part, (K, M), (want, wantm), tol)
    return run


def whole(part):
    def run(ctx):
        """Whole-numbered coordinates of all elements, layouts, first corners"""
        name = ctx.choose("element", list(elems.CONTINUUM))
        fun, kind, et, mode = elems.CONTINUUM[name]
        nat = ref.nat_nodes(kind)
        n = len(nat)
        corners = 3 if kind.startswith("tri") else 4
        start = ctx.choose("first corner", range(corners))
        bend = ctx.choose("shape", ["straight", "trapezoid", "mid nodes",
                                    "slender"])
        at = ctx.choose("position", [(0, 0), (30, 20), (-90, -80), (-24, -24),
                                     (1000, -2000)])
        dtype = ctx.choose("dtype", ["float64", "int64", "int32", "int16",
                                     "float32"])
        lay = ctx.choose("layout", ["C", "Fortran", "view", "read-only"])
        P = np.round(12*(nat - nat.min(axis=0)))
        # mid nodes between the corners, then moved
        if bend == "trapezoid":
            P[:, 0] += P[:, 1]*P[:, 0]/24
            P = np.round(P)
        elif bend == "slender":
            P[:, 0] *= 50
        elif bend == "mid nodes":
            ctx.require(n > corners)
            P[corners:] += np.array([[1, -1], [1, 1], [-1, 1], [0, 1], [1, 2]]
                                    )[:n - corners]
        loop = list(range(start, corners)) + list(range(start))
        order = loop + [corners + k for k in loop if n > corners] + [8]*(n == 9)
        P = P[order] + at
        given = P.astype(dtype)
        if lay == "Fortran":
            given = np.asfortranarray(given)
        elif lay == "view":
            given = np.column_stack([given[:, 0], given[:, 0]*0, given[:, 1]]
                                    )[:, ::2]
        elif lay == "read-only":
            given.flags.writeable = False
        ctx.visit(name, start, bend, at, dtype, lay)
        K, M = fun(given, (3, 0.25, 2))
        want, wantm = ref.continuum(kind, P, 3., .25, 2.)
        tol = 1e-9 if dtype not in ("float32", "int16") else 2e-4
        ctx.same(given, P, "coordinates were modified")
        compare(ctx, part, (K, M), (want, wantm), tol)
    return run


def line_constants(part):
    def run(ctx):
        """All moduli, areas, second moments and densities"""
        name = ctx.choose("element", list(elems.LINE))
        E = ctx.choose("Young modulus", elems.YOUNG)
        values = [E]
        if name.startswith("beam"):
            values.append(ctx.choose("second moment", [1e-16, 1e-9, 1e-4, .3,
                                                       50., 1e6]))
        if name == "beam":
            values.append(ctx.choose("area", [1e-8, 1e-4, .2, 3., 1e4]))
        if name == "truss":
            values.append(ctx.choose("area", [1e-8, 1e-4, .2, 1., 3., 1e4]))
        one = [(), (.5,), (7e3,), (7.85e-9,), (1e-15,), (1e9,)]
        more = {"spring": [(), (9.,), (9., 8., 7.), (9., 8., 7., 6.),
                           (0., 0., 0., 0., 0., 2.)], "truss": one, "beam": one,
                "beamDU": [(), (.5, 2.), (7e3, 1e-4), (7.85e-9, 1e3),
                           (1e-15, 1e4), (1e9, 1e-10), (1., 1.)]}[name]
        values += ctx.choose("density (and area)", more)
        d, L = ctx.choose("axis", [((1., 0.), 2.), ((.6, -.8), 1e-2),
                                   ((-.28, .96), 30.)])
        coord = np.array([[3., 1], [3., 1] + L*np.array(d)])
        fun, et = elems.LINE[name]
        K, M = fun(coord, np.array(values))
        want, wantm = ref.element(et, coord, values)
        ctx.visit(name, values, L)
        n = len(K)//2
        s = np.ones(2*n)
        if n == 3:
            s[2::3] = 1/L
        S = np.outer(s, s)
        if part == 0 or name != "spring":
            compare(ctx, part, (K, M), (want, wantm), 1e-9, S)
        if name == "beam" and part == 0:
            # axial and bending parts by themselves
            t = np.array([d[0], d[1], 0, -d[0], -d[1], 0])
            big = np.abs(want*S).max()
            ctx.close((K @ t - want @ t)*s, 0*t, "axial stiffness", tol=1e-9,
                      scale=max(np.abs(want @ t).max(), 1e-5*big))
            v = np.array([-d[1], d[0], 0, d[1], -d[0], 0])
            ctx.close((K @ v - want @ v)*s, 0*t, "bending stiffness", tol=1e-9,
                      scale=max(np.abs((want @ v)*s).max(), 1e-5*big))
    return run


def whole_lines(part):
    """Whole-numbered coordinates and parameters of the line elements"""
    axes = [(3, 4), (-4, 3), (0, 7), (0, -2), (5, 0), (-6, 0), (-8, -15),
            (12, -5), (1, 1), (2, 100), (-100, 1), (300, -400)]

    def run(ctx):
        name = ctx.choose("element", list(elems.LINE))
        fun, et = elems.LINE[name]
        d = ctx.choose("axis", axes)
        at = ctx.choose("position", [(0, 0), (30, 20), (-900, -800), (3, -5)])
        dtype = ctx.choose("dtype", ["float64", "int64", "int32", "int16",
                                     "float32"])
        lay = ctx.choose("layout", ["C", "Fortran", "view", "read-only"])
        par = ctx.choose("parameters", ["floats", "whole", "whole tuple"])
        values = {"spring": (7,), "truss": (7, 3, 2), "beamDU": (7, 3, 2, 5),
                  "beam": (7, 3, 5, 2)}[name]
        P = np.array([at, np.add(at, d)], dtype=float)
        given = P.astype(dtype)
        if lay == "Fortran":
            given = np.asfortranarray(given)
        elif lay == "view":
            given = np.repeat(given, 2, axis=0)[::2]
        elif lay == "read-only":
            given.flags.writeable = False
        params = {"floats": np.array(values, dtype=float),
                  "whole": np.array(values), "whole tuple": values}[par]
        ctx.visit(name, d, at, dtype, lay, par)
        got = fun(given, params)
        want = ref.element(et, P, tuple(map(float, values)))
        ctx.same(given, P, "coordinates were modified")
        if part == 0 or name != "spring":
            L = np.hypot(*d)
            s = np.ones(len(want[0]))
            if len(s) == 6:
                s[2::3] = 1/L
            compare(ctx, part, got, want,
                    1e-9 if dtype not in ("float32", "int16") else
                    2e-5, np.outer(s, s))
    return run


def shapes3d(kind):
    """(label, coordinates) of solid elements of size 10"""
    nat = 10*(ref.nat_nodes(kind) + 1)
    n = len(nat)
    moved = nat + np.array([[3, 1, -2], [0, 0, 0], [-1, 2, 2],
                            [1, 1, 0]]*2)[:n]
    out = [("regular", nat), ("moved", moved)]
    for label, A in (("flat", np.diag([6, 3, .1])),
                     ("needle", np.diag([.1, 8, .1])),
                     ("skew", np.array([[1, .5, 0], [0, 1, -.7],
                                        [0, 0, 1]]))):
        out.append((label, nat @ A))
    cyc = np.array([[0, 1, 0], [0, 0, 1], [1., 0, 0]])
    r = np.eye(3)
    r[:2, :2] = [[.6, -.8], [.8, .6]]
    tiny = np.eye(3)
    tiny[:2, :2] = [[np.cos(1e-5), -np.sin(1e-5)],
                    [np.sin(1e-5), np.cos(1e-5)]]
    for label, A in (("turned", r @ cyc), ("cyclic", cyc),
                     ("half turn", np.diag([-1., -1, 1])),
                     ("tilted", tiny)):
        out.append((label, moved @ A.T))
    return out


def revolved():
    """(label, sections) of axisymmetric elements of size 24"""
    nat = ref.nat_nodes("quad9")
    sec = 12*(nat + 1)
    bend = np.array([[0, 0]]*4 + [[1, 1], [2, 0], [0, 0], [1, -1], [1, 2]])
    move = np.array([[0, 0], [0, 0], [4, 2], [0, 0], [0, 0], [2, 1], [2, 1],
                     [0, 0], [1, 1]])
    skew = np.column_stack([sec[:, 1], sec[:, 0]*0])
    turn = sec[[1, 2, 3, 0, 5, 6, 7, 4, 8]]
    return [("square", sec), ("thin", sec*[1, 60]), ("flat", sec*[60, 1]),
            ("distorted", sec + move), ("curved", sec + bend),
            ("skew", sec + skew), ("other corner", turn)]


def others(part):
    """Axisymmetric and solid elements"""
    def run(ctx):
        name = ctx.choose("element", ["axi9", "tet4", "hex8"])
        fun, kind, _, mode = {**elems.AXI, **elems.SOLID}[name]
        cat = revolved() if name == "axi9" else shapes3d(kind)
        label, coord = ctx.choose("shape", cat)
        at = ctx.choose("position", [(0, 0), (30, -200), (900, 70), (90000, -40)]
                        if name == "axi9" else
                        [(0, 0, 0), (-300, -400, -100), (70, 900, -500)])
        size = ctx.choose("size", [1., 1e-6, 1e-3, 1e5])
        E, nu, rho = ctx.choose("material", [
            (70., .3, 2.), (1e-6, 0., 1e-9), (2e11, .499, 7850.),
            (3., -.9, 1e6), (1e3, .1, 1.)])
        how = ctx.choose("parameters", ["tuple", "list", "row"])
        coord = (coord + np.array(at))*size
        given = coord.copy()
        ctx.visit(name, label, at, size, E)
        got = fun(given, elems.container(how, (E, nu, rho)))
        want = ref.continuum(kind, coord, E, nu, rho, mode=mode)
        ctx.same(given, coord, "coordinates were modified")
        # far away the differences of the coordinates lose digits
        far = np.abs(coord).max()/np.ptp(coord, axis=0).min()
        tol = max(1e-9, 1e-13*far**2)
        compare(ctx, part, got, want, tol)
        A = np.asarray(got[part])
        big = np.abs(want[part]).max()
        ctx.close(A, A.T, "symmetry", tol=1e-10, scale=big)
        ev = np.linalg.eigvalsh((A + A.T)/2)
        if part == 1:
            ctx.check(ev[0] > 0, "mass is not positive definite", got=ev)
            nd = 2 if name == "axi9" else 3
            pts, wts = ref.rule(kind)
            vol = 0.
            for p, w in zip(pts, wts):
                N, d = ref.shape(kind, p)
                J = np.linalg.det(d @ coord)
                vol += w*J*(2*np.pi*(N @ coord[:, 0]) if nd == 2 else 1.)
            for d in range(nd):
                t = np.zeros(len(A))
                t[d::nd] = 1
                ctx.close(t @ A @ t, rho*vol, "mass of a translation",
                          tol=tol)
            return
        ctx.check(ev[0] >= -max(1e-9, tol)*ev[-1], "negative energy", got=ev)
        if name == "axi9":
            modes = np.zeros((1, 18))
            modes[0, 1::2] = 1
        else:
            c = (coord - coord.mean(axis=0))/np.ptp(coord)
            modes = np.zeros((6, A.shape[0]))
            for d in range(3):
                e, f = (d + 1) % 3, (d + 2) % 3
                modes[d, d::3] = 1
                modes[3 + d, e::3] = -c[:, f]
                modes[3 + d, f::3] = c[:, e]
        for v in modes:
            ctx.close(A @ v, 0*v, "rigid motion has energy",
                      tol=max(1e-9, tol), scale=big*np.abs(v).max())
        if label in ("regular", "moved", "square", "distorted", "turned",
                     "curved") and not any(at):
            ctx.check((ev > 1e-8*ev[-1]).sum() == len(A) - len(modes),
                      "rank", got=ev)
    return run
