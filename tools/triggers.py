#!/opt/venv/bin/python
"""Trigger matrix (development tool, no registered check uses it).

For each function of solidspy and each condition on its arguments, make a copy
of the package whose function returns a slightly wrong result only when the
condition holds, and see whether the quick check of the property notices:
    triggers.py OUT [filter]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

WRAP = '''

def _mc_wrap(f):
    import functools
    import inspect
    import numpy as np
    from scipy.sparse import issparse
    sig = inspect.signature(f)
    calls = [0]

    def corrupt(r, where):
        if isinstance(r, tuple):
            k = where if where is not None else 0
            return tuple(corrupt(x, None) if q == k else x
                         for q, x in enumerate(r))
        if issparse(r):
            return r*1.001
        if isinstance(r, np.ndarray):
            if r.dtype.kind in "fc":
                return r*1.001
            r = r.copy()
            if r.size:
                r.flat[0] += 1
            return r
        if isinstance(r, list):
            return r[:-1] + [r[-1] + 1] if r else r
        if isinstance(r, (int, np.integer)):
            return r + 1
        if isinstance(r, (float, complex)):
            return r*1.001
        return r

    @functools.wraps(f)
    def g(*args, **kw):
        calls[0] += 1
        before = sig.bind(*args, **kw)
        before.apply_defaults()
        a = before.arguments
        ncalls = calls[0]
        try:
            on = bool(eval(CONDITION, dict(a=a, np=np, n=ncalls, **a)))
        except Exception:
            on = False
        r = f(*args, **kw)
        return corrupt(r, WHERE) if on else r
    return g


NAME = _mc_wrap(NAME)
'''

NODES = {
    "n=3": "len(nodes) == 3", "n>10": "len(nodes) > 10",
    "n>40": "len(nodes) > 40",
    "n>130": "len(nodes) > 130", "n>300": "len(nodes) > 300",
    "int coords": "nodes.dtype.kind == 'i'",
    "F order": "nodes.flags.f_contiguous and not nodes.flags.c_contiguous",
    "far": "np.abs(nodes[:, 1:3]).min() > 50",
    "tiny": "np.ptp(nodes[:, 1:3]) < 1e-5",
    "huge": "np.ptp(nodes[:, 1:3]) > 1e5",
    "all negative": "nodes[:, 1:3].max() < 0",
    "no origin": "np.abs(nodes[:, 1:3]).sum(1).min() > 0",
    "repeated x": "len(set(nodes[:, 1])) == len(nodes)",
    "numbering": "nodes[0, 1] > nodes[-1, 1]",
    "numbering y": "nodes[0, 2] > nodes[-1, 2]",
}
ELEMENTS = {
    "ne=1": "len(elements) == 1", "ne>10": "len(elements) > 10",
    "ne>60": "len(elements) > 60",
    "ids": "elements[0, 0] != 0", "mixed": "len(set(elements[:, 1])) > 1",
    "valence>=5": "np.bincount(elements[:, 3:].ravel()).max() >= 5",
    "valence>=7": "np.bincount(elements[:, 3:].ravel()).max() >= 7",
    "unused node": "np.bincount(elements[:, 3:].ravel(), "
                   "minlength=len(nodes)).min() == 0",
    "last first": "elements[0, 3:].max() == len(nodes) - 1",
    "descending": "(np.diff(elements[:, 3]) < 0).all() "
                  "and len(elements) > 1",
    "wide": "elements.shape[1] > 3 + 9",
}
for t in range(1, 9):
    ELEMENTS["type %d" % t] = "elements[0, 1] == %d" % t
MATS = {
    "one mat": "len(mats) == 1", ">=3 mats": "len(mats) >= 3",
    "density": "mats.shape[1] == 3", "no density": "mats.shape[1] == 2",
    "stiff": "mats[:, 0].max() > 1e9", "soft": "mats[:, 0].min() < 1e-2",
    "unused mat": "len(set(elements[:, 2])) < len(mats)",
    "mats permuted": "elements[0, 2] == len(mats) - 1 and len(mats) > 1",
    "same mat neighbours": "len(elements) > 1 and "
                           "(np.diff(elements[:, 2]) == 0).any() and "
                           "len(set(elements[:, 2])) > 1",
    "equal rows": "len(mats) > 1 and (mats[0] == mats[-1]).all()",
}
POIS = {
    "nu=0": "0 in mats[:, 1]", "nu<0": "mats[:, 1].min() < 0",
    "nu>.4": "mats[:, 1].max() > .4 and mats[:, 1].max() < .5",
}
DISP = {
    "u<0": "np.all(sol_complete <= 0) and np.any(sol_complete)",
    "ux=0": "np.all(sol_complete[:, 0] == 0)",
    "uy=0": "np.all(sol_complete[:, 1] == 0)",
    "tiny u": "0 < np.abs(sol_complete).max() < 1e-7",
    "large u": "np.abs(sol_complete).max() > 1e5",
    "int u": "sol_complete.dtype.kind == 'i'",
}
CONS = {
    "nd=1": "ndof_node == 1", "nd=2": "ndof_node == 2",
    "nd=3": "ndof_node == 3",
    "nd=6": "ndof_node == 6", "none": "not np.any(cons)",
    "one": "np.count_nonzero(cons) == 1", "last": "cons.flat[-1] == -1",
    "half node": "np.any((np.asarray(cons) != 0).any(1) & "
                 "~(np.asarray(cons) != 0).all(1))",
    "most": "np.count_nonzero(cons) > cons.size*.7",
    "float": "cons.dtype.kind == 'f'",
    "n>10": "len(cons) > 10", "n>130": "len(cons) > 130",
    "n>1100": "len(cons) > 1100", "n>17000": "len(cons) > 17000",
    "F order": "cons.flags.f_contiguous and not cons.flags.c_contiguous",
    "alternate": "len(cons) > 3 and np.all(np.asarray(cons)[::2] == -1) "
                 "and not np.any(np.asarray(cons)[1::2])",
    "x only": "np.all(np.asarray(cons)[:, 0] == -1) and "
              "not np.any(np.asarray(cons)[:, 1])",
}
ASSEM = {
    "neq=1": "neq == 1", "neq>20": "neq > 20", "neq>100": "neq > 100",
    "neq>500": "neq > 500", "uel": "uel is not None",
    "3D": "nodes.shape[1] == 4", "1D": "nodes.shape[1] == 2",
    "free": "assem_op.min() >= 0", "restrained element":
        "np.any(np.all(assem_op[:, :len(elements[0, 3:])*2] == -1, axis=1))",
}
LOADS = {
    "no load": "len(loads) == 0", "one load": "len(loads) == 1",
    ">20": "len(loads) > 20", ">300": "len(loads) > 300",
    "repeated": "len(set(loads[:, 0])) < len(loads)",
    "repeated 3": "np.bincount(loads[:, 0].astype(int)).max() == 3",
    "not adjacent": "len(loads) > 2 and loads[0, 0] == loads[-1, 0] != "
                    "loads[1, 0]",
    "int": "loads.dtype.kind == 'i'", "last node":
        "len(bc_array) - 1 in loads[:, 0]",
    "zero x": "np.all(loads[:, 1] == 0) and np.any(loads[:, -1])",
    "equal": "len(loads) > 1 and np.all(loads[0, 1:] == loads[1, 1:]) and "
             "loads[0, 0] != loads[1, 0]",
    "tiny": "0 < np.abs(loads[:, 1:]).max() < 1e-8",
    "large": "np.abs(loads[:, 1:]).max() > 1e8",
    "descending": "len(loads) > 1 and np.all(np.diff(loads[:, 0]) < 0)",
    "on support": "np.any(bc_array[loads[:, 0].astype(int)] == -1)",
    "nd=1": "ndof_node == 1", "nd=3": "ndof_node == 3",
    "neq>1000": "neq > 1000",
}
COORD = {
    "int": "coord.dtype.kind == 'i'", "tiny": "np.ptp(coord) < 1e-5",
    "huge": "np.ptp(coord) > 1e5", "far": "np.abs(coord).min() > 50",
    "negative": "coord.max() < 0",
    "thin": "np.ptp(coord[:, 0]) > 20*np.ptp(coord[:, 1])",
    "tall": "np.ptp(coord[:, 1]) > 20*np.ptp(coord[:, 0])",
    "upside down": "coord[0, 1] > coord[2, 1]",
    "leftwards": "coord[1, 0] < coord[0, 0]",
    "rotated": "abs(coord[1, 0] - coord[0, 0]) < "
               ".1*abs(coord[1, 1] - coord[0, 1])",
    "origin": "not coord[0].any()", "list": "isinstance(params, list)",
    "tuple": "isinstance(params, tuple)",
    "two": "len(params) == 2", "three": "len(params) == 3",
    "nu=0": "params[1] == 0", "nu<0": "params[1] < 0",
    "stiff": "params[0] > 1e9", "soft": "params[0] < 1e-2",
    "light": "params[-1] < 1e-2", "heavy": "params[-1] > 1e3",
    "not parallelogram": "len(coord) in (4, 8, 9) and abs(coord[0] - coord[1]"
                         " + coord[2] - coord[3]).max() > 1e-9",
    "curved": "len(coord) == 6 and abs(coord[3] - (coord[0] + coord[1])/2)"
              ".max() > 1e-9*np.ptp(coord)",
    "curved q": "len(coord) in (8, 9) and abs(coord[4] - (coord[0] + "
                "coord[1])/2).max() > 1e-9*np.ptp(coord)",
    "off centre": "len(coord) == 9 and abs(coord[8] - coord[:4].mean(0))"
                  ".max() > 1e-9*np.ptp(coord)",
}
LINE = {
    "down left": "(coord[1] - coord[0] < -1e-12).all()",
    "down right": "coord[1, 0] > coord[0, 0] and coord[1, 1] < coord[0, 1]",
    "up left": "coord[1, 0] < coord[0, 0] and coord[1, 1] > coord[0, 1]",
    "left": "coord[1, 0] < coord[0, 0] and coord[1, 1] == coord[0, 1]",
    "down": "coord[1, 0] == coord[0, 0] and coord[1, 1] < coord[0, 1]",
    "short": "np.linalg.norm(coord[1] - coord[0]) < 1e-5",
    "long": "np.linalg.norm(coord[1] - coord[0]) > 1e5",
    "int": "coord.dtype.kind == 'i'", "far": "np.abs(coord).min() > 50",
    "two": "len(params) == 2", "three": "len(params) == 3",
    "four": "len(params) == 4", "E=I": "params[0] == params[1]",
    "stiff": "params[0] > 1e9", "slender": "params[1] < 1e-4",
}
CONTINUUM = ["elast_tri3", "elast_tri6", "elast_quad4", "elast_quad9",
             "elast_quad8"]
PT = {
    "vertex": "abs(r) == 1 and abs(s) == 1", "origin": "r == 0 and s == 0",
    "side": "abs(r) == 1 and abs(s) < 1", "outside": "abs(r) > 1",
    "r<0": "r < 0 and s > 0", "s<0": "s < 0 and r > 0", "r=s": "r == s != 0",
    "thirds": "abs(r - 1/3) < 1e-9 and abs(s - 1/3) < 1e-9",
    "gauss": "abs(abs(r) - 3**-.5) < 1e-9",
    "gauss 3": "abs(abs(r) - .6**.5) < 1e-9 and s == 0",
}
# module, function, result that is corrupted, property, conditions
JOBS = []


def add(module, names, where, props, *conds):
    for name in ([names] if isinstance(names, str) else names):
        for prop in props.split():
            for group in conds:
                for key, cond in group.items():
                    JOBS.append((module, name, where, prop, key, cond))


add("assemutil", "eqcounter", 1, "C01", CONS)
add("assemutil", "DME", 0, "C01", {k: v.replace("ndof_node", "ndof_node")
                                   for k, v in CONS.items()},
    {k: v for k, v in ELEMENTS.items() if "nodes" not in v})
add("assemutil", "sparse_assem", 0, "C02", NODES, ELEMENTS, MATS, ASSEM)
add("assemutil", "sparse_assem", 1, "C02", NODES, ELEMENTS, MATS, ASSEM)
add("assemutil", "dense_assem", 0, "C02", NODES, ELEMENTS, MATS, ASSEM)
add("assemutil", "dense_assem", 1, "C02", NODES, ELEMENTS, MATS, ASSEM)
add("assemutil", "loadasem", None, "C03", LOADS)
add("solutil", "static_sol", None, "C04", {
    "n=1": "len(rhs) == 1", "n=2": "len(rhs) == 2", "n>20": "len(rhs) > 20",
    "n>100": "len(rhs) > 100", "n>300": "len(rhs) > 300",
    "sparse": "not isinstance(mat, np.ndarray)",
    "dense": "isinstance(mat, np.ndarray)",
    "unsymmetric": "np.abs(mat - mat.T).max() > 1e-9",
    "tiny rhs": "0 < np.abs(rhs).max() < 1e-8",
    "large rhs": "np.abs(rhs).max() > 1e8",
    "int rhs": "rhs.dtype.kind == 'i'",
    "one load": "np.count_nonzero(rhs) == 1 and len(rhs) > 3",
    "stiff": "abs(mat).max() > 1e9", "soft": "abs(mat).max() < 1e-3",
    "wide range": "mat.diagonal().max() > 1e4*mat.diagonal().min()",
    "zero": "not rhs.any()", "diagonal": "abs(mat - np.diag(mat.diagonal()))"
    ".max() == 0"})
add("postprocesor", "complete_disp", None, "C04", {
    "nd=1": "ndof_node == 1", "nd=3": "ndof_node == 3",
    "nd=6": "ndof_node == 6",
    "free": "(bc_array >= 0).all()", "last fixed": "bc_array[-1, -1] == -1",
    "first free": "bc_array[0, 0] == 0", "n>10": "len(nodes) > 10",
    "n>130": "len(nodes) > 130", "int nodes": "nodes.dtype.kind == 'i'",
    "half": "((bc_array < 0).any(1) & (bc_array >= 0).any(1)).any()",
    "wide nodes": "nodes.shape[1] == 5"})
add("solids_GUI", "solids_auto", None, "C04", {
    "strains": "compute_strains", "no strains": "not compute_strains",
    "lone": "len(data['elements']) == 1",
    "no load": "not data['loads'][:, 1:].any()",
    "types": "data['elements'][0, 1] > 4"})
add("postprocesor", "strain_nodes", 0, "C26", NODES, ELEMENTS, MATS, POIS,
    DISP)
add("postprocesor", "strain_nodes", 1, "C26", NODES, ELEMENTS, MATS, POIS,
    DISP)
add("postprocesor", "stress_truss", None, "C23", NODES, ELEMENTS, MATS, {
    "u<0": "(disp <= 0).all() and disp.any()", "int u":
    "disp.dtype.kind == 'i'", "tiny u": "0 < np.abs(disp).max() < 1e-7",
    "large u": "np.abs(disp).max() > 1e5", "area<1": "mats[:, 1].max() < 1",
    "area>1": "mats[:, 1].min() > 10", "vertical":
    "(nodes[elements[:, 3], 1] == nodes[elements[:, 4], 1]).all()",
    "reversed": "(elements[:, 3] > elements[:, 4]).all()"})
add("postprocesor", "eigvals", 0, "C24", {
    "diagonal": "mat[0, 1] == 0", "equal": "mat[0, 0] == mat[1, 1]",
    "negative": "(np.linalg.eigvalsh(mat) < 0).all()",
    "shear": "mat[0, 0] == mat[1, 1] == 0", "shear<0": "mat[0, 1] < 0",
    "opposite": "mat[0, 0] == -mat[1, 1] != 0", "int": "mat.dtype.kind=='i'",
    "tiny": "0 < abs(mat).max() < 1e-4", "large": "abs(mat).max() > 1e8",
    "singular": "abs(np.linalg.det(mat)) < 1e-12 and abs(mat).max() > .1 and "
                "mat[0, 1] != 0",
    "almost": "0 < abs(mat[0, 1]) < 1e-3*abs(mat).max()", "f32":
    "mat.dtype == np.float32", "tol": "tol != 1e-6"})
add("postprocesor", "eigvals", 2, "C24", {
    "equal": "mat[0, 0] == mat[1, 1]", "negative":
    "(np.linalg.eigvalsh(mat) < 0).all()", "shear<0": "mat[0, 1] < 0",
    "diagonal": "mat[0, 1] == 0 and mat.any()"})
add("postprocesor", "principal_dirs", 0, "C24", {
    "one": "len(field) == 1", "n>10": "len(field) > 10", "n>100":
    "len(field) > 100", "zero row": "(field == 0).all(1).any()",
    "repeated": "len(field) > 1 and (field[0] == field[1]).all()",
    "int": "field.dtype.kind == 'i'", "wide": "field.shape[1] > 3",
    "F": "not field.flags.c_contiguous"})
add("postprocesor", "energy", None, "C29", {
    "n=1": "len(disp) == 1", "n>20": "len(disp) > 20", "n>100":
    "len(disp) > 100", "sparse": "not isinstance(stiff, np.ndarray)",
    "dense": "isinstance(stiff, np.ndarray)", "tiny":
    "0 < np.abs(disp).max() < 1e-6", "zero": "not disp.any()",
    "negative": "(disp <= 0).all() and disp.any()"})
for K, p in ((0, "C05"), (1, "C06")):
    add("uelutil", CONTINUUM, K, p, COORD)
    add("uelutil", ["elast_axi_quad9"], K, p + " C34", {
        k: v for k, v in COORD.items() if k not in ("two", "negative",
                                                     "leftwards")})
    add("uelutil", ["elast_tet4", "elast_hex8"], K, p + " C35", {
        k: COORD[k] for k in ("int", "tiny", "huge", "far", "list", "tuple",
                              "nu=0", "nu<0", "stiff", "light", "leftwards",
                              "origin")})
    add("uelutil", ["truss2D", "beam2DU", "beam2D"], K, p, LINE)
add("uelutil", "spring", 0, "C05", {k: v for k, v in LINE.items()
                                    if "params" not in v})
add("uelutil", ["beam2DU", "beam2D"], 0, "C28", LINE)
add("uelutil", ["truss2D", "spring", "beam2D", "beam2DU"], 0, "C08 C09", {
    k: LINE[k] for k in ("down left", "down right", "up left", "left",
                         "down")})
add("uelutil", CONTINUUM[:4], 0, "C07 C08 C09", {
    k: COORD[k] for k in ("upside down", "leftwards", "rotated", "far",
                          "not parallelogram")})
add("femutil", ["shape_tri3", "shape_tri6", "shape_quad4", "shape_quad8",
                "shape_quad9", "shape_hex8", "shape_tet4"], 0, "C11", PT)
add("femutil", ["shape_tri6", "shape_quad4", "shape_quad8", "shape_quad9",
                "shape_hex8"], 1, "C11", PT)
EL = {"tiny": "np.ptp(coord) < 1e-5", "huge": "np.ptp(coord) > 1e5",
      "far": "np.abs(coord).min() > 50", "int": "coord.dtype.kind == 'i'",
      "negative": "coord.max() < 0", "origin": "r == 0 and s == 0",
      "vertex": "abs(r) == 1 and abs(s) == 1"}
add("femutil", "elast_diff_2d", 0, "C11", EL)
add("femutil", "elast_diff_2d", 1, "C11", EL)
add("femutil", "elast_diff_2d", 2, "C11", EL)
add("femutil", "elast_diff_axi", 1, "C11", EL)
add("femutil", "elast_diff_3d", 1, "C11", EL)
add("femutil", "jacoper", 0, "C11", {
    "3D": "coord.shape[1] == 3", "tiny": "np.ptp(coord) < 1e-5",
    "huge": "np.ptp(coord) > 1e5", "int": "coord.dtype.kind == 'i'",
    "diagonal": "abs((dNdr @ coord)[0, 1]) < 1e-12",
    "rotated": "abs((dNdr @ coord)[0, 0]) < 1e-12"})
LAW = {"nu=0": "params[1] == 0", "nu<0": "params[1] < 0", "nu<-.5":
       "params[1] < -.5", "nu>.45": "params[1] > .45", "nu>.499":
       "params[1] > .499", "list": "isinstance(params, list)",
       "tuple": "isinstance(params, tuple)", "array":
       "isinstance(params, np.ndarray)", "stiff": "params[0] > 1e9",
       "soft": "params[0] < 1e-3", "int": "isinstance(params[0], int)",
       "third": "abs(params[1] - 1/3) < 1e-6"}
add("femutil", ["umat", "elast_mat_2d", "elast_mat_axi", "elast_mat"], None,
    "C27", LAW)
UL = {"ux": "not ul[1::2].any()", "uy": "not ul[::2].any()", "u<0":
      "(ul <= 0).all() and ul.any()", "int": "coord.dtype.kind == 'i'",
      "tiny": "np.ptp(coord) < 1e-5", "huge": "np.ptp(coord) > 1e5",
      "tiny u": "0 < abs(ul).max() < 1e-7", "int u": "ul.dtype.kind == 'i'",
      "far": "np.abs(coord).min() > 50", "upside": "coord[0, 1] > coord[2, 1]",
      "list": "isinstance(ul, list)",
      "distorted": "abs(coord[0] - coord[1] + coord[2] - coord[3]).max() "
                   "> 1e-9"}
add("femutil", ["str_el3", "str_el4", "str_el6", "str_el9"], 0, "C26", UL)
add("femutil", ["str_el3", "str_el4", "str_el6", "str_el9"], 1, "C26", UL)
add("blochutil", "reassign_dof_bloch", None, "C18", {
    "none": "len(dofs_ima) == 0", "n>8": "ndofs > 8", "n>50": "ndofs > 50",
    "array": "isinstance(dofs_ima, np.ndarray)", "tuple":
    "isinstance(dofs_ima, tuple)", "image first": "0 in dofs_ima",
    "image last": "ndofs - 1 in dofs_ima", "image before":
    "any(i < r for i, r in zip(dofs_ima, dofs_ref))",
    "one reference": "len(set(dofs_ref)) == 1 and len(dofs_ref) > 2",
    "descending": "len(dofs_ima) > 1 and "
    "all(x > y for x, y in zip(dofs_ima, dofs_ima[1:]))",
    "most": "len(dofs_ima) > .7*ndofs"})
add("blochutil", "bloch_transform_mat", None, "C19", {
    "k=0": "not np.any(wavevector)", "1D": "coords.shape[1] == 1",
    "3D": "coords.shape[1] == 3", "list": "isinstance(wavevector, list)",
    "kx<0": "wavevector[0] < 0", "large k": "np.abs(wavevector).max() > 3.2",
    "nd3": "len(list(nodes_ref_dof.values())[0]) == 3", "n>20": "ndofs > 20",
    "n>50": "ndofs > 50", "int": "coords.dtype.kind == 'i'",
    "backwards": "(coords[list(nodes_ima)] < coords[list(nodes_ref)]).any()",
    "unsorted": "list(nodes_ima) != sorted(nodes_ima)",
    "imaginary": "np.iscomplexobj(wavevector)",
    "no pairs": "len(nodes_ima) == 0",
    "pi": "abs(np.abs(wavevector).max() - np.pi) < 1e-12"})
add("preprocesor", "ele_writer", 1, "C20", {
    "none": "phy_sur not in cell_data[ele_tag]['gmsh:physical']",
    "one": "list(cell_data[ele_tag]['gmsh:physical']).count(phy_sur) == 1",
    "all": "all(x == phy_sur for x in cell_data[ele_tag]['gmsh:physical'])",
    "nini": "nini > 0", "mat": "mat_tag > 0", "line": "ele_tag == 'line'",
    "q9": "ele_tag == 'quad9'", "t6": "ele_tag == 'triangle6'",
    "tag 0": "phy_sur == 0", "many":
    "len(cell_data[ele_tag]['gmsh:physical']) > 100",
    "other types": "len(cells) > 1", "list":
    "isinstance(cell_data[ele_tag]['gmsh:physical'], list)"})
add("preprocesor", "node_writer", None, "C20", {
    "3D": "points.shape[1] == 3 and points[:, 2].any()",
    "2D": "points.shape[1] == 2",
    "int": "points.dtype.kind == 'i'", "many": "len(points) > 100",
    "one": "len(points) == 1", "negative": "points.max() < 0",
    "data": "bool(point_data)"})
add("preprocesor", "boundary_conditions", None, "C21", {
    "free": "bc_x == 0 and bc_y == 0", "x": "bc_x == -1 and bc_y == 0",
    "none": "phy_lin not in cell_data['line']['gmsh:physical']",
    "closed": "len(cells['line']) > 2 and cells['line'][0][0] == "
    "cells['line'][-1][1]", "many": "len(cells['line']) > 50",
    "already": "nodes_array[:, 3:].any()",
    "list": "isinstance(cell_data['line']['gmsh:physical'], list)"})
add("preprocesor", "loading", None, "C21", {
    "zero": "P_x == 0 and P_y != 0", "negative": "P_x < 0", "int":
    "isinstance(P_x, int)", "none":
    "phy_lin not in cell_data['line']['gmsh:physical']",
    "one": "list(cell_data['line']['gmsh:physical']).count(phy_lin) == 1",
    "many": "len(cells['line']) > 50", "closed": "len(cells['line']) > 2 and "
    "cells['line'][0][0] == cells['line'][-1][1]"})
add("preprocesor", "rect_grid", 0, "C22", {
    "nx=1": "nx == 1", "ny=1": "ny == 1", "nx>ny": "nx > ny", "nx<ny":
    "nx < ny", "nx>20": "nx > 20", "ny>20": "ny > 20", "L<H":
    "length < height", "int": "isinstance(length, int)", "tiny":
    "length < 1e-4", "huge": "length > 1e4", "kind": "eletype is not None"})
add("preprocesor", "rect_grid", 2, "C22", {
    "nx=1": "nx == 1", "ny=1": "ny == 1", "nx>20": "nx > 20", "ny>20":
    "ny > 20", "nx*ny>100": "nx*ny > 100"})
add("preprocesor", "readin", 0, "C15 C31", {
    "slash": "folder.endswith('/')", "no slash": "not folder.endswith('/')",
    "relative": "not folder.startswith('/')", "empty": "folder == ''",
    "blank": "' ' in folder"})
add("solids_GUI", "solids_GUI", None, "C15", {
    "strains": "compute_strains", "no strains": "not compute_strains",
    "plots": "plot_contours", "asked": "folder is None"})
add("postprocesor", "mesh2tri", None, "C25", {})
GEN = {"second call": "n == 2", "third call": "n == 3", "10th": "n == 10",
       "late": "n > 60"}
add("gaussutil", ["gauss_1d", "gauss_nd", "gauss_tri", "gauss_tet"], 0,
    "C12 C16", GEN)
add("postprocesor", ["eigvals", "strain_nodes", "stress_truss", "energy",
                     "complete_disp"], 0, "C16", GEN)
add("assemutil", ["loadasem", "DME", "sparse_assem", "dense_assem"], 0,
    "C16", GEN)
add("uelutil", ["elast_quad4", "truss2D", "beam2D", "elast_hex8"], 0, "C16",
    GEN)
add("solutil", "static_sol", None, "C16 C37", GEN)
add("preprocesor", ["rect_grid", "loading"], None, "C16", GEN)
add("blochutil", "bloch_transform_mat", None, "C16", GEN)


def work(job):
    module, name, where, prop, key, cond = job
    root = tempfile.mkdtemp(prefix="trg-")
    try:
        shutil.copytree("/repo/solidspy", os.path.join(root, "solidspy"))
        path = os.path.join(root, "solidspy", module + ".py")
        with open(path) as f:
            text = f.read()
        text = text.split('if __name__ ==')[0] + WRAP.replace(
            "CONDITION", repr(cond)).replace("WHERE", repr(where)).replace(
                "NAME", name)
        with open(path, "w") as f:
            f.write(text)
        env = dict(os.environ, MC_REPO=root)
        res = subprocess.run([PY, "run.py", prop, "--tier", "quick",
                              "--jobs", "1"], cwd=VERIF, env=env,
                             capture_output=True, text=True, timeout=1800)
        out = "killed" if res.returncode == 1 and "VIOLATION" in res.stdout \
            else "SURVIVED" if res.returncode == 0 else "ERROR"
        return dict(prop=prop, function=name, where=where, trigger=key,
                    cond=cond, result=out,
                    err=res.stderr[-300:] if out == "ERROR" else "")
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    jobs = JOBS
    if len(sys.argv) > 2:
        jobs = [j for j in JOBS if any(w in (j[1], j[3])
                                       for w in sys.argv[2:])]
    if sys.argv[1] == "count":
        print(len(jobs))
        return
    done = set()
    if os.path.exists(sys.argv[1]):
        with open(sys.argv[1]) as f:
            for line in f:
                r = json.loads(line)
                done.add((r["function"], r["where"], r["prop"],
                          r["trigger"]))
    jobs = [j for j in jobs if (j[1], j[2], j[3], j[4]) not in done]
    with ThreadPoolExecutor(8) as pool, open(sys.argv[1], "a") as f:
        for rec in pool.map(work, jobs):
            f.write(json.dumps(rec) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
