"""Input folders in the text format of the package"""
import contextlib
import os
import shutil
import tempfile

import numpy as np


@contextlib.contextmanager
def scratch():
    base = os.environ.get("MC_SCRATCH")
    folder = tempfile.mkdtemp(dir=base)
    old = os.getcwd()
    try:
        yield folder
    finally:
        os.chdir(old)
        shutil.rmtree(folder, ignore_errors=True)


def number(x, style):
    if float(x).is_integer() and abs(x) < 1e15 and style in ("plain",
                                                             "padded"):
        return "%d" % x
    return {"plain": "%.17g", "float": "%.17g", "exp": "%.16e",
            "EXP": "%+.16E", "padded": "%25.17g"}[style] % x


def write(path, table, style="plain", sep="  ", before="", after="",
          tail="", newline="\n", integer=False, final=True):
    """One table; integer tables are written with integers in any style"""
    rows = []
    for row in np.atleast_2d(table):
        cells = ["%d" % x if integer else number(x, style) for x in row]
        rows.append(sep.join(cells) + tail)
    text = before + newline.join(rows) + (newline if final else "") + after
    with open(path, "w", newline="") as f:
        f.write(text)


FORMATS = {
    "plain": dict(),
    "scientific": dict(style="exp"),
    "capital E with signs": dict(style="EXP", sep=" "),
    "tabs": dict(sep="\t", style="float"),
    "aligned columns": dict(style="padded", sep=" "),
    "comments": dict(before="# id x y\n", after="# end\n",
                     tail="   # a comment"),
    "blank lines": dict(before="\n\n", after="\n\n"),
    "blanks around": dict(before="   ", tail="  \t"),
    "CRLF": dict(newline="\r\n"),
    "no final newline": dict(final=False),
}


def folder(path, nodes, cons, elements, mats, loads, fmt):
    opt = FORMATS[fmt]
    write(os.path.join(path, "nodes.txt"), np.column_stack([nodes, cons]),
          **opt)
    write(os.path.join(path, "mater.txt"), mats, **opt)
    write(os.path.join(path, "eles.txt"), elements, integer=True, **opt)
    write(os.path.join(path, "loads.txt"), loads, **opt)
