"""C31: choice of the folder, damaged folders and echo files"""
import builtins
import os
import re
import subprocess
import sys
import types

import numpy as np

import solidspy.preprocesor as pre
from solidspy.solids_GUI import solids_GUI, solids_auto
from mc import files, models, ref
from mc.core import Harness

TITLE = "The analysed files are those of the folder chosen, and stay intact"
STATEMENT = (
    "When no folder is given, the user is asked once per analysis, with the "
    "dialog if there is one and at the prompt if there is none or it is "
    "cancelled, and exactly the folder answered is analysed, whatever was "
    "chosen before, with its files as they are at that moment. A folder "
    "with a missing or torn file gives an error or the numbers that stand in "
    "it, never those of another analysis. Echo "
    "files repeat the model to their two decimals, row by row, in the folder "
    "named; input files are never changed, and a failed analysis leaves "
    "nothing behind that alters the next one.")
QUANTIFIER = dict(
    over=["histories", "fault points", "inputs"],
    text="all sequences of analyses with all answers of dialog and prompt up "
         "to a depth; all sequences of edits of the files between analyses; "
         "every truncation point of every input file; shapes of "
         "the model and names of the folder for the echo")
WHY = ("Depends on the interactive environment and on damaged files, which "
       "no test has.")
ANCHORS = dict(
    files=["solidspy/preprocesor.py", "solidspy/solids_GUI.py"],
    mechanism=[dict(name="initial_params, readin, echomod",
                    where="preprocesor.py"),
               dict(name="solids_GUI", where="solids_GUI.py")],
    observe_at=["solids_GUI()", "readin()", "files of the folder"])
TECHNIQUE = ("explicit-state exploration of all answers of the environment "
             "and all torn-write prefixes of the input files, against a model "
             "of the dialog")
LEVEL_NOTE = ("Exhaustive over the histories up to the stated depth and over "
              "every byte of every file of a small model.")

NAMES = ("nodes.txt", "mater.txt", "eles.txt", "loads.txt")


class Cancelled(Exception):
    pass


class Environment:
    """Dialog and prompt with chosen answers; records the questions"""

    def __init__(self, dialog, prompt):
        self.dialog, self.prompt = dialog, prompt
        self.asked = []

    def diropenbox(self, *args, **kw):
        self.asked.append("dialog")
        if self.dialog == "error":
            raise RuntimeError("no display")
        if self.dialog == "cancelled":
            return None
        return self.dialog

    def input(self, *args):
        self.asked.append("prompt")
        if self.prompt == "end of file":
            raise EOFError("no more input")
        return self.prompt

    def __enter__(self):
        self.old = sys.modules.get("easygui", self), builtins.input
        if self.dialog == "not installed":
            mod = None
        else:
            mod = types.ModuleType("easygui")
            mod.diropenbox = self.diropenbox
        sys.modules["easygui"] = mod
        # in case the module was imported beforehand
        self.attr = getattr(pre, "easygui", self)
        if self.attr is not self:
            pre.easygui = mod
        builtins.input = self.input
        return self

    def __exit__(self, *exc):
        if self.old[0] is self:
            del sys.modules["easygui"]
        else:
            sys.modules["easygui"] = self.old[0]
        if self.attr is not self:
            pre.easygui = self.attr
        builtins.input = self.old[1]


def small(v):
    """A small model whose results depend on v"""
    pts, conn = models.grid("quad4", 1, 1, 2. + v, 1.)
    nodes, elements = models.tables(pts, conn, 1)
    cons = np.array([[-1, -1], [0, 0], [-1, 0], [0, 0]])
    mats = np.array([[1000. + 500*v, .25]])
    loads = np.array([[1, 3., -1.], [3, 2., v]])
    return nodes, cons, elements, mats, loads


def contents(folder):
    out = {}
    for d, _, fs in os.walk(folder):
        for f in fs:
            path = os.path.join(d, f)
            with open(path, "rb") as h:
                out[os.path.relpath(path, folder)] = h.read()
    return out


def reference(v):
    nodes, cons, elements, mats, loads = small(v)
    return ref.solve(nodes, cons, elements, mats, loads)[0]


def workflow(v):
    nodes, cons, elements, mats, loads = small(v)
    return solids_auto(dict(nodes=nodes, cons=cons, elements=elements,
                            mats=mats, loads=loads), plot_contours=False)


def answers(depth, entries=("initial_params", "solids_GUI")):
    """Histories of analyses with every answer of the environment"""
    def run(ctx):
        with files.scratch() as base:
            base = os.path.realpath(base)
            places = {"first": 0, "with blank": 1, "sub/third": 2}
            for name, v in places.items():
                os.makedirs(os.path.join(base, name))
                files.folder(os.path.join(base, name), *small(v), "plain")
            os.chdir(os.path.join(base, "first"))
            before = contents(base)
            cwd = os.getcwd()
            history = []
            for step in range(depth):
                how = ctx.choose("dialog", ["path", "not installed", "error",
                                            "cancelled"])
                place = ctx.choose("folder", list(places) + ["no such"])
                full = os.path.join(base, place)
                if how == "path":
                    env = Environment(full, "must not be asked")
                    want = ["dialog"]
                else:
                    form = ctx.choose("answer at the prompt", [
                        "absolute", "trailing slash", "relative", "empty",
                        "end of file"])
                    if form == "empty":
                        ctx.require(place == "first")
                    if form == "end of file":
                        ctx.require(place == "no such")
                    text = {"absolute": full, "trailing slash": full + "/",
                            "relative": os.path.relpath(full), "empty": "",
                            "end of file": "end of file"}[form]
                    env = Environment(how, text)
                    want = ["prompt"] if how == "not installed" else \
                        ["dialog", "prompt"]
                use = ctx.choose("entry", entries)
                history.append((how, place, use))
                ctx.visit(tuple(history))
                bad = place == "no such"
                with env:
                    if use == "initial_params":
                        if how != "path" and env.prompt == "end of file":
                            ctx.raises(EOFError, pre.initial_params,
                                       "end of input")
                        else:
                            got = pre.initial_params()
                            ctx.check(os.path.abspath(got) ==
                                      os.path.abspath(full), "folder",
                                      got=got, want=full)
                            if not bad:
                                tables = pre.readin(got)
                                nod, con, ele, mat, loa = small(
                                    places[place])
                                for a, b in zip(tables, (
                                        np.column_stack([nod, con]), mat,
                                        ele, loa)):
                                    ctx.same(np.asarray(a, dtype=float),
                                             np.asarray(b, dtype=float),
                                             "files read")
                    elif bad:
                        ctx.raises((OSError, EOFError), lambda: solids_GUI(
                            plot_contours=False), "no such folder")
                    else:
                        got = solids_GUI(plot_contours=False)
                        ctx.close(got, reference(places[place]), "results",
                                  tol=1e-9)
                ctx.check(env.asked == want, "questions to the user",
                          got=env.asked, want=want)
                ctx.check(contents(base) == before, "files were changed")
                ctx.check(os.getcwd() == cwd, "current folder")
    return run


FOLDERS = ["plain", " front", "back ", " both ", "dot.", ".hidden", "Upper",
           "two  blanks", "quote'd", 'double"d', "\u00fcml\u00e4ut", "a*b",
           "[ab]", "q?", "-dash", "#hash", "100%", "%s {} {0}", "semi;colon",
           "back\\slash", "comma,", "1e5", "nodes.txt", "None", "a.b.c",
           "data.txt.d", "x/../y", "link/../data", "./deep/./er",
           "deep//er", "loop/loop/plain", "~", "~root", "$HOME", "${PWD}x",
           "%HOME%", "$$"]


def names(ctx):
    """Folders with unusual names, next to similar ones"""
    name = ctx.choose("folder", FOLDERS)
    how = ctx.choose("given", ["dialog", "prompt", "prompt, slash",
                               "prompt, relative", "argument",
                               "argument, slash", "argument, relative",
                               "argument, empty", "readin", "readin, relative"])
    with files.scratch() as base:
        base = os.path.realpath(base)
        os.makedirs(os.path.join(base, "other", "sub"))
        os.symlink(os.path.join(base, "other", "sub"),
                   os.path.join(base, "link"))
        os.symlink(base, os.path.join(base, "loop"))
        os.mkdir(os.path.join(base, "x"))
        full = os.path.join(base, name)
        # another model wherever a cleaned or shortened name would lead
        near = {name.strip(), name.rstrip("."), name.lstrip("."),
                name.lower(), " ".join(name.split()), name.split("/")[-1],
                name.split("#")[0], name.replace("\\", "/"),
                name.replace("\\", ""), name.split(".")[0],
                name.strip(",;-?*#%"), os.path.normpath(name),
                name.replace("'", ""), name.replace('"', ""), "",
                os.path.splitext(name)[0], "ab", "a", "b", "q", "data"}
        os.makedirs(full, exist_ok=True)
        for other in sorted(near):
            path = os.path.join(base, other)
            if os.path.realpath(path) != os.path.realpath(full):
                os.makedirs(path, exist_ok=True)
                if name != "nodes.txt" or other:
                    files.folder(path, *small(2), "plain")
        files.folder(full, *small(1), "plain")
        os.chdir(base)
        before = contents(base)
        ctx.visit(name, how)
        text = {"slash": full + "/", "relative": name}.get(
            how.split(", ")[-1], full)
        if how == "dialog":
            with Environment(full, "must not be asked"):
                got = solids_GUI(plot_contours=False)
        elif how.startswith("prompt"):
            with Environment("not installed", text):
                got = solids_GUI(plot_contours=False)
        elif how == "argument, empty":
            os.chdir(full)
            with Environment("not installed", base):
                got = solids_GUI(plot_contours=False, folder="")
            os.chdir(base)
        elif how.startswith("argument"):
            got = solids_GUI(plot_contours=False, folder=text)
        else:
            full = small(1)
            got = pre.readin(text)
            for a, b in zip(got, (np.column_stack(full[:2]), full[3],
                                  full[2], full[4])):
                ctx.same(np.asarray(a, float), np.asarray(b, float),
                         "tables of the folder")
            got = None
        if got is not None:
            ctx.close(got, reference(1), "results", tol=1e-9)
        ctx.check(contents(base) == before, "files were changed")


def parse(text):
    """Independent reader: rows of numbers, None if it is not a table"""
    rows = []
    for line in text.split("\n"):
        cells = line.split("#")[0].split()
        if cells:
            try:
                rows.append([float(c) for c in cells])
            except ValueError:
                return None
    if len({len(r) for r in rows}) > 1:
        return None
    return np.array(rows)


def torn(fmt):
    """Every prefix of every file, as an interrupted write leaves it"""
    def run(ctx):
        which = ctx.choose("file", range(4))
        with files.scratch() as base:
            files.folder(base, *small(1), fmt)
            path = os.path.join(base, NAMES[which])
            with open(path) as f:
                text = f.read()
            n = ctx.choose("bytes written", range(len(text) + 1))
            with open(path, "w") as f:
                f.write(text[:n])
            before = contents(base)
            want = parse(text[:n])
            ctx.visit(which, n)
            # named from the folder above, or from the root
            top = os.path.dirname(os.path.realpath(base))
            os.chdir(top)
            name = os.path.basename(base) if n % 2 else base
            # an earlier analysis must not show through
            good = small(0)
            solids_auto(dict(zip(("nodes", "cons", "elements", "mats",
                                  "loads"), good)), plot_contours=False)
            if which == 2 and want is not None and not np.all(
                    want == np.round(want)):
                want = None
            try:
                tables = pre.readin(name)
            except (ValueError, OSError):
                ctx.check(want is None or want.size == 0,
                          "a readable table was refused", text=text[:n])
            else:
                got = tables[which]
                if want is None:
                    ctx.fail("a torn table was accepted", text=text[-60:],
                             got=got)
                if want.size:
                    ctx.close(got, want, "numbers of the table", tol=0)
                else:
                    ctx.check(got.size == 0, "empty table", got=got)
                full = small(1)
                others = [np.column_stack([full[0], full[1]]), full[3],
                          full[2], full[4]]
                for k in range(4):
                    if k != which:
                        ctx.close(tables[k], others[k], "other tables",
                                  tol=0)
            # the whole analysis: an error, or the answer of these numbers
            try:
                res = solids_GUI(plot_contours=False, folder=name)
            except Exception as exc:
                ctx.check(not isinstance(exc, (SystemError, MemoryError)),
                          "kind of error")
                ctx.check(n < len(text.rstrip()), "a complete file failed",
                          error=repr(exc))
            else:
                ctx.check(want is not None, "analysis of a torn table")
                if n >= len(text.rstrip()):
                    ctx.close(res, reference(1), "results", tol=1e-9)
            ctx.check(contents(base) == before, "files were changed")
            ctx.check(os.getcwd() == top, "current folder", got=os.getcwd())
            # and the next analysis is right
            ctx.close(workflow(1), reference(1), "next analysis", tol=1e-9)
    return run


def missing(ctx):
    """Every combination of missing files and folders in place of files"""
    state = [ctx.choose("state of " + n, ["there", "missing", "folder"])
             for n in NAMES]
    entry = ctx.choose("entry", ["readin", "solids_GUI"])
    given = ctx.choose("given", ["absolute", "relative", "relative, slash"])
    with files.scratch() as top:
        # complete models around the folder must not be used instead
        files.folder(top, *small(2), "plain")
        base = os.path.join(top, "job")
        for sub in ("job", "job1", "JOB"):
            os.mkdir(os.path.join(top, sub))
            files.folder(os.path.join(top, sub),
                         *small(1 if sub == "job" else 2), "plain")
        for s, n in zip(state, NAMES):
            if s != "there":
                os.remove(os.path.join(base, n))
            if s == "folder":
                os.mkdir(os.path.join(base, n))
        os.mkdir(os.path.join(base, "cwd"))
        os.chdir(os.path.join(base, "cwd"))
        files.folder(os.getcwd(), *small(2), "plain")
        # another model where the path would lead from within the folder
        os.mkdir(os.path.join(base, "cwd", "job"))
        files.folder(os.path.join(base, "cwd", "job"), *small(2), "plain")
        os.mkdir(os.path.join(top, "good"))
        files.folder(os.path.join(top, "good"), *small(3), "plain")
        before = contents(top)
        cwd = os.getcwd()
        name = {"absolute": base, "relative": "../../job",
                "relative, slash": "../"}[given]
        ctx.visit(state, entry, given)

        def call():
            if entry == "readin":
                return pre.readin(name)
            return solids_GUI(plot_contours=False, folder=name)
        if state == ["there"]*4:
            got = call()
            if entry == "solids_GUI":
                ctx.close(got, reference(1), "results", tol=1e-9)
        else:
            ctx.raises((OSError, ValueError), call, "missing files",
                       state=state)
        ctx.check(os.getcwd() == cwd, "current folder", got=os.getcwd())
        # and the next analysis, named from here, is right
        ctx.close(solids_GUI(plot_contours=False, folder="../../good"),
                  reference(3), "next analysis", tol=1e-9)
        ctx.check(contents(top) == before, "files were changed")


def echo(ctx):
    """Echo files"""
    name = ctx.choose("model", ["quad4", "tri3", "tri6", "quad9", "truss",
                                "brick20"])
    where = ctx.choose("folder", ["named", "trailing slash", "current",
                                  "relative"])
    rows = ctx.choose("loads", [1, 3])
    nmat = ctx.choose("materials", [1, 2])
    stale = ctx.choose("old echo", [False, True])
    scale = ctx.choose("values", [1.0, -37.25, 1e6, .004])
    if name == "truss":
        pts, conn = models.truss_square()
        code = 6
    elif name == "brick20":
        # an element of the user with many nodes
        pts, conn = models.grid("quad9", 2, 2, 2., 1.)
        code = 20
        conn = [list(range(k, k + 20)) for k in range(4)]
    else:
        pts, conn = models.grid(name, 2, 1, 2., 1.)
        code = models.ETYPE[name]
    nodes, elements = models.tables(pts*scale, conn, code,
                                    [k % nmat for k in range(len(conn))])
    cons = np.zeros((len(pts), 2))
    cons[0] = -1
    nodes = np.column_stack([nodes, cons])
    mats = np.array([[abs(scale)*3, .25, 7.125], [2., .375, 1]])[:nmat]
    loads = np.array([[1, scale, 0], [0, -1.5*scale, 2.], [2, 0, 0.]])[:rows]
    keep = [a.copy() for a in (nodes, mats, elements, loads)]
    with files.scratch() as base:
        os.mkdir(os.path.join(base, "job"))
        os.chdir(base)
        target = os.path.join(base, "job")
        files.folder(target, *small(0), "plain")
        if where == "current":
            os.chdir(target)
        if stale:
            for f in ("KNODES", "KMATES", "KELEMS", "KLOADS"):
                with open(os.path.join(target, f + ".txt"), "w") as h:
                    h.write("1 2 3\n"*500)
        before = contents(base)
        arg = {"named": target, "trailing slash": target + "/",
               "current": "", "relative": "job"}[where]
        if where == "current":
            pre.echomod(nodes, mats, elements, loads)
        else:
            pre.echomod(nodes, mats, elements, loads, folder=arg)
        ctx.visit(name, where, rows, nmat, stale, scale)
        after = contents(base)
        new = {"job/K%s.txt" % k for k in ("NODES", "MATES", "ELEMS",
                                           "LOADS")}
        ctx.check(set(after) == set(before) | new, "files written",
                  got=sorted(after))
        for f in set(before) - new:
            ctx.check(before[f] == after[f], "another file was changed",
                      file=f)
        for f, want in (("NODES", nodes), ("MATES", mats),
                        ("ELEMS", elements), ("LOADS", loads)):
            got = parse(after["job/K%s.txt" % f].decode())
            ctx.check(got is not None and got.shape == want.shape,
                      "shape of an echo", file=f, want=want.shape)
            # two decimals
            ctx.check(np.all(np.abs(got - want) <= .005 + 1e-9*np.abs(want)),
                      "values of an echo", file=f, got=got, want=want)
            if f == "ELEMS":
                ctx.same(got, want, "element table")
        for a, b in zip(keep, (nodes, mats, elements, loads)):
            ctx.same(b, a, "arguments were modified")
        # an echoed model still reads as before
        got = pre.readin(target)
        ctx.close(got[3], small(0)[4], "input files", tol=0)


def programs(ctx):
    """The package as a program, and imports of it"""
    program = ctx.choose("program", ["-m solidspy", "solids_GUI.py",
                                     "import", "import all"])
    runs = program[:6] != "import"
    answer = ctx.choose("answer", ["absolute", "trailing slash", "relative",
                                   "empty", "no such", "end of input"]
                        if runs else ["end of input"])
    size = ctx.choose("model", [1, 2] if answer == "relative" else [3])
    package = os.path.dirname(os.path.abspath(pre.__file__))
    with files.scratch() as base:
        for n in (1, 2, 3):
            pts, conn = models.grid("quad4", n, 1, 1.*n, 1.)
            nodes, elements = models.tables(pts, conn, 1)
            cons = np.where(pts[:, :1] == pts[:, 0].min(), -1, [0, 0])
            os.mkdir(os.path.join(base, "job%d" % n))
            files.folder(os.path.join(base, "job%d" % n), nodes,
                         cons.astype(int), elements, np.array([[10., .3]]),
                         np.array([[len(pts) - 1, 1., -2.]]), "plain")
        here = os.path.join(base, "job3")
        there = os.path.join(base, "job%d" % size)
        text = {"absolute": there, "trailing slash": there + "/",
                "relative": "../job%d" % size, "empty": "",
                "no such": there + "x"}.get(answer)
        code = {"-m solidspy": ["-m", "solidspy"],
                "solids_GUI.py": [os.path.join(package, "solids_GUI.py")],
                "import": ["-c", "import solidspy"],
                "import all": ["-c", "from solidspy import *; "
                               "preprocesor.readin; assemutil.DME"]}
        before = contents(base)
        env = dict(os.environ, PYTHONPATH=os.path.dirname(package),
                   MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
        res = subprocess.run(
            [sys.executable] + code[program], cwd=here, env=env,
            input="" if text is None else text + "\n", text=True,
            capture_output=True, timeout=300)
        ctx.visit(program, answer, size)
        ctx.check(contents(base) == before, "files were changed")
        if not runs:
            ctx.check((res.returncode, res.stdout) == (0, ""),
                      "an import runs an analysis", got=res.stdout[-500:],
                      err=res.stderr[-500:])
            return
        good = answer not in ("no such", "end of input")
        ctx.check((res.returncode == 0) == good, "exit status",
                  got=res.returncode, err=res.stderr[-500:])
        found = [int(x) for x in re.findall(r"Number of \w+: (\d+)",
                                            res.stdout)]
        n = size
        ctx.check(found == ([2*n + 2, n, 4*n] if good else []),
                  "size of the analysed model", got=res.stdout[-500:])
        ctx.check(("terminated successfully" in res.stdout) == good,
                  "last message", got=res.stdout[-500:])


def version(v):
    """Tables of a small model, with versions of each file"""
    pts, conn = models.grid("quad4", 1, 1, 2. + v["nodes"], 1.)
    nodes, elements = models.tables(pts, conn, 1, v["eles"])
    cons = np.array([[-1, -1], [0, 0], [-1, 0], [0, 0]])
    mats = np.array([[1000. + 500*k + 50*v["mater"], .25] for k in range(3)])
    loads = np.array([[1, 3., -1.], [3, 2., v["loads"]]])
    return dict(nodes=np.column_stack([nodes, cons]), mater=mats,
                eles=elements, loads=loads)


def edits(depth):
    """Histories of edits of the files of a folder: rewritten in place or
    replaced, within the same tick of the clock, with the same size, the
    same dates; folders that change places"""
    files_ = ["nodes", "mater", "eles", "loads"]
    ways = ["rewritten", "same dates", "replaced", "replaced, same dates"]
    ops = [(f, w) for f in files_ for w in ways] + \
        [("folders", "exchanged"), ("link", "moved"), ("file", "copied back")]

    def put(path, name, table):
        text = "".join(" ".join("%4d" % x if name == "eles" else "%11.4f" % x
                                for x in row) + "\n" for row in table)
        with open(path, "w") as f:
            f.write(text)

    def run(ctx):
        how = ctx.choose("folder", ["absolute", "relative", "link"])
        entry = ctx.choose("entry", ["solids_GUI", "readin"])
        with files.scratch() as base:
            base = os.path.realpath(base)
            os.chdir(base)
            state = {}
            for k, d in enumerate(("one", "two")):
                os.mkdir(d)
                state[d] = dict.fromkeys(files_, k)
                for f, t in version(state[d]).items():
                    put(os.path.join(d, f + ".txt"), f, t)
            for d in state:                # the same dates everywhere
                for f in files_:
                    os.utime(os.path.join(d, f + ".txt"), (1e9, 1e9))
            os.symlink("one", "link")
            target = "one"
            here = {"absolute": os.path.join(base, "one"), "relative": "one",
                    "link": "link"}[how]
            history = []
            for step in range(depth + 1):
                if step:
                    what, way = ctx.choose("edit", ops)
                    history.append((what, way))
                    d = target if how == "link" else "one"
                    if what == "folders":
                        os.rename("one", "tmp")
                        os.rename("two", "one")
                        os.rename("tmp", "two")
                        state["one"], state["two"] = \
                            state["two"], state["one"]
                    elif what == "link":
                        ctx.require(how == "link")
                        target = {"one": "two", "two": "one"}[target]
                        os.unlink("link")
                        os.symlink(target, "link")
                    elif what == "file":    # as it was at the beginning
                        state[d]["loads"] = 0
                        path = os.path.join(d, "loads.txt")
                        put(path, "loads", version(state[d])["loads"])
                        os.utime(path, (1e9, 1e9))
                    else:
                        state[d][what] = (state[d][what] + 1) % 3
                        path = os.path.join(d, what + ".txt")
                        stamp = os.stat(path)
                        new = path
                        if way.startswith("replaced"):
                            new = path + ".new"
                        put(new, what, version(state[d])[what])
                        os.replace(new, path)
                        if "dates" in way:
                            os.utime(path, ns=(stamp.st_atime_ns,
                                               stamp.st_mtime_ns))
                ctx.visit(how, entry, tuple(history))
                now = version(state[target if how == "link" else "one"])
                if entry == "readin":
                    got = pre.readin(here)
                    for g, f in zip(got, files_):
                        ctx.same(g, now[f], "table", file=f)
                    for g in got:          # belongs to the caller
                        g[:] = 7
                    continue
                got = solids_GUI(plot_contours=False, folder=here)
                want = ref.solve(now["nodes"][:, :3], now["nodes"][:, 3:],
                                 now["eles"], now["mater"],
                                 now["loads"])[0]
                ctx.close(got, want, "displacements", tol=1e-9)
    return run


def harnesses(tier):
    deep = tier == "thorough"
    hs = [
        Harness("answers", answers(2), "all answers of dialog and prompt, "
                "3 folders and a missing one, sequences of 2"),
        Harness("names", names, "37 names of folders, with similar ones "
                "beside them, given in 10 ways"),
        Harness("missing", missing, "each input file there, missing or a "
                "folder"),
        Harness("edits", edits(3 if deep else 2), "19 edits of the files of "
                "a folder, sequences of %d" % (3 if deep else 2)),
        Harness("torn", torn("plain"), "every prefix of every file"),
        Harness("echo", echo, "models x folders x tables x values"),
    ]
    hs.append(Harness("programs", programs, "2 programs x 6 answers, "
                      "imports, as processes of their own"))
    if deep:
        hs.append(Harness("three answers", answers(3, ("solids_GUI",)),
                          "sequences of 3 analyses"))
        for fmt in files.FORMATS:
            if fmt not in ("plain", "CRLF"):
                hs.append(Harness("torn, " + fmt, torn(fmt),
                                  "every prefix of every file, layout " + fmt))
    return hs
