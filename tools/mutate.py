#!/opt/venv/bin/python
"""Mutation campaign (development tool, no registered check uses it).

mutate.py list FILE              number of mutants of solidspy/FILE
mutate.py run FILE OUT [STEP]     (POOL=n in the environment: jobs at a time)
    For every mutant of the file that passes the existing tests, run the
    quick checks until one reports a violation; write one JSON line each.
Everything happens in scratch copies under /tmp.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ORDER = {
    "assemutil.py": "1 3 14 2 28 23 4 10 16 37 9 15",
    "blochutil.py": "18 19 36 16",
    "femutil.py": "11 27 13 14 26 5 12 6 34 35 16 7 10",
    "gaussutil.py": "12 14 16 5",
    "postprocesor.py": "23 24 25 26 29 14 10 30 16 4 28 15",
    "preprocesor.py": "20 21 22 14 15 31 38 16",
    "solids_GUI.py": "4 15 14 31 10 30 16 37",
    "solutil.py": "14 4 16 10",
    "uelutil.py": "5 6 28 33 34 35 14 16 10",
}
SWAP = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div],
        ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.MatMult: [],
        ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
        ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE],
        ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
        ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
        ast.IsNot: [ast.Is], ast.And: [ast.Or], ast.Or: [ast.And]}


def variants(tree, tables=True):
    """Yields (description, function that edits a copy given the path)"""
    nodes = list(ast.walk(tree))
    doc = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr):
                doc.add(id(n.body[0]))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and \
                isinstance(n.test.left, ast.Name) and \
                n.test.left.id == "__name__":
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.List) and len(ast.dump(n)) > 1500:
            for k, m in enumerate(ast.walk(n)):
                if k % 37:
                    skip.add(id(m))
    out = []
    for k, n in enumerate(nodes):
        if id(n) in skip:
            continue
        line = getattr(n, "lineno", 0)

        def add(what, fn, k=k, line=line):
            out.append((line, what, k, fn))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add("%r->%r" % (v, not v),
                    lambda m, v=v: setattr(m, "value", not v))
            elif isinstance(v, int):
                for w in (v + 1, v - 1):
                    add("%r->%r" % (v, w),
                        lambda m, w=w: setattr(m, "value", w))
            elif isinstance(v, float):
                w = v*(1 + 1e-4) if v else 1e-3
                add("%r->%r" % (v, w),
                    lambda m, w=w: setattr(m, "value", w))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for alt in SWAP.get(type(n.op), []):
                add("%s->%s" % (type(n.op).__name__, alt.__name__),
                    lambda m, alt=alt: setattr(m, "op", alt()))
            if isinstance(n, ast.BinOp) and \
                    isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult,
                                      ast.Pow)):
                add("operands swapped", lambda m: m.__dict__.update(
                    left=m.right, right=m.left))
        elif isinstance(n, ast.BoolOp):
            alt = SWAP[type(n.op)][0]
            add("bool", lambda m, alt=alt: setattr(m, "op", alt()))
        elif isinstance(n, ast.Compare):
            for alt in SWAP.get(type(n.ops[0]), []):
                add("%s->%s" % (type(n.ops[0]).__name__, alt.__name__),
                    lambda m, alt=alt: setattr(m, "ops", [alt()]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add("minus removed", lambda m: setattr(m, "op", ast.UAdd()))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and \
                    n.func.attr in ("copy", "astype"):
                add("call removed", lambda m: m.__dict__.update(
                    func=ast.Name("_id", ast.Load()), args=[m.func.value],
                    keywords=[]))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred)
                                            for a in n.args[:2]):
                add("arguments swapped", lambda m: m.args.__setitem__(
                    slice(0, 2), m.args[1::-1]))
            if n.keywords:
                for q in range(len(n.keywords)):
                    add("keyword dropped",
                        lambda m, q=q: m.keywords.pop(q))
        if isinstance(n, ast.AugAssign):
            add("plain assignment", "assign")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.If,
                          ast.For)) or (isinstance(n, ast.Expr)
                                        and id(n) not in doc):
            add("deleted " + type(n).__name__, "delete")
        if isinstance(n, ast.If):
            add("if True", lambda m: setattr(m, "test", ast.Constant(True)))
            add("if False", lambda m: setattr(m, "test",
                                              ast.Constant(False)))
    return out


class Edit(ast.NodeTransformer):
    def __init__(self, target, what):
        self.target, self.what = target, what

    def visit(self, node):
        if node is self.target:
            if self.what == "delete":
                return ast.copy_location(ast.Pass(), node)
            tgt = copy.deepcopy(node.target)
            return ast.copy_location(ast.Assign([tgt], node.value), node)
        return self.generic_visit(node)


def mutant(source, number):
    tree = ast.parse(source)
    line, what, k, fn = variants(tree)[number]
    node = list(ast.walk(tree))[k]
    if isinstance(fn, str):
        tree = Edit(node, fn).visit(tree)
    else:
        fn(node)
    ast.fix_missing_locations(tree)
    return "def _id(x):\n    return x\n" * ("_id(" in ast.unparse(tree)) \
        + ast.unparse(tree), line, what


def tests_pass(root):
    env = dict(os.environ, PYTHONPATH=root, MPLBACKEND="Agg",
               PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
    with open("/opt/vp/BASELINE.json") as f:
        stable = json.load(f)["stable"]
    xml = os.path.join(root, "junit.xml")
    try:
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                        "--timeout=60", "--doctest-modules",
                        "--continue-on-collection-errors",
                        "--junitxml=" + xml, "tests", "solidspy"], cwd=root,
                       env=env, capture_output=True, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    import xml.etree.ElementTree as ET
    ok = set()
    try:
        for c in ET.parse(xml).iter("testcase"):
            if not list(c):
                ok.add((c.get("classname"), c.get("name")))
    except (OSError, ET.ParseError):
        return False
    return len(ok) >= len(stable)


def work(job):
    name, number, source, order, jobs = job
    root = tempfile.mkdtemp(prefix="mut-")
    try:
        try:
            text, line, what = mutant(source, number)
        except Exception as exc:
            return dict(number=number, result="no mutant", why=repr(exc))
        rec = dict(file=name, number=number, line=line, what=what,
                   source=source.splitlines()[line - 1].strip())
        shutil.copytree("/repo/solidspy", os.path.join(root, "solidspy"))
        shutil.copytree("/repo/tests", os.path.join(root, "tests"))
        path = os.path.join(root, "solidspy", name)
        with open(path, "w") as f:
            f.write(text)
        if not tests_pass(root):
            rec["result"] = "tests"
            return rec
        errors = []
        for p in order.split():
            pid = "C%02d" % int(p)
            env = dict(os.environ, MC_REPO=root)
            try:
                res = subprocess.run(
                    [PY, "run.py", pid, "--tier", "quick", "--jobs",
                     str(jobs)], cwd=VERIF, env=env,
                    capture_output=True, text=True, timeout=1500)
            except subprocess.TimeoutExpired:
                errors.append(pid + " timeout")
                continue
            if res.returncode == 1 and "VIOLATION" in res.stdout:
                rec.update(result="killed", by=pid, errors=errors)
                return rec
            if res.returncode:
                errors.append("%s rc=%d %s" % (pid, res.returncode,
                                               res.stderr[-300:]))
        rec.update(result="SURVIVED", errors=errors)
        return rec
    finally:
        shutil.rmtree(root, ignore_errors=True)



def main():
    name = sys.argv[2]
    with open("/repo/solidspy/" + name) as f:
        source = f.read()
    nums = len(variants(ast.parse(source)))
    if sys.argv[1] == "list":
        print(nums)
        return
    if sys.argv[1] == "show":
        print(mutant(source, int(sys.argv[3]))[0])
        return
    out = sys.argv[3]
    done = set()
    if os.path.exists(out):
        with open(out) as f:
            done = {json.loads(x)["number"] for x in f}
    step = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    jobs = [(name, k, source, ORDER[name], 1) for k in range(0, nums, step)
            if k not in done]
    with ThreadPoolExecutor(int(os.environ.get("POOL", 8))) as pool, open(out, "a") as f:
        for rec in pool.map(work, jobs):
            f.write(json.dumps(rec) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
