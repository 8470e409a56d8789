#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the headers of props/c*.py
(read with ast: nothing is imported)"""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOT_APPLICABLE = []
NOTES = (
    "Stateless explicit-state model checking of the real code: run.py "
    "replays a harness for every sequence of choices (inputs, operations, "
    "preemption points, answers of the environment) within the bounds and "
    "compares every observation with a reference model (mc/ref.py) that "
    "does not import the code. MC_REPO selects another tree for local "
    "experiments; the registered commands use /repo.")


def header(path):
    with open(path) as f:
        tree = ast.parse(f.read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and \
                isinstance(node.targets[0], ast.Name):
            name = node.targets[0].id
            if name in ("TITLE", "STATEMENT", "WHY", "TECHNIQUE",
                        "LEVEL_NOTE", "LEVEL"):
                out[name] = ast.literal_eval(node.value)
            elif name in ("QUANTIFIER", "ANCHORS"):
                out[name] = eval(compile(ast.Expression(node.value), path,
                                         "eval"), {"dict": dict})
    return out


def main():
    props, checks = [], []
    for path in sorted(glob.glob(os.path.join(HERE, "props", "c*.py"))):
        pid = os.path.basename(path)[:-3].upper()
        h = header(path)
        assert len(h["TITLE"]) <= 80, (pid, len(h["TITLE"]))
        n = h["STATEMENT"].replace("i.e.", "ie").count(". ") + 1
        assert n <= 3, (pid, n)
        props.append(dict(id=pid, title=h["TITLE"], statement=h["STATEMENT"],
                          quantifier=h["QUANTIFIER"],
                          why_tests_cant=h["WHY"], anchors=h["ANCHORS"]))
        cmd = "/opt/venv/bin/python run.py %s --tier %s"
        checks.append(dict(property=pid, quick_cmd=cmd % (pid, "quick"),
                           thorough_cmd=cmd % (pid, "thorough"),
                           technique=h["TECHNIQUE"],
                           level=h.get("LEVEL", "model_checking"),
                           level_note=h["LEVEL_NOTE"]))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props + NOT_APPLICABLE:
            f.write(json.dumps(p) + "\n")
    manifest = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, "
                  "matplotlib, meshio'",
        checks=checks,
        not_applicable=[dict(property=p["id"], reason=p["reason"])
                        for p in NOT_APPLICABLE],
        notes=NOTES)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
