#!/opt/venv/bin/python
"""Fills the tables of DESIGN.md that come from evidence/ and seeded/"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## 5. Bounds"


def main():
    path = os.path.join(HERE, "DESIGN.md")
    with open(path) as f:
        text = f.read().replace("@@SEEDS@@", MARK).split(MARK)[0].rstrip()
    out = [text, "", MARK + " (from the last evidence of each check)", ""]
    for f in sorted(glob.glob(os.path.join(HERE, "evidence", "C*.json"))):
        with open(f) as g:
            e = json.load(g)
        c = e["coverage"]
        out.append("**%s** (%s): %d states, %d transitions, %d executions" % (
            e["property"], e["tier"], c["states"], c["transitions"],
            c["traces_validated_against_impl"]))
        out.append("")
        for h in c["harnesses"]:
            out.append("* %s: %s (%d executions, %d pruned)" % (
                h["name"], h["bounds"], h["executions"], h["pruned"]))
        out.append("")
    out += ["## 6. Planted bugs", "",
            "Each one compiles, passes the stable tests and has a "
            "demonstration; all were written from the text of the property "
            "and the code.  `caught by` is the result of the quick checks.",
            "", "| seed | property | needs | caught by |", "|-|-|-|-|"]
    with open(os.path.join(HERE, "tools", "caught.json")) as f:
        caught = json.load(f)
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", ""))):
        sid = os.path.basename(d[:-1])
        with open(d + "meta.json") as f:
            m = json.load(f)
        out.append("| %s | %s | %s | %s |" % (
            sid, m["property"], m["needs"], caught.get(sid, "?")))
    with open(os.path.join(HERE, "tools", "notes.md")) as f:
        out += ["", f.read().rstrip(), ""]
    with open(path, "w") as f:
        f.write("\n".join(out))


if __name__ == "__main__":
    main()
