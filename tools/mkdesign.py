#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_text.py, the checks' own rules, design_tail.md and the seeded bugs."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
from design_text import T

def main():
    titles = {x["id"]: x["title"] for x in map(json.loads, open(V + "/properties.jsonl"))}
    out = [open(V + "/tools/design_head.md").read()]
    for k in titles:
        c = importlib.import_module("props." + k.lower()).CHECK
        a = "; ".join(c.assumptions)
        out.append("### %s — %s\n\n%s\n\n*Unit of observation:* %s. *Cost:* %d cases quick, %d thorough.%s\n" % (
            k, titles[k], T[k].strip(), " ".join(c.rule.split()), c.quick_n, c.thorough_n, " *Assumes:* %s." % a if a else ""))
    out.append(open(V + "/tools/design_tail.md").read())
    out.append("| bug | property | needs | breaks |\n|---|---|---|---|")
    for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
        x = json.load(open(m))
        out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), x["property"], x["needs"].replace("|", "/"), x["what_it_breaks"].replace("|", "/")))
    open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")

if __name__ == "__main__":
    main()
