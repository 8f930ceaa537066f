"""Writes DESIGN.md: tools/design_head.md, then per property the notes below (with the statement-independent facts from
tools/spec.py), the findings of known_findings.json and the planted bugs of seeded/ with the checks that catch them."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import spec  # noqa: E402
from design_notes import NOTES, CAUGHT  # noqa: E402


def harnesses():
    out = {}
    for f in sorted(glob.glob(os.path.join(ROOT, "props", "*.py"))):
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.FunctionDef):
                for d in n.decorator_list:
                    if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness" and d.args:
                        p = ast.literal_eval(d.args[0])
                        for q in (p if isinstance(p, (list, tuple)) else [p]):
                            out.setdefault(q, []).append((os.path.basename(f), n.name))
    return out


def main():
    H = harnesses()
    L = [open(os.path.join(HERE, "design_head.md")).read().rstrip(), "", "## Properties", ""]
    for p in spec.P:
        i = p["id"]
        hs = H.get(i, [])
        L.append(f"### {i} {p['title']}")
        L.append(f"* decided in `props/{hs[0][0]}`: " + ", ".join(f"`{n}`" for _, n in hs) if hs else "* (no harness)")
        if i in NOTES:
            L.append("* " + NOTES[i].strip().replace("\n", "\n  "))
        L.append("* bounds / outside: " + p["note"])
        L.append("")
    L += ["## Not applicable", ""]
    L += [f"* {n}" for n in map(str, spec.NA)] or ["* none of the listed properties"]
    L += ["", "## Genuine defects found (all repaired)", "",
          "Each was found by a check, shown on the real code by its replay, and repaired by a `fix:` commit; the check "
          "that found it passes on the repaired tree and reports it again if it returns.", ""]
    for f in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]:
        L.append(f"* {f['id']} {f['what']}")
    L += ["", "## Planted bugs and what catches them", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        s = os.path.basename(os.path.dirname(d))
        L.append(f"| {s} | {m['property']} | {m['needs']} | {CAUGHT.get(s, m['property'])} |")
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(L) + "\n")


main()
