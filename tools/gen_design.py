#!/usr/bin/env python3
"""Writes DESIGN.md: static text, plus the rules of the modules, the facets and the planted bugs as they are."""
import glob, json, os, re, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
    os.execv(VT, [VT] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
from pbt import core
from gen_manifest import ORACLE
from design_text import HEAD, WHY, TAIL


def main():
    out = [HEAD.strip()]
    out.append("\n## 3. The properties, one by one\n")
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        m = core.load(p["id"])
        facets = ", ".join("%s %d/%d" % (f.name, f.n["quick"], f.n["thorough"]) for f in m.FACETS)
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("*Specified:* %s" % p["statement"])
        out.append("\n*Generated and observed:* %s" % m.RULE)
        out.append("\n*Oracle:* %s." % ORACLE[p["id"]])
        out.append("\n*Bounds and cost:* cases per shard (8 shards) quick/thorough: %s. %s" % (facets, " ".join(
            a[0].upper() + a[1:].rstrip(".") + "." for a in getattr(m, "ASSUMPTIONS", []))))
        out.append("\n*Why the tests cannot reach it:* %s" % p["why_tests_cant"])
        if p["id"] in WHY:
            out.append("\n*Notes:* %s" % WHY[p["id"]].strip())
        out.append("")
    out.append(TAIL.strip())
    out.append("\n## 7. Planted bugs and what catches them\n")
    table = json.load(open(os.path.join(ROOT, "tools", "detection.json")))
    out.append("| bug | property | needs | verdict |\n|---|---|---|---|")
    for sid in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        meta = json.load(open(os.path.join(ROOT, "seeded", sid, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (sid, meta["property"], meta["needs"].replace("|", "\\|"), table.get(sid, "not run").replace("|", "/")))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
