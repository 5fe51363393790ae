#!/usr/bin/env python3
"""Assembles DESIGN.md from docs/head.md, the checks' records, seeded/*/meta.json and known_findings.json."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
out = [open(os.path.join(V, "docs", "head.md")).read(), "\n## Properties claimed\n"]
ev = {}
for f in sorted(glob.glob(os.path.join(V, "checks", "c[0-9]*.py"))):
    n = os.path.basename(f)[:-3]
    m = importlib.import_module(n)
    p = m.PROPERTY
    out.append("### %s %s\n" % (n.upper(), p["title"]))
    out.append(p["statement"] + "\n")
    out.append("* Decided by: %s." % p["technique"])
    out.append("* Quantifies over: %s. Why tests cannot settle it: %s" % (p["qtext"], p["why"]))
    out.append("* Anchored in: " + "; ".join("%s (`%s`)" % (a, b) for a, b in p["mechanism"]) + ".")
    out.append("* Oracle: the rules written out in `checks/%s.py` (each an obligation on a function exit, call site, field, constant or codec); bounds: none on inputs, "
               "histories or loop counts, the trusted callees above%s." % (n, "; " + p["note"][0].lower() + p["note"][1:].rstrip(".") if p.get("note") else ""))
    if p.get("design"):
        out.append("* " + p["design"])
    out.append("")
out.append("\n## Not applicable\n")
import na
for k, p in na.NA.items():
    out.append("* **%s %s**: %s" % (k, p["title"], p["reason"]))
out.append("\n## Planted bugs (`seeded/`) and the checks that catch them\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    out.append("| %s | %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
k = json.load(open(os.path.join(V, "known_findings.json")))
out.append("\n## Genuine defects found by the checks\n\nRepaired by `fix:` commits in /repo (all listed in `known_findings.json`):\n")
out += ["* " + x[len("fixed: "):] for x in k["fixed"]]
out.append("\nRecorded and not repaired:\n")
out += ["* %s: %s (%s)" % (x["property"], x["what"], x["why_not_repaired"]) for x in k["findings"]] or ["* none"]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
