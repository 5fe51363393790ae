#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the PROPERTY record of each checks/cNN.py and checks/na.py."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
props, checks = [], []


def prop(pid, p):
    d = {"id": pid, "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}}
    if p.get("state"):
        d["anchors"]["state"] = [{"name": a, "meaning": b} for a, b in p["state"]]
    assert len(d["title"]) <= 80, (pid, len(d["title"]))
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), (pid, f)
    return d


for f in sorted(glob.glob(os.path.join(V, "checks", "c[0-9]*.py"))):
    n = os.path.basename(f)[:-3]
    m = importlib.import_module(n)
    p = m.PROPERTY
    props.append(prop(n.upper(), p))
    checks.append({"property": n.upper(), "quick_cmd": "python3 check.py %s quick" % n.upper(),
                   "thorough_cmd": "python3 check.py %s thorough" % n.upper(), "technique": p["technique"], "level": "other",
                   "level_note": p.get("note", "Sound only relative to the modelled callees named in DESIGN.md: each obligation is decided for every path and input by abstract "
                                               "interpretation of the source; callee bodies outside the rule's scope are trusted to do what their name says.")})
na = []
if os.path.exists(os.path.join(V, "checks", "na.py")):
    import na as nam
    for pid, p in nam.NA.items():
        props.append(prop(pid, p))
        na.append({"property": pid, "reason": p["reason"]})
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in props:
        fh.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 lib/facts.py", "checks": checks, "not_applicable": na,
           "notes": "Generated by tool/gen.py from checks/*.py. Pure source analysis: nothing of /repo is executed. Exit 3 (ANALYSIS-BROKEN) means the analysed source no longer parses or an anchor function vanished."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
for l in open(os.path.join(V, "properties.jsonl")):
    jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
