#!/usr/bin/env python3
"""rewrites the generated parts of DESIGN.md (per-property method, seeded changes, findings)"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, HERE + "/tools")
import importlib.util
sp = importlib.util.spec_from_file_location("props", HERE + "/tools/props.py")
props = importlib.util.module_from_spec(sp)
sp.loader.exec_module(props)
doc = open(HERE + "/DESIGN.md").read()


def put(name, text):
    global doc
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = doc.index(a) + len(a), doc.index(b)
    doc = doc[:i] + "\n" + text.strip() + "\n" + doc[j:]


out = []
seeded = {}
for b in sorted(os.listdir(HERE + "/seeded")):
    d = json.load(open("%s/seeded/%s/meta.json" % (HERE, b)))
    seeded.setdefault(d["property"], []).append((b, d))
for p in sorted(props.P, key=lambda p: p["id"]):
    out.append("### %s: %s\n" % (p["id"], p["title"]))
    out.append("*Decided by* `rules/%s.py`, `%s`: %s.\n" % (p["rule"].split(".")[0], p["rule"].split(".")[1], p["tech"]))
    out.append("%s\n" % p["explain"])
    out.append("*Bounds:* %s. *Quantifies over:* %s.\n" % (p["note"], p["forall"]))
    out.append("*What the tests cannot settle:* %s\n" % p["tests"])
    out.append("*Planted changes it catches:* %s\n" % (", ".join("`%s`" % b for b, d in seeded.get(p["id"], ())) or "none planted"))
put("properties", "\n".join(out))
put("na", "\n".join("* **%s** %s: %s" % (n["id"], n.get("title", ""), n["reason"]) for n in props.NA) or "none")
put("seeded", "| planted change | property | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join("| `%s` | %s | %s | %s |" % (b, d["property"], d["what_it_breaks"], d["needs"]) for k in sorted(seeded) for b, d in seeded[k]))
k = json.load(open(HERE + "/known_findings.json"))
put("findings", "Recorded, not repaired:\n\n" + "\n".join("* %s `%s`: %s" % (f["property"], f["key"], f["what"]) for f in k["findings"]) +
    "\n\nRepaired by `fix:` commits:\n\n" + "\n".join("* " + f.replace("fixed: ", "") for f in k["fixed"]))
open(HERE + "/DESIGN.md", "w").write(doc)
