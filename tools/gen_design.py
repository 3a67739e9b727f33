#!/usr/bin/env python3
"""fills the generated tables of DESIGN.md (between the markers) from registry, properties and seeded/*/meta.json"""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
t = open(os.path.join(V, "DESIGN.md")).read()


def put(name, text):
    global t
    b, e = "<!-- %s -->" % name, "<!-- /%s -->" % name
    if b not in t:
        t = t.replace(name, b + "\n" + e)
    t = t[:t.index(b) + len(b)] + "\n" + text + "\n" + t[t.index(e):]


rows = []
for p in props:
    m = registry.PROPS.get(p["id"])
    if not m:
        continue
    rows.append("- **%s %s**. %s" % (p["id"], p["title"], m.get("explanation", "")))
    q = [u for u in m["units"] if "quick" in u.tiers]
    for u in q:
        rows.append("  - `%s` %s: %s" % (u.file, u.entry, u.bound))
    n = len(m["units"]) - len(q)
    if n:
        rows.append("  - thorough adds %d larger unit%s: %s" % (n, "s" if n > 1 else "", "; ".join(u.bound for u in m["units"] if "quick" not in u.tiers)))
put("BOUNDS_TABLE", "\n".join(rows))
put("NA_TABLE", "\n".join("- %s: %s" % (p["id"], registry.NOT_APPLICABLE.get(p["id"], "check not built yet")) for p in props if p["id"] not in registry.PROPS) or "none")
rows = []
res = {}
f = os.path.join(V, "seed_results.json")
if os.path.exists(f):
    res = json.load(open(f))
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("- `%s` (%s, %s): %s. Needs: %s." % (d, m["property"], res.get(d, "?"), m["what_it_breaks"], m["needs"]))
put("SEED_TABLE", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
