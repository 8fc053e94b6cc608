#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tools"))
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c: continue
    mods = [m["module"] for m in c.get("mc", [])]; tr = [t["module"] for q in c["parts"] for t in q["traces"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 tools/check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 tools/check.py %s thorough" % p["id"],
        technique="TLA+ specification checked by TLC (%s), bound to the code by TLC validation of traces of the real code (%s)%s" % (", ".join(mods) or "-", ", ".join(dict.fromkeys(tr)), " incl. replay of all behaviours TLC enumerates" if any(m.get("emit") for m in c.get("mc", [])) else ""),
        level="model_checking", level_note=c.get("note", "") + (" " if c.get("note") else "") + "The specification is explored exhaustively within small constants; the real code is bound by every recorded event being accepted by the specification (bounded-exhaustive and seeded random inputs), so conformance is sampled, not proved." + (" Trusted: " + "; ".join(c["assumptions"]) + "." if c.get("assumptions") else "")))
na = [dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "not claimed: no check built yet")) for p in props if p["id"] not in CHECKS]
json.dump(dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=checks, not_applicable=na,
    notes="No hooks in /repo: drivers compile /repo's sources directly against /verif/compat (stand-ins for abseil, ink_stroke_modeler, libtess2, which are not installed here)."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
