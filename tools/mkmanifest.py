#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties whose checks exist."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "bounded exhaustive state exploration of the real formatter"
N = {
 "C01": (T + " over document grammars, meaning of input and output compared by re-parsing", "model_checking",
   "Every document of the listed finite grammars is formatted by the real library and both texts are re-parsed to a normal form that must be equal. Complete within the bounds in the evidence; trusts comrak as the definition of what Markdown means, and a normal form that ignores only what the property allows."),
 "C02": (T + " over document grammars, output formatted again", "model_checking",
   "Every document of the listed finite grammars is formatted twice by the real library; byte equality is the oracle, so nothing else is trusted. Complete within the bounds."),
}
import importlib.util
spec = os.path.join(root, "tools", "claims.json")
if os.path.exists(spec): N.update({k: tuple(v) for k, v in json.load(open(spec)).items()})
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
NA = {}
p = os.path.join(root, "tools", "not_applicable.json")
if os.path.exists(p): NA = json.load(open(p))
m = {"version": 1,
 "setup_cmd": "sh ./setup.sh",
 "checks": [{"property": i, "quick_cmd": f"VERIF_TIER=quick ./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
   "technique": N[i][0], "level": N[i][1], "level_note": N[i][2]} for i in props if i in N],
 "not_applicable": [{"property": i, "reason": NA.get(i, "no check built yet")} for i in props if i not in N],
}
h = os.path.join(root, "tools", "hooks.json")
if os.path.exists(h): m["hooks"] = json.load(open(h))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
