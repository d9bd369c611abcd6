#!/usr/bin/env python3
"""Record known findings: record.py ID DUMP FINDING REGEX-ON-JSON [...]
DUMP is the output of HDMC_DUMP=1 ./check ID. Every dumped failure whose JSON text matches the
regex gets a line in known/<ID>.txt. Run by hand only, after a failure has been examined;
no check writes that file."""
import json, re, sys, os
pid, dump = sys.argv[1:3]
rules = [(sys.argv[i], re.compile(sys.argv[i + 1], re.S)) for i in range(3, len(sys.argv), 2)]
path = os.path.join(os.path.dirname(__file__), "..", "known", pid + ".txt")
old = dict(l.split() for l in open(path)) if os.path.exists(path) else {}
count, left = {}, []
for line in open(dump):
    if not line.startswith("DUMP "): continue
    d = json.loads(line[5:])
    text = f"{d['domain']} {d['kind']} {d['doc']!r} {d['opts']}"
    for f, r in rules:
        if r.search(text):
            old[d["key"]] = f; count[f] = count.get(f, 0) + 1; break
    else: left.append(text + " -> " + repr(d["observed"]))
with open(path, "w") as o:
    for k in sorted(old): o.write(f"{k} {old[k]}\n")
print(count, "unmatched", len(left))
for l in left[:15]: print("  ", l)
