#!/usr/bin/env python3
"""claim.py ID TECHNIQUE LEVEL NOTE: record a claimed property in claims.json."""
import json, sys, os
p = os.path.join(os.path.dirname(__file__), "claims.json")
d = json.load(open(p)); d[sys.argv[1]] = sys.argv[2:5]
json.dump(dict(sorted(d.items())), open(p, "w"), indent=1, ensure_ascii=False)
