"""Add a technique: tech.py ID technique note."""
import json, sys
p = "/verif/tools/techniques.json"
d = json.load(open(p))
d["checks"][sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(d, open(p, "w"), indent=1)
