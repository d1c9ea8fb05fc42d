"""Copies /tmp/seed/caught.json (written by plant.py) into caught.json."""
import json, os
d = json.load(open("/tmp/seed/caught.json"))
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "caught.json")
old = json.load(open(p)) if os.path.exists(p) else {}
for k, v in d.items():
    old[k] = sorted(c for c, rc in v.items() if rc == 1)
root = os.path.join(os.path.dirname(os.path.dirname(p)), "seeded")
old = {k: v for k, v in sorted(old.items()) if os.path.isdir(os.path.join(root, k))}
json.dump(old, open(p, "w"), indent=1)
