"""Writes properties.jsonl and MANIFEST.json from tools/spec.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import P, PYTHON, VERIF, NOT_APPLICABLE  # noqa

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(
            json.dumps(
                {
                    "id": p["id"],
                    "title": p["title"],
                    "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["text"]},
                    "why_tests_cant": p["why"],
                    "anchors": {
                        "files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    },
                }
            )
            + "\n"
        )
for p in P:
    for name in p["files"]:
        assert os.path.exists(os.path.join("/repo", name)), name
manifest = {
    "version": 1,
    "setup_cmd": f"{PYTHON} check.py --setup",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"{PYTHON} check.py {p['id']} --tier quick",
            "thorough_cmd": f"{PYTHON} check.py {p['id']} --tier thorough",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        }
        for p in P
    ],
    "not_applicable": NOT_APPLICABLE,
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
