"""Fills the generated parts of DESIGN.md (between markers) from the checks."""
import importlib
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, os.path.join(VERIF, "tools"), "/repo/src"]
sys.path.append(os.path.join(VERIF, "vendor"))
from spec import P, NOT_APPLICABLE  # noqa


def table():
    out = []
    for p in P:
        m = importlib.import_module(f"pbt.checks.{p['id'].lower()}")
        tests = ", ".join(f"`{t.name}` {t.quick}/{t.thorough}" for t in m.TESTS)
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(f"* Generated and compared: {m.RULE}.")
        out.append(f"* Method: {p['technique']}.")
        out.append(f"* Tests (quick/thorough cases): {tests}.")
        out.append(f"* Bounds: {p['note']}.")
        out.append(f"* Beyond the tests: {p['why']}.")
        for a in getattr(m, "ASSUMPTIONS", []):
            out.append(f"* Assumption: {a}.")
        out.append("")
    return "\n".join(out)


def fixed():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        data = json.load(f)
    a = "\n".join(f"* {x.removeprefix('fixed: ')}" for x in data["fixed"])
    b = "\n".join(f"* {x['property']}: {x['what']}" for x in data["findings"])
    return a, b


def seeded():
    root = os.path.join(VERIF, "seeded")
    rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
    caught = {}
    path = os.path.join(VERIF, "tools", "caught.json")
    if os.path.exists(path):
        with open(path) as f:
            caught = json.load(f)
    for name in sorted(os.listdir(root)):
        meta = os.path.join(root, name, "meta.json")
        if os.path.exists(meta):
            with open(meta) as f:
                m = json.load(f)
            who = caught.get(name)
            who = "not run" if who is None else (", ".join(who) or "**none**")
            rows.append(f"| {name}: {m['what_it_breaks']} | {m['property']} | {m['needs']} | {who} |")
    return "\n".join(rows)


def main():
    path = os.path.join(VERIF, "DESIGN.md")
    text = open(path).read()
    a, b = fixed()
    for key, value in {"TABLE": table(), "FIXED": a, "FINDINGS": b, "SEEDED": seeded()}.items():
        begin, end = f"<!-- {key} -->", f"<!-- /{key} -->"
        new = f"{begin}\n{value}\n{end}"
        if f"@@{key}@@" in text:
            text = text.replace(f"@@{key}@@", new)
        else:
            text = re.sub(re.escape(begin) + ".*?" + re.escape(end), lambda _: new, text, flags=re.S)
    open(path, "w").write(text)


main()
