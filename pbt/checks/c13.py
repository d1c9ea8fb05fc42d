"""Scenario builder."""
import io

import yaml
from hypothesis import strategies as st

from .. import gen, study
from ..runner import Test, Violation, rejected
from ..scratch import directory
from .c23 import redrawn

PROPERTY = "C13"
RULE = (
    "random scenario builder files (groups, years, columns, any order of lines) and "
    "random systems whose components, nodes and parameters belong or not to groups; "
    "the value of a parameter for a year must be the one of the column its group "
    "(its own, else the one of its component, else none) assigns to the year; unknown "
    "groups, years defined twice and years without column are errors. Non-trivial: "
    "a scenario-dependent parameter in a group that is not the identity, or an error"
)
GROUPS = ["g0", "g1", "thermal_group", "G-2", "1", "01", "NA", "true", "G0", "2.0", "a b", "nan"]


@st.composite
def cases(draw):
    years = draw(st.one_of(st.integers(1, 4), st.integers(1, 13)))
    cols = draw(st.one_of(st.integers(1, 4), st.integers(1, 25)))
    groups = draw(st.lists(st.sampled_from(GROUPS), min_size=1, max_size=3, unique=True))
    table = {
        g: [draw(st.integers(0, cols - 1)) for _ in range(years)] for g in groups
    }
    comps = []
    for i in range(draw(st.integers(1, 4))):
        params = []
        for j in range(draw(st.integers(0, 3))):
            params.append(
                {
                    "kind": draw(st.sampled_from(["scen", "both", "const", "time"])),
                    "group": draw(st.sampled_from([None, None] + groups)),
                }
            )
        comps.append(
            {
                "group": draw(st.sampled_from([None] + groups)),
                "node": draw(st.booleans()),
                "params": params,
            }
        )
    lines = [[g, y, table[g][y]] for g in groups for y in range(years)]
    return {
        "lines": draw(st.permutations(lines)),
        "cols": max(cols, years),
        "years": years,
        "T": draw(st.integers(1, 2)),
        "comps": comps,
    }


@st.composite
def many_years(draw):
    """More years and groups than the other test, assigned by a formula"""
    years = draw(st.integers(14, 120))
    cols = draw(st.integers(1, 99))
    groups = GROUPS[: draw(st.integers(1, len(GROUPS)))]
    a, b, turn = (draw(st.integers(0, 997)) for _ in range(3))
    lines = [
        [g, y, (a * y + b * (k + 1) + y * y) % cols]
        for k, g in enumerate(groups)
        for y in range(years)
    ]
    if draw(st.booleans()):
        lines.reverse()
    turn %= len(lines)
    comps = [
        {
            "group": draw(st.sampled_from([None] + groups)),
            "node": draw(st.booleans()),
            "params": [
                {
                    "kind": draw(st.sampled_from(["scen", "both"])),
                    "group": draw(st.sampled_from([None] + groups)),
                }
            ],
        }
        for _ in range(draw(st.integers(1, 12)))
    ]
    return {
        "lines": lines[turn:] + lines[:turn],
        "cols": max(cols, years),
        "years": years,
        "T": 1,
        "comps": comps,
    }


def cell(i, j, t, s):
    return float(10000 * i + 1000 * j + 100 * t + s + 1)


def prepare(case, path):
    comps = {"components": [], "nodes": []}
    for i, c in enumerate(case["comps"]):
        params = []
        for j, p in enumerate(c["params"]):
            d = {"id": f"p{j}"}
            kind = p["kind"]
            if kind == "const":
                d["value"] = cell(i, j, 0, 0)
            else:
                rows = [
                    [cell(i, j, t, s) for s in range(case["cols"] if kind != "time" else 1)]
                    for t in range(case["T"] if kind != "scen" else 1)
                ]
                name = f"ts-{i}-{j}"
                (path / f"{name}.txt").write_text(
                    "\n".join(" ".join(map(str, r)) for r in rows) + "\n"
                )
                d.update(
                    {
                        "time-dependent": kind in ("time", "both"),
                        "scenario-dependent": kind in ("scen", "both"),
                        "value": name,
                    }
                )
            if p["group"] is not None:
                d["scenario-group"] = p["group"]
            params.append(d)
        entry = {"id": f"c{i}", "model": "lib.m", "parameters": params}
        if c["group"] is not None:
            entry["scenario-group"] = c["group"]
        comps["nodes" if c["node"] else "components"].append(entry)
    (path / "builder.csv").write_text(
        "".join(f"{g},{y},{s}\n" for g, y, s in case["lines"])
    )
    return yaml.safe_dump({"system": {k: v for k, v in comps.items() if v}})


def load(text, path):
    from andromede.study.parsing import parse_scenario_builder, parse_yaml_components
    from andromede.study.resolve_components import build_scenarized_data_base

    return build_scenarized_data_base(
        parse_yaml_components(io.StringIO(text)),
        parse_scenario_builder(path / "builder.csv"),
        path,
    )


def run(case, note):
    mapping = {(g, y): s for g, y, s in case["lines"]}
    with directory() as path:
        db = load(prepare(case, path), path)
    for i, c in enumerate(case["comps"]):
        for j, p in enumerate(c["params"]):
            group = p["group"] if p["group"] is not None else c["group"]
            data = db.get_data(f"c{i}", f"p{j}")
            for y in range(case["years"]):
                col = y if group is None else mapping[(group, y)]
                for t in range(case["T"]):
                    expected = cell(
                        i,
                        j,
                        t if p["kind"] in ("time", "both") else 0,
                        col if p["kind"] in ("scen", "both") else 0,
                    )
                    got = data.get_value(t, y)
                    if got != expected:
                        raise Violation(
                            f"c{i}.p{j} ({p['kind']}, group {group}) t={t} year={y}: "
                            f"{got}, expected {expected}"
                        )
                if p["kind"] in ("scen", "both") and group is not None and col != y:
                    note("+column assigned by a group")
            if p["group"] and c["group"] and p["group"] != c["group"]:
                note("group of the parameter over the group of the component")
            if c["node"]:
                note("node")


@st.composite
def wrong(draw):
    case = draw(cases())
    if not any(p for c in case["comps"] for p in c["params"]):
        case["comps"][0]["params"] = [{"kind": "scen", "group": None}]
    kind = draw(st.sampled_from(["unknown-component", "unknown-param", "twice", "no-year", "no-column", "negative"]))
    return {"case": case, "kind": kind, "i": draw(st.integers(0, 50)), "both": draw(st.booleans())}


def run_wrong(wcase, note):
    import copy

    case, kind, i = copy.deepcopy(wcase["case"]), wcase["kind"], wcase["i"]
    k = [n for n, c in enumerate(case["comps"]) if c["params"]][0]
    comp = case["comps"][k]
    param = comp["params"][0]
    param["kind"] = "both" if wcase["both"] else "scen"
    g = case["lines"][0][0]
    year = 0
    if kind == "unknown-component":
        comp["group"] = "missing"
        param["group"] = None
    elif kind == "unknown-param":
        param["group"] = "missing"
    else:
        comp["group"], param["group"] = g, None
        if kind == "twice":
            line = case["lines"][i % len(case["lines"])]
            case["lines"] = case["lines"] + [[line[0], line[1], (line[2] + i) % 2]]
        elif kind == "no-year":
            case["lines"] = [l for l in case["lines"] if not (l[0] == g and l[1] == 0)]
            for c in case["comps"]:
                # the group may have disappeared altogether
                if c is not comp:
                    c["group"] = None
                    for p in c["params"]:
                        p["group"] = None
        else:
            bad = -1 - i % case["cols"] if kind == "negative" else case["cols"] + i
            case["lines"] = [
                [l[0], l[1], bad if (l[0] == g and l[1] == 0) else l[2]]
                for l in case["lines"]
            ]
    with directory() as path:
        text = prepare(case, path)
        rejected(
            lambda: load(text, path).get_data(f"c{k}", "p0").get_value(0, year),
            f"scenario builder mistake ({kind})",
        )
    note(f"+invalid: {kind}")


# -------------------------------------------------- down to the problem


def run_problem(spec, note):
    """Groups given through files lead to the problem of the reference"""
    with directory() as path:
        through_files(spec, path, note)


def through_files(spec, path, note):
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study.resolve_components import build_network, resolve_system
    from andromede.study.parsing import parse_yaml_components

    lib, text = study.yaml_documents(spec, str(path))
    tree = yaml.safe_load(text)
    lines = []
    data = {
        (c["id"], n): d for c in spec["comps"] for n, d in c["data"].items()
    }
    for key in ("components", "nodes"):
        for c in tree["system"].get(key, []):
            for p in c["parameters"]:
                m = data[(c["id"], p["id"])].get("map")
                if m is not None:
                    g = f"{c['id']}/{p['id']}"
                    p["scenario-group"] = g
                    lines += [f"{g},{y},{s}" for y, s in m.items()]
                    note("+scenario group")
    (path / "builder.csv").write_text("\n".join(lines + ["unused,0,0"]) + "\n")
    text = yaml.safe_dump(tree)
    network = build_network(
        resolve_system(
            parse_yaml_components(io.StringIO(text)), study.load_libraries([lib])
        )
    )
    problem = build_problem(
        network,
        load(text, path),
        TimeBlock(1, list(spec["timesteps"])),
        spec["scenarios"],
    )
    study.compare_problem(problem, study.Ref(spec))


@st.composite
def rewritten(draw):
    prof = dict(S=(2, 3), T=(1, 2), params=(1, 3), maps=True, cons=(1, 2), depth=1, vars=(1, 2))
    g = gen.G(draw, gen.Profile(**prof))
    spec = g.spec()
    return {"specs": [spec, redrawn(g, spec), spec][: g.int(2, 3)]}


def run_rewritten(case, note):
    """Builders and series written one after another at the same place"""
    with directory() as path:
        for spec in case["specs"]:
            through_files(spec, path, note)


TESTS = [
    Test("groups", cases, run, 1200, 30000),
    Test("many years", many_years, run, 60, 3000),
    Test("wrong", wrong, run_wrong, 320, 6000),
    Test(
        "problem",
        lambda: gen.specs(S=(1, 3), T=(1, 2), params=(1, 3), maps=True, cons=(1, 2), depth=2),
        run_problem,
        400,
        10000,
    ),
    Test("rewritten files", rewritten, run_rewritten, 160, 4000),
]
