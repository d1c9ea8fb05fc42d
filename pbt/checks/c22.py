"""Conversion of Antares studies: nothing lost, nothing invented."""
import yaml
from hypothesis import strategies as st

from .. import antares
from ..runner import Test, Violation
from ..scratch import directory
from .c21 import matrix

PROPERTY = "C22"
RULE = (
    "random Antares studies (areas, links, thermal and renewable clusters, short-term "
    "storages, load, wind and solar series some of them null, battery artefacts in "
    "some areas) are converted, from memory or from disk; the components, their "
    "parameters and the connections must be exactly those an independent description "
    "of the conversion gives, and the written file must read back as the same system. "
    "Non-trivial: at least two areas and one cluster, storage, link or battery"
)
ASSUMPTIONS = [
    "identifiers of load, wind and solar components are the historical ones (known "
    "finding): the check identifies them by their series file"
]

NUM = [0.0, 1.0, 2.5, 10.0, 0.5, 100.0, 33.25]


@st.composite
def cases(draw, batteries=False, many=False):
    def num(pool=NUM):
        return draw(st.sampled_from(pool))

    n = 1 if many else draw(st.integers(1, 6))
    crowd = 5 if many else 2
    names = draw(st.permutations(["fr", "it", "be", "west area", "de_1", "northern region 1", "northern region 2", "area", "z_batt", "east__west", "next"]))
    areas = []
    for a in names[: draw(st.integers(4, 9) if many else st.integers(1, 4))]:
        area = {
            "id": a,
            "ens": num(),
            "spill": num(),
            "thermals": [],
            "renewables": [],
            "storages": [],
        }
        for kind in ("load", "wind", "solar"):
            shape = draw(st.sampled_from(["none", "zero", "some", "one", "signed", "negative", "first"]))
            if shape == "zero":
                area[kind] = [[0.0] * 2 for _ in range(n)]
            elif shape == "some":
                area[kind] = [[1.0 + t + s for s in range(2)] for t in range(n)]
            elif shape == "one":
                area[kind] = [[0.0, 0.0] for _ in range(n - 1)] + [[0.0, 3.0]]
            elif shape == "signed":  # values that add up to zero
                area[kind] = [[0.0, 0.0] for _ in range(n - 1)] + [[-3.0, 3.0]]
            elif shape == "negative":
                area[kind] = [[-1.0 - t, 0.0] for t in range(n)]
            elif shape == "first":
                area[kind] = [[2.0, 0.0]] + [[0.0, 0.0] for _ in range(n - 1)]
        for i in range(draw(st.integers(0, crowd))):
            area["thermals"].append(
                {
                    "name": f"{a}_gas{i}".replace(" ", "-"),
                    "props": {
                        "unit_count": draw(st.integers(1, 5)),
                        "nominal_capacity": num([1.0, 2.5, 100.0]),
                        "min_stable_power": num(),
                        "efficiency": num(),
                        "marginal_cost": num(),
                        "fixed_cost": num(),
                        "startup_cost": num(),
                        "min_up_time": draw(st.integers(1, 168)),
                        "min_down_time": draw(st.integers(1, 168)),
                    },
                    "modulation": draw(matrix(n, 4, 0.125, 8)),
                    "series": draw(matrix(n, 2, 0.25, 40)),
                }
            )
        for i in range(draw(st.integers(0, crowd))):
            area["renewables"].append(
                {
                    "name": f"{a}_wind{i}".replace(" ", "-"),
                    "props": {"unit_count": draw(st.integers(1, 5)), "nominal_capacity": num()},
                    "series": draw(matrix(n, 2, 0.25, 40)),
                }
            )
        for i in range(draw(st.integers(0, crowd))):
            area["storages"].append(
                {
                    "name": f"{a}_store{i}".replace(" ", "-"),
                    "props": {
                        "efficiency": num([0.0, 0.5, 0.875, 1.0]),
                        "initial_level": num([0.0, 0.25, 0.5]),
                        "reservoir_capacity": num(),
                        "injection_nominal_capacity": num(),
                        "withdrawal_nominal_capacity": num(),
                    },
                }
            )
        areas.append(area)
    ids = [a["id"] for a in areas]
    links = []
    for i, a in enumerate(ids):
        for b in ids[i + 1 :]:
            if draw(st.booleans()):
                links.append([a, b, {}])
    case = {"areas": areas, "links": links, "constraints": [], "batteries": {}}
    if batteries:
        # the template of the converter: hub area, two clusters, link, constraint
        hub = {"id": "z_batteries", "thermals": []}
        some = False
        for area in areas:
            a = area["id"]
            if " " in a:
                continue
            parts = {
                k: draw(st.sampled_from([True, True, True, True, False]))
                for k in ("hub cluster", "inj cluster", "link", "constraint")
            }
            if not draw(st.booleans()):
                parts = {k: False for k in parts}
            some = True
            data = {
                "reservoir": num([1.0, 2.0, 4.0, 8.0]),
                "inj": num([1.0, 2.0, 5.0]),
                "hub_series": draw(matrix(n, 2, 0.25, 40)),
                "inj_series": draw(matrix(n, 2, 0.25, 40)),
                "direct": [[0.25 * draw(st.integers(1, 40)), 7.0] for _ in range(n)],
                "parameters": [[0.5 * draw(st.integers(0, 9))] + [0.25 * k for k in range(5)] for _ in range(n)],
                "w_link": num([-0.5, -0.875, -1.0, 0.25]),
                "w_cluster": num([0.5, 1.0, 0.75]),
                "complete": all(parts.values()),
                **parts,
            }
            case["batteries"][a] = data
            if parts["hub cluster"]:
                hub["thermals"].append(
                    {
                        "name": f"z_batteries_batteries_{a}_1",
                        "props": {"unit_count": 1, "nominal_capacity": data["reservoir"]},
                        "modulation": [[1.0] * 4] * n,
                        "series": data["hub_series"],
                    }
                )
            if parts["inj cluster"]:
                area["thermals"].append(
                    {
                        "name": f"{a}_batteries_inj",
                        "props": {"unit_count": 1, "nominal_capacity": data["inj"]},
                        "modulation": [[1.0] * 4] * n,
                        "series": data["inj_series"],
                    }
                )
            if parts["link"]:
                links.append([a, "z_batteries", {"direct": data["direct"], "indirect": data["direct"], "parameters": data["parameters"]}])
            if parts["constraint"]:
                terms = []
                if parts["link"]:
                    terms.append(["link", a, "z_batteries", data["w_link"]])
                if parts["inj cluster"]:
                    terms.append(["cluster", a, f"{a}_batteries_inj", data["w_cluster"]])
                case["constraints"].append({"name": f"batteries_{a}", "terms": terms})
        plain = [a for a in areas if " " not in a["id"]]
        if len(plain) > 1 and draw(st.booleans()):
            # a cluster that only looks like the one of a battery: in another area
            x, y = draw(st.permutations(range(len(plain))))[:2]
            plain[x]["thermals"].append(
                {
                    "name": f"{plain[y]['id']}_batteries_inj",
                    "props": {
                        "unit_count": 1, "nominal_capacity": 2.0, "min_stable_power": 0.0,
                        "efficiency": 100.0, "marginal_cost": 1.0, "fixed_cost": 0.0,
                        "startup_cost": 0.0, "min_up_time": 1, "min_down_time": 1,
                    },
                    "modulation": [[1.0] * 4] * n,
                    "series": draw(matrix(n, 2, 0.25, 40)),
                }
            )
        if some:
            areas.insert(draw(st.integers(0, len(areas))), hub)
    case["from_disk"] = draw(st.booleans())
    case["folder"] = draw(st.sampled_from(antares.FOLDERS))
    case["without"] = draw(st.lists(st.integers(0, 30), max_size=4))
    return case


def series(path):
    return ("series", path)


def reference(case, root):
    """component -> (model, parameters), connections"""
    comps, conns, nodes = {}, set(), {}
    base = str(root / "input")
    replaced = set()  # artefacts that only model batteries
    hubs = {"z_batteries"}
    for area in case["areas"]:
        a = area["id"]
        replaced |= {
            f"{a}.{a}_batteries_inj",
            f"z_batteries.z_batteries_batteries_{a}_1",
            f"z_batteries.z_batteries_batteries_{a}_2",
            f"{a}%z_batteries",
        }
    for area in case["areas"]:
        a = area["id"]
        if a not in hubs:
            nodes[a] = ("area", {"ens_cost": area["ens"], "spillage_cost": area["spill"]})
        for t in area["thermals"]:
            if f"{a}.{t['name']}" in replaced:
                continue
            p = t["props"]
            d = f"{base}/thermal/series/{a}/{t['name']}"
            comps[t["name"]] = (
                "thermal",
                {
                    "unit_count": p["unit_count"],
                    "p_max_unit": p["nominal_capacity"],
                    "p_min_unit": p["min_stable_power"],
                    "efficiency": p["efficiency"],
                    "generation_cost": p["marginal_cost"],
                    "fixed_cost": p["fixed_cost"],
                    "startup_cost": p["startup_cost"],
                    "d_min_up": p["min_up_time"],
                    "d_min_down": p["min_down_time"],
                    "p_max_cluster": series(f"{d}/series"),
                    **{
                        k: series(f"{d}/{k}")
                        for k in (
                            "p_min_cluster",
                            "nb_units_min",
                            "nb_units_max",
                            "nb_units_max_variation_forward",
                            "nb_units_max_variation_backward",
                        )
                    },
                },
            )
            conns.add((t["name"], "balance_port", a, "balance_port"))
        for r in area.get("renewables", []):
            comps[r["name"]] = (
                "renewable",
                {
                    "unit_count": r["props"]["unit_count"],
                    "p_max_unit": r["props"]["nominal_capacity"],
                    "generation": series(f"{base}/renewables/series/{a}/{r['name']}/series"),
                },
            )
            conns.add((r["name"], "balance_port", a, "balance_port"))
        for s in area.get("storages", []):
            p = s["props"]
            d = f"{base}/st-storage/series/{a}/{s['name']}"
            comps[s["name"]] = (
                "short-term-storage",
                {
                    "efficiency_injection": p["efficiency"],
                    "efficiency_withdrawal": 1,
                    "initial_level": p["initial_level"],
                    "reservoir_capacity": p["reservoir_capacity"],
                    "injection_nominal_capacity": p["injection_nominal_capacity"],
                    "withdrawal_nominal_capacity": p["withdrawal_nominal_capacity"],
                    "inflows": series(f"{d}/inflows"),
                    "lower_rule_curve": series(f"{d}/lower-rule-curve"),
                    "upper_rule_curve": series(f"{d}/upper-rule-curve"),
                    "p_max_injection_modulation": series(f"{d}/PMAX-injection"),
                    "p_max_withdrawal_modulation": series(f"{d}/PMAX-withdrawal"),
                },
            )
            conns.add((s["name"], "injection_port", a, "balance_port"))
    fatal = []
    for area in case["areas"]:
        for kind in ("load", "wind", "solar"):
            if area.get(kind) and any(any(r) for r in area[kind]):
                fatal.append((kind, area["id"], f"{base}/{kind}/series/{kind}_{area['id']}"))
    for a, b, _ in case["links"]:
        a, b = sorted((a, b))
        if f"{a}%{b}" in replaced:
            continue
        d = f"{base}/links/{a}/capacities/{b}"
        comps[f"{a} / {b}"] = (
            "link",
            {"capacity_direct": series(f"{d}_direct"), "capacity_indirect": series(f"{d}_indirect")},
        )
        conns.add((f"{a} / {b}", "in_port", a, "balance_port"))
        conns.add((f"{a} / {b}", "out_port", b, "balance_port"))
    batteries = {a: d for a, d in case["batteries"].items() if d["complete"]}
    for a in batteries:
        conns.add((f"battery_{a}", "injection_port", a, "balance_port"))
    return nodes, comps, conns, fatal, batteries


def show(c):
    return f"{c.id} ({c.model})"


def compare_component(c, model, parameters, lib="antares-historic"):
    if c.model != f"{lib}.{model}":
        raise Violation(f"{c.id}: model {c.model}, expected {lib}.{model}")
    got = {}
    for p in c.parameters or []:
        if p.id in got:
            raise Violation(f"{show(c)}: parameter {p.id} twice")
        got[p.id] = p
    if set(got) != set(parameters):
        raise Violation(f"{show(c)}: parameters {sorted(got)}, expected {sorted(parameters)}")
    for name, wanted in parameters.items():
        p = got[name]
        if isinstance(wanted, tuple):
            if p.value != wanted[1]:
                raise Violation(f"{show(c)}.{name}: {p.value!r}, expected {wanted[1]!r}")
            if not (p.time_dependent and p.scenario_dependent):
                raise Violation(f"{show(c)}.{name}: series not marked as such")
        else:
            if p.value != wanted:
                raise Violation(f"{show(c)}.{name}: {p.value!r}, expected {wanted!r}")
            if p.time_dependent or p.scenario_dependent:
                raise Violation(f"{show(c)}.{name}: constant marked as series")


def check_battery(c, data):
    if not c.model.endswith(".battery"):
        raise Violation(f"{show(c)} is not a battery")
    top = max(r[0] for r in data["direct"])
    constants = {
        "reservoir_capacity": data["reservoir"],
        "injection_nominal_capacity": top,
        "withdrawal_nominal_capacity": data["inj"],
        "efficiency_injection": -data["w_link"],
        "efficiency_withdrawal": data["w_cluster"],
        "lower_rule_curve": 0.0,
    }
    curves = {
        "upper_rule_curve": [r[0] / data["reservoir"] for r in data["hub_series"]],
        "p_max_injection_modulation": [r[0] / top for r in antares.year(data["direct"])],
        "p_max_withdrawal_modulation": [r[0] / data["inj"] for r in data["inj_series"]],
        "marginal_cost": [r[0] for r in antares.year(data["parameters"])],
    }
    got = {p.id: p for p in c.parameters}
    if set(got) != set(constants) | set(curves) or len(got) != len(c.parameters):
        raise Violation(f"{show(c)}: parameters {sorted(got)}")
    for k, x in constants.items():
        if got[k].value != x or got[k].time_dependent or got[k].scenario_dependent:
            raise Violation(f"{show(c)}.{k}: {got[k].value!r}, expected {x}")
    for k, xs in curves.items():
        if not got[k].time_dependent or got[k].scenario_dependent:
            raise Violation(f"{show(c)}.{k} not marked as time dependent")
        table = antares.read_matrix(got[k].value)
        if [len(r) for r in table] != [1] * len(xs) or any(
            abs(r[0] - x) > 1e-6 for r, x in zip(table, xs)
        ):
            raise Violation(f"{show(c)}.{k}: {table[:9]}, expected {xs[:9]}")


def check_system(system, case, root):
    nodes, comps, conns, fatal, batteries = reference(case, root)
    got = {}
    for c in system.nodes or []:
        if c.id in got:
            raise Violation(f"node {c.id} twice")
        got[c.id] = c
    if set(got) != set(nodes):
        raise Violation(f"nodes {sorted(got)}, expected {sorted(nodes)}")
    for k, (model, parameters) in nodes.items():
        compare_component(got[k], model, parameters)
    # components identified by their series: load, wind and solar
    left, seen = [], {}
    for c in system.components or []:
        kind = c.model.split(".")[1]
        if kind in ("load", "wind", "solar"):
            seen.setdefault((kind, c.parameters[0].value), []).append(c)
        else:
            left.append(c)
    if {(k, p) for k, _, p in fatal} != set(seen) or any(len(v) > 1 for v in seen.values()):
        raise Violation(
            f"load, wind and solar components {sorted(seen)}, expected {sorted(fatal)}"
        )
    for kind, area, path in fatal:
        compare_component(seen[(kind, path)][0], kind, {kind: series(path)})
    wanted = {f"battery_{a}": d for a, d in batteries.items()}
    ids = [c.id for c in left]
    if sorted(ids) != sorted(list(comps) + list(wanted)):
        raise Violation(f"components {sorted(ids)}, expected {sorted(comps)} and {sorted(wanted)}")
    for c in left:
        if c.id in wanted:
            check_battery(c, wanted[c.id])
        else:
            compare_component(c, *comps[c.id])
    links = sorted((k.component1, k.port1, k.component2, k.port2) for k in system.connections or [])
    expected = sorted(
        list(conns) + [(kind, "balance_port", a, "balance_port") for kind, a, _ in fatal]
    )
    if links != expected:
        raise Violation(
            f"connections {[k for k in links if k not in expected]} not expected, "
            f"{[k for k in expected if k not in links]} missing"
        )


def run(case, note):
    with directory(case.get("folder", "")) as path:
        convert_at(path.resolve(), case, note)


def run_rewritten(case, note):
    """Studies written one after another at the same place"""
    import shutil

    with directory() as path:
        path = path.resolve()
        for c in case["studies"]:
            convert_at(path, c, note)
            shutil.rmtree(path / "study")


def convert_at(path, case, note):
    from andromede.input_converter.src.converter import AntaresStudyConverter
    from andromede.study.parsing import parse_yaml_components

    study = antares.create(case, path)
    root = path / "study"
    # files of series that the conversion only refers to may be missing
    files = sorted(root.glob("input/links/*/capacities/*.txt")) + sorted(root.glob("input/st-storage/series/*/*/*.txt"))
    files = [f for f in files if "z_batteries" not in f.name]
    for k in {k % len(files) for k in case["without"]} if files else ():
        files[k].unlink()
    system = antares.convert(root if case["from_disk"] else study)
    check_system(system, case, root)
    # the file that is written says the same
    target = path / "out.yaml"
    converter = AntaresStudyConverter(study, antares.quiet(), output_path=target)
    converter.process_all()
    with target.open() as f:
        again = parse_yaml_components(f)
    check_system(again, case, root)
    kinds = [k for a in case["areas"] for k in ("thermals", "renewables", "storages") if a.get(k)]
    if len(case["areas"]) > 1 and (kinds or case["links"]):
        note("+areas with objects")
    for a, d in case["batteries"].items():
        note("+battery" if d["complete"] else "incomplete battery")
    for a in case["areas"]:
        for kind in ("load", "wind", "solar"):
            if a.get(kind):
                note(f"{kind} series")


def run_identifiers(case, note):
    """Finding: identifiers are unique, connections refer to them"""
    with directory() as path:
        system = antares.convert(antares.create(case, path.resolve()))
    ids = [c.id for c in (system.nodes or []) + (system.components or [])]
    if len(set(ids)) < len(ids):
        raise Violation(f"identifiers not unique: {sorted(ids)}")
    for k in system.connections or []:
        if k.component1 not in ids or k.component2 not in ids:
            raise Violation(f"connection of unknown components {k}")


@st.composite
def rewritten(draw):
    from_disk = draw(st.booleans())
    return {
        "studies": [
            {**draw(cases(batteries=b)), "from_disk": from_disk}
            for b in draw(st.sampled_from([[False, False], [True, False], [True, True]]))
        ]
    }


FINDING_TESTS = [Test("identifiers", cases, run_identifiers, 0, 0)]

TESTS = [
    Test("studies", cases, run, 120, 5000),
    Test("rewritten", rewritten, run_rewritten, 16, 800),
    Test("many", lambda: cases(many=True), run, 16, 800),
    Test("many batteries", lambda: cases(many=True, batteries=True), run, 16, 800),
    Test("batteries", lambda: cases(batteries=True), run, 100, 4000),
]
