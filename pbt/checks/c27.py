"""Antares studies, from the study to the optimum."""
import io

from hypothesis import strategies as st

from .. import antares, lp, shipped, study
from ..runner import Test
from ..scratch import directory
from .c21 import expected as thermal_series
from .c25 import G, SHARE, SMALL, libraries

PROPERTY = "C27"
RULE = (
    "random Antares studies (areas, load, links, thermal and renewable clusters, "
    "short-term storages, batteries modelled with a virtual area and a binding "
    "constraint; several scenarios) are converted, the written system is read with the "
    "shipped libraries and built; the problem must have the optimum of an independent "
    "formulation of the Antares study, for its cost and for random other objectives. "
    "Non-trivial: a feasible one"
)
ASSUMPTIONS = [
    "the linear solvers bundled with OR-Tools are right within 1e-5",
    "two problems with the same optimum in several random directions are the same",
    "load in one area only, no wind or solar series: known finding of C22",
]


@st.composite
def cases(draw):
    g = G(draw)
    T, S = g.int(1, 5), g.int(1, 2)

    def table(pool, cols=S):
        return [[float(g.pick(pool)) for _ in range(cols)] for _ in range(T)]

    names = draw(st.permutations(["fr", "it", "be", "de_1", "northern_region_1", "northern_region_2", "area", "z_batt", "east__west", "next"]))[: g.int(1, 3)]
    areas, links = [], []
    loaded = g.pick(names + [None])
    for a in names:
        area = {
            "id": a, "ens": g.pick([100.0, 1000.0, 5.0]), "spill": g.pick([0.0, 1.0, 3.5]),
            "thermals": [], "renewables": [], "storages": [],
        }
        if a == loaded:
            area["load"] = table([0, 1, 3, 5, 8])
        areas.append(area)
    for _ in range(g.int(1, 3)):
        area = g.pick(areas)
        kind = g.pick(["thermals", "renewables", "storages"])
        name = f"{area['id']}_{kind}{len(area[kind])}"
        if kind == "thermals":
            unit, units = g.pick([1.0, 2.0, 5.0]), g.int(1, 3)
            pmax = [[max(0.0, g.int(0, units) * unit - g.pick([0, 0.5])) for _ in range(S)] for _ in range(T)]
            area[kind].append(
                {
                    "name": name,
                    "props": {
                        "unit_count": units, "nominal_capacity": unit,
                        "min_stable_power": g.pick([0.0, 0.0, 0.5, 1.0]), "efficiency": g.pick([100.0, 50.0]),
                        "marginal_cost": float(g.pick(SMALL)), "fixed_cost": float(g.pick(SMALL)),
                        "startup_cost": float(g.pick(SMALL)), "min_up_time": g.pick([1, 2, 3, 5]),
                        "min_down_time": g.pick([1, 2, 3, 5]),
                    },
                    "modulation": [[1.0, 1.0, 1.0, g.pick([0, 0, 0.25, 0.5])] for _ in range(T)],
                    "series": pmax,
                }
            )
        elif kind == "renewables":
            area[kind].append(
                {
                    "name": name,
                    "props": {"unit_count": g.int(1, 3), "nominal_capacity": g.pick([1.0, 3.0])},
                    "series": table(SMALL),
                }
            )
        else:
            area[kind].append(
                {
                    "name": name,
                    "props": {
                        "efficiency": g.pick([1.0, 0.5, 0.75]), "initial_level": g.pick([0.25, 0.5, 0.125]),
                        "reservoir_capacity": g.pick([10.0, 4.0]),
                        "injection_nominal_capacity": g.pick([5.0, 2.0]),
                        "withdrawal_nominal_capacity": g.pick([5.0, 3.0]),
                    },
                    "series": {
                        "inflows": table([0, 0, 1, -0.5]), "lower-rule-curve": table([0, 0, 0.125]),
                        "upper-rule-curve": table([1, 0.5, 0.75]), "PMAX-injection": table(SHARE),
                        "PMAX-withdrawal": table(SHARE),
                    },
                }
            )
    for i, a in enumerate(names):
        for b in names[i + 1 :]:
            if g.flag():
                pair = [a, b] if g.flag() else [b, a]
                links.append([*pair, {}, {"direct": table([2, 0, 5, 10]), "indirect": table([3, 0, 1, 10])}])
    case = {"areas": areas, "links": links, "constraints": [], "batteries": {}}
    for area in list(areas):
        if g.int(0, 3):
            continue
        a = area["id"]
        d = {
            "reservoir": g.pick([1.0, 4.0, 8.0]), "inj": g.pick([1.0, 2.0, 5.0]),
            "hub_series": [[g.pick([1.0, 4.0, 2.0])] * S for _ in range(T)],
            "inj_series": [[g.pick([1.0, 2.0, 0.5])] * S for _ in range(T)],
            "direct": [[g.pick([1.0, 4.0, 2.0])] for _ in range(T)],
            "cost": [g.pick([0.0, 1.0, 3.5]) for _ in range(T)],
            "w_link": g.pick([-0.5, -0.75, -1.0]), "w_cluster": g.pick([1.0, 0.75, 1.25]),
        }
        case["batteries"][a] = d
        if len(case["batteries"]) == 1:
            areas.insert(g.pick([0, len(areas)]), {"id": "z_batteries", "thermals": []})
        hub = [x for x in areas if x["id"] == "z_batteries"][0]
        hub["thermals"].append(
            {
                "name": f"z_batteries_batteries_{a}_1",
                "props": {"unit_count": 1, "nominal_capacity": d["reservoir"]},
                "modulation": [[1.0] * 4] * T, "series": d["hub_series"],
            }
        )
        area["thermals"].append(
            {
                "name": f"{a}_batteries_inj",
                "props": {"unit_count": 1, "nominal_capacity": d["inj"]},
                "modulation": [[1.0] * 4] * T, "series": d["inj_series"],
            }
        )
        links.append(
            [a, "z_batteries", {"direct": d["direct"], "indirect": d["direct"],
                                "parameters": [[c] + [0.0] * 5 for c in d["cost"]]}, None]
        )
        case["constraints"].append(
            {
                "name": f"batteries_{a}",
                "terms": [
                    ["link", a, "z_batteries", d["w_link"]],
                    ["cluster", a, f"{a}_batteries_inj", d["w_cluster"]],
                ],
            }
        )
    case.update(T=T, S=S, from_disk=g.flag(), directions=[g.int(1, 1000) for _ in range(2)])
    return case


def const(x):
    return {"kind": "const", "values": x}


def both(m):
    return {"kind": "both", "values": m}


def formulation(case):
    """The study, with the vocabulary of the shipped models"""
    comps, conns = [], []
    H = "antares-historic."

    def add(cid, model, data, ends):
        comps.append({"id": cid, "model": model, "data": data})
        for port, a in ends:
            conns.append([cid, port, a, "balance_port"])

    batteries = case["batteries"]
    for area in case["areas"]:
        a = area["id"]
        if a == "z_batteries":
            continue
        add(a, H + "area", {"ens_cost": const(area["ens"]), "spillage_cost": const(area["spill"])}, [])
        if area.get("load") and any(any(r) for r in area["load"]):
            add("load", H + "load", {"load": both(area["load"])}, [("balance_port", a)])
        for t in area["thermals"]:
            if a in batteries and t["name"] == f"{a}_batteries_inj":
                continue
            p = t["props"]
            data = {k: both(m) for k, m in thermal_series(t, case["T"]).items()}
            data.update(
                p_min_unit=const(p["min_stable_power"]), p_max_unit=const(p["nominal_capacity"]),
                generation_cost=const(p["marginal_cost"]), startup_cost=const(p["startup_cost"]),
                fixed_cost=const(p["fixed_cost"]), d_min_up=const(p["min_up_time"]),
                d_min_down=const(p["min_down_time"]),
            )
            add(t["name"], H + "thermal", data, [("balance_port", a)])
        for r in area["renewables"]:
            add(r["name"], H + "renewable", {"generation": both(r["series"])}, [("balance_port", a)])
        for s in area["storages"]:
            p, x = s["props"], s["series"]
            data = {k: const(p[k]) for k in p if k != "efficiency"}
            data.update(
                efficiency_injection=const(p["efficiency"]), efficiency_withdrawal=const(1),
                inflows=both(x["inflows"]), lower_rule_curve=both(x["lower-rule-curve"]),
                upper_rule_curve=both(x["upper-rule-curve"]),
                p_max_injection_modulation=both(x["PMAX-injection"]),
                p_max_withdrawal_modulation=both(x["PMAX-withdrawal"]),
            )
            add(s["name"], H + "short-term-storage", data, [("injection_port", a)])
    for a, b, _, x in case["links"]:
        if b == "z_batteries":
            continue
        a, b = sorted((a, b))
        add(
            f"{a} / {b}", H + "link",
            {"capacity_direct": both(x["direct"]), "capacity_indirect": both(x["indirect"])},
            [("in_port", a), ("out_port", b)],
        )
    for a, d in batteries.items():
        # the antares link is limited by its capacity, the level by the availability
        # of the cluster of the virtual area
        time = lambda xs: {"kind": "time", "values": xs}
        top = max(r[0] for r in antares.year(d["direct"]))
        add(
            f"battery_{a}", "andromede-v1-models.battery",
            {
                "reservoir_capacity": const(d["reservoir"]), "injection_nominal_capacity": const(top),
                "withdrawal_nominal_capacity": const(d["inj"]), "efficiency_injection": const(-d["w_link"]),
                "efficiency_withdrawal": const(d["w_cluster"]), "lower_rule_curve": const(0.0),
                "upper_rule_curve": time([r[0] / d["reservoir"] for r in d["hub_series"]]),
                "p_max_injection_modulation": time([r[0] / top for r in d["direct"]]),
                "p_max_withdrawal_modulation": time([r[0] / d["inj"] for r in d["inj_series"]]),
                "marginal_cost": time(d["cost"]),
            },
            [("injection_port", a)],
        )
    return {"T": case["T"], "S": case["S"], "comps": comps, "conns": conns}


def write_matrix(path, rows):
    path.write_text("".join("\t".join(map(str, r)) + "\n" for r in rows))


def run(case, note):
    from andromede.input_converter.src.converter import AntaresStudyConverter
    from andromede.simulation import TimeBlock, build_problem

    T, S = case["T"], case["S"]
    with directory() as path:
        path = path.resolve()
        described = dict(case, links=[k[:3] for k in case["links"]])
        made = antares.create(described, path)
        root = path / "study"
        for area in case["areas"]:
            for s in area.get("storages", []):
                for name, rows in s["series"].items():
                    write_matrix(root / "input/st-storage/series" / area["id"] / s["name"] / f"{name}.txt", rows)
        for a, b, _, x in case["links"]:
            if x:
                a, b = sorted((a, b))
                for name, rows in x.items():
                    write_matrix(root / "input/links" / a / "capacities" / f"{b}_{name}.txt", rows)
        target = path / "system.yml"
        converter = AntaresStudyConverter(
            root if case["from_disk"] else made, antares.quiet(), period=T, output_path=target
        )
        converter.process_all()
        libs = libraries(["antares-historic", "andromede-v1-models"])
        network, db = study.load_system(target.read_text(), libs, path)
        problem = build_problem(network, db, TimeBlock(1, list(range(T))), S)
    ref = formulation(case)
    lp.compare(problem, shipped.reference(ref), case["directions"], note)
    for c in ref["comps"]:
        note(c["model"].split(".")[1])


# finding: such studies cannot be built
FINDING_TESTS = [Test("wind and solar", cases, run, 0, 0)]

TESTS = [Test("studies", cases, run, 240, 6000)]
