"""Conversion of PyPSA networks."""
import io

import yaml
from hypothesis import strategies as st

from .. import fake_pypsa, lp, shipped, study
from ..antares import quiet
from ..runner import Test, Violation, rejected
from ..scratch import directory
from .c25 import G, libraries

PROPERTY = "C26"
RULE = (
    "random PyPSA networks (buses, loads, generators, links, storage units, stores, "
    "carriers, CO2 constraints; constants and series; extendable or not; same names in "
    "several tables) are converted; components, parameters, series and connections are "
    "those an independent description gives, and the written system, with the shipped "
    "PyPSA models, has the optimum of an independent formulation of the network. "
    "Networks with unsupported features are refused. Non-trivial: a network with "
    "generators, and a series or an investment, or a refused one"
)
ASSUMPTIONS = [
    "pypsa is not installed here: a stand-in with the tables of pypsa.Network is converted",
    "the linear solvers bundled with OR-Tools are right within 1e-5",
]
BIG = 1e20
SMALL = [0.0, 1.0, 2.0, 5.0, 10.0, 3.5, 1 / 3]
NAMES = ["a", "b", "A", "town", "x 1"]


@st.composite
def networks(draw):
    g = G(draw)
    T = g.int(1, 4)

    def maybe(pool):
        """constant, or series"""
        if g.int(0, 2):
            return g.pick(pool)
        return [g.pick(pool) for _ in range(T)]

    def given_(d):
        """some of the attributes are left to their default"""
        return {k: v for k, v in d.items() if g.int(0, 4)}

    def nom(p):
        d = {f"{p}_nom": g.pick([0.0, 2.0, 5.0]), "capital_cost": g.pick(SMALL)}
        if g.flag():
            lo = g.pick([0.0, 2.0])
            d.update({f"{p}_nom_extendable": True, f"{p}_nom_min": lo})
            if g.flag():
                d[f"{p}_nom_max"] = lo + g.pick([0.0, 3.0, 50.0])
        return d

    objs = []
    buses = NAMES[: g.int(1, 3)]
    for b in buses:
        objs.append(["Bus", b, given_({"v_nom": g.pick([1.0, 380.0]), "x": 1.5, "v_mag_pu_set": maybe([1.0, 1.5])})])
    carriers = ["gas", "coal"][: g.int(0, 2)]
    for c in carriers:
        objs.append(["Carrier", c, given_({"co2_emissions": g.pick([1.0, 2.0, 0.5])})])

    def carrier():
        xs = ["", *carriers, "undeclared"] if g.chance_unknown else ["", *carriers]
        return {"carrier": g.pick(xs)}

    g.chance_unknown = g.int(0, 3) == 0
    used = {}

    def name(cls):
        pool = [n for n in NAMES + ["y", "z", "w", "v"] if n not in used.setdefault(cls, set())]
        n = g.pick(pool[:5])
        used[cls].add(n)
        return n

    for b in buses:
        if g.int(0, 3):
            objs.append(["Load", name("Load"), {"bus": b, **given_({"p_set": maybe([0.0, 1.0, 3.0, 5.0, 2 / 3])})}])
        if g.int(0, 5):
            objs.append(
                [
                    "Generator", name("Generator"),
                    {
                        "bus": b, "p_nom_extendable": True, "p_min_pu": -1.0, "marginal_cost": 20.0,
                        **given_({"capital_cost": 1.0, "p_nom_max": 500.0}), **carrier(),
                    },
                ]
            )
    for _ in range(g.int(0, 2)):
        objs.append(
            [
                "Generator", name("Generator"),
                {
                    "bus": g.pick(buses), **carrier(), **nom("p"),
                    **given_(
                        {
                            "p_min_pu": maybe([0.0, 0.25, -1.0]), "p_max_pu": maybe([1.0, 0.5]),
                            "marginal_cost": maybe(SMALL), "efficiency": maybe([1.0, 0.5]),
                            "e_sum_min": g.pick([-5.0, 0.0]), "e_sum_max": g.pick([20.0, 8.0]),
                            "sign": g.pick([1.0, -1.0]),
                        }
                    ),
                },
            ]
        )
    if len(buses) > 1:
        for _ in range(g.int(0, 2)):
            a = g.pick(buses)
            b = g.pick([x for x in buses if x != a])
            objs.append(
                [
                    "Link", name("Link"),
                    {
                        "bus0": a, "bus1": b, **carrier(), **nom("p"),
                        **given_(
                            {
                                "efficiency": maybe([1.0, 0.5]), "p_min_pu": maybe([0.0, -1.0]),
                                "p_max_pu": maybe([1.0, 0.5]), "marginal_cost": maybe(SMALL),
                            }
                        ),
                    },
                ]
            )
    for _ in range(g.pick([0, 1, 0, 1, 2])):
        objs.append(
            [
                "StorageUnit", name("StorageUnit"),
                {
                    "bus": g.pick(buses), "cyclic_state_of_charge": True, **carrier(), **nom("p"),
                    **given_(
                        {
                            "p_max_pu": maybe([1.0, 0.5, 0.0]), "p_min_pu": maybe([-1.0, -0.5, 0.0]),
                            "marginal_cost": maybe(SMALL),
                            "efficiency_store": maybe([1.0, 0.5]), "efficiency_dispatch": maybe([1.0, 0.5]),
                            "standing_loss": maybe([0.0, 0.25]), "max_hours": g.pick([1.0, 6.0]),
                            "inflow": maybe([0.0, 1.0]), "spill_cost": maybe([0.0, 1.0]),
                            "marginal_cost_storage": maybe([0.0, 0.5]),
                        }
                    ),
                },
            ]
        )
    for _ in range(g.pick([0, 1, 0, 1, 2])):
        objs.append(
            [
                "Store", name("Store"),
                {
                    "bus": g.pick(buses), "e_cyclic": True, **carrier(), **nom("e"),
                    **given_(
                        {
                            "e_min_pu": maybe([0.0, -1.0]), "e_max_pu": maybe([1.0, 0.5]),
                            "marginal_cost": maybe(SMALL), "standing_loss": maybe([0.0, 0.25]),
                            "marginal_cost_storage": maybe([0.0, 0.5]),
                        }
                    ),
                },
            ]
        )
    for i in range(g.pick([0, 0, 1, 2])):
        objs.append(
            ["GlobalConstraint", name("GlobalConstraint"), {"sense": g.pick(["<=", "<=", "=="]), "constant": g.pick([10.0, 50.0, 3.0, 7 / 3, 0.0, -1.0])}]
        )
    return {
        "T": T, "name": g.pick(["Demo", "", "my net"]), "objects": objs,
        "directions": [g.int(1, 1000) for _ in range(2)],
    }


def make(case):
    n = fake_pypsa.Network(case["name"], case["T"])
    for cls, name, kw in case["objects"]:
        n.add(cls, name, **kw)
    return n


# what the model of each class takes, and where it is connected
PARAMS = {
    "Bus": ("bus", ["v_nom", "x", "y", "v_mag_pu_set", "v_mag_pu_min", "v_mag_pu_max"], []),
    "Load": ("load", ["p_set", "q_set", "sign"], [("bus", "p_balance_port")]),
    "Generator": (
        "generator",
        ["p_nom_min", "p_nom_max", "p_min_pu", "p_max_pu", "marginal_cost", "capital_cost", "e_sum_min",
         "e_sum_max", "sign", "efficiency", "emission_factor"],
        [("bus", "p_balance_port")],
    ),
    "Link": (
        "link",
        ["efficiency", "p_nom_min", "p_nom_max", "p_min_pu", "p_max_pu", "marginal_cost", "capital_cost"],
        [("bus0", "p0_port"), ("bus1", "p1_port")],
    ),
    "StorageUnit": (
        "storage_unit",
        ["p_nom_min", "p_nom_max", "p_min_pu", "p_max_pu", "sign", "efficiency_store", "efficiency_dispatch",
         "standing_loss", "max_hours", "marginal_cost", "capital_cost", "marginal_cost_storage", "spill_cost",
         "inflow", "emission_factor"],
        [("bus", "p_balance_port")],
    ),
    "Store": (
        "store",
        ["sign", "e_nom_min", "e_nom_max", "e_min_pu", "e_max_pu", "standing_loss", "marginal_cost",
         "capital_cost", "marginal_cost_storage", "emission_factor"],
        [("bus", "p_balance_port")],
    ),
}


def expected(case):
    """The network as components and connections of the shipped models, keyed by (class, name)"""
    comps, conns = [], []
    carriers = {o[1]: o[2].get("co2_emissions", 0.0) for o in case["objects"] if o[0] == "Carrier"}
    emitters = []
    quotas = []
    for cls, name, kw in case["objects"]:
        key = f"{cls}:{name}"
        if cls == "Carrier":
            continue
        if cls == "GlobalConstraint":
            model = {"<=": "max", "==": "eq"}[kw["sense"]]
            comps.append(
                {"id": key, "model": f"pypsa_models.global_constraint_co2_{model}",
                 "data": {"quota": {"kind": "const", "values": kw["constant"]}}}
            )
            quotas.append(key)
            continue
        model, params, ends = PARAMS[cls]
        values = {**fake_pypsa.CLASSES[cls][1], **kw}
        cap = {"Generator": "p_nom", "Link": "p_nom", "StorageUnit": "p_nom", "Store": "e_nom"}.get(cls)
        if cap and not values[f"{cap}_extendable"]:
            values[f"{cap}_min"] = values[f"{cap}_max"] = values[cap]
            values["capital_cost"] = 0.0
        if "emission_factor" in params:
            values["emission_factor"] = carriers.get(values["carrier"], 0.0)
            if values["carrier"] != "":
                emitters.append((key, values["carrier"] in carriers))
        data = {}
        for p in params:
            v = values[p]
            if isinstance(v, list):
                data[p] = {"kind": "time", "values": v}
            else:
                data[p] = {"kind": "const", "values": min(max(v, -BIG), BIG)}
        comps.append({"id": key, "model": f"pypsa_models.{model}", "data": data})
        for end, port in ends:
            conns.append([f"Bus:{kw[end]}", "p_balance_port", key, port])
    for q in quotas:
        for e, declared in emitters:
            conns.append([q, "emission_port", e, "emission_port"])
    return comps, conns


def convert(n, path):
    fake_pypsa.install()
    from andromede.pypsa_converter.pypsa_converter import PyPSAStudyConverter

    return PyPSAStudyConverter(n, quiet(), path, path).to_gems_study()


def read_system(system, path):
    """(components with their data read, connections) of an InputSystem"""
    comps = {}
    for c in list(system.nodes) + list(system.components):
        if c.id in comps:
            raise Violation(f"two components are named {c.id}")
        data = {}
        for p in c.parameters or []:
            if p.id in data:
                raise Violation(f"{c.id}: parameter {p.id} twice")
            if p.scenario_dependent:
                raise Violation(f"{c.id}.{p.id} marked as depending on scenarios")
            if p.time_dependent:
                with open(path / f"{p.value}.txt") as f:
                    data[p.id] = {"kind": "time", "values": [float(x) for x in f.read().split()]}
            else:
                data[p.id] = {"kind": "const", "values": p.value}
        comps[c.id] = (c.model, data)
    return comps, [(k.component1, k.port1, k.component2, k.port2) for k in system.connections]


def same(a, b):
    return a["kind"] == b["kind"] and (
        a["values"] == b["values"]
        if isinstance(a["values"], (float, int))
        else [float(x) for x in a["values"]] == [float(x) for x in b["values"]]
    )


def check(comps, conns, case):
    wanted, wanted_conns = expected(case)
    if len(comps) != len(wanted):
        raise Violation(f"components {sorted(comps)} for {sorted(c['id'] for c in wanted)}")
    # identifiers are free, if they tell components apart: matched by name and content
    ids = {}
    for c in wanted:
        cls, name = c["id"].split(":", 1)
        found = [
            i for i, (model, data) in comps.items()
            if model == c["model"] and (i == name or i.startswith(name + "_")) and i not in ids.values()
        ]
        exact = [
            i for i in found
            if set(comps[i][1]) == set(c["data"]) and all(same(comps[i][1][p], c["data"][p]) for p in c["data"])
        ]
        if not exact:
            raise Violation(f"no component for {cls} {name}: {c}; candidates {[(i, comps[i]) for i in found]}")
        ids[c["id"]] = min(exact, key=len)
    got = sorted(tuple(sorted([(a, p), (b, q)])) for a, p, b, q in conns)
    exp = sorted(tuple(sorted([(ids[a], p), (ids[b], q)])) for a, p, b, q in wanted_conns)
    if got != exp:
        raise Violation(
            f"connections {[k for k in got if k not in exp]} not expected, "
            f"{[k for k in exp if k not in got]} missing"
        )
    return ids


def run(case, note):
    from andromede.pypsa_converter.utils import transform_to_yaml
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study.parsing import parse_yaml_components

    with directory() as path:
        system = convert(make(case), path)
        check(*read_system(system, path), case)
        transform_to_yaml(system, str(path / "out.yml"))
        with open(path / "out.yml") as f:
            text = f.read()
        ids = check(*read_system(parse_yaml_components(io.StringIO(text)), path), case)
        network, db = study.load_system(text, libraries(["pypsa_models"]), path)
        problem = build_problem(network, db, TimeBlock(1, list(range(case["T"]))), 1)
    wanted, conns = expected(case)
    ref = {
        "T": case["T"], "S": 1,
        "comps": [dict(c, id=ids[c["id"]]) for c in wanted],
        "conns": [[ids[a], p, ids[b], q] for a, p, b, q in conns],
    }
    lp.compare(problem, shipped.reference(ref), case["directions"], lambda x: note(x.strip("+")))
    if any(o[0] == "Generator" for o in case["objects"]):
        for o in case["objects"]:
            if any(isinstance(v, list) for v in o[2].values()):
                note("+with series")
            if o[2].get("p_nom_extendable"):
                note("+with investment")
    for o in case["objects"]:
        note(o[0])


UNSUPPORTED = {
    "Generator": [("marginal_cost_quadratic", 1.0), ("active", False), ("committable", True)],
    "Load": [("active", False)],
    "Link": [("active", False), ("committable", True), ("marginal_cost_quadratic", 0.25)],
    "Line": [("s_nom", 10.0)],
    "Transformer": [("s_nom", 10.0)],
    "StorageUnit": [
        ("active", False), ("sign", -1.0), ("cyclic_state_of_charge", False), ("marginal_cost_quadratic", 0.5),
    ],
    "Store": [("active", False), ("sign", -1.0), ("e_cyclic", False), ("marginal_cost_quadratic", 0.5)],
    "GlobalConstraint": [("type", "tech_capacity_expansion_limit"), ("carrier_attribute", "land_use"), ("sense", ">=")],
}


ENDS = {"Generator": ["bus"], "Load": ["bus"], "Link": ["bus0", "bus1"], "StorageUnit": ["bus"], "Store": ["bus"],
        "Line": ["bus0", "bus1"], "Transformer": ["bus0", "bus1"]}
MINIMAL = {
    "Generator": {}, "Load": {}, "Link": {}, "Line": {}, "Transformer": {}, "StorageUnit": {"cyclic_state_of_charge": True},
    "Store": {"e_cyclic": True}, "GlobalConstraint": {"sense": "<=", "constant": 3.0},
}


@st.composite
def unsupported(draw):
    case = draw(networks())
    faults = [[c, k, v] for c, f in UNSUPPORTED.items() for k, v in f]
    faults += [["network", "snapshot_weightings", None], ["network", "investment_periods", None]]
    cls, k, v = draw(st.sampled_from(faults))
    if cls != "network":
        places = [i for i, o in enumerate(case["objects"]) if o[0] == cls]
        if not places:
            bus = case["objects"][0][1]
            places = [len(case["objects"])]
            case["objects"].append([cls, "w", {**MINIMAL[cls], **{b: bus for b in ENDS.get(cls, [])}}])
        at = draw(st.sampled_from(places))
        # among others of the same class, without fault
        if cls not in ("Line", "Transformer"):
            bus = case["objects"][0][1]
            for i in range(draw(st.integers(0, 2))):
                where = at if draw(st.booleans()) else at + 1
                case["objects"].insert(where, [cls, f"more{i}", {**MINIMAL[cls], **{b: bus for b in ENDS.get(cls, [])}}])
                at += where == at
        cls = at
    case["fault"] = [cls, k, v]
    return case


def run_unsupported(case, note):
    import pandas as pd

    i, k, v = case["fault"]
    if i != "network":
        case["objects"][i][2][k] = v
    n = make(case)
    if k == "snapshot_weightings":
        n.snapshot_weightings.iloc[-1, 0] = 2.0
    elif k == "investment_periods":
        n.investment_periods = pd.Index([2030, 2040])
    with directory() as path:
        what = case["objects"][i][0] if i != "network" else i
        rejected(lambda: convert(n, path), f"{what} with {k} = {v}")
    note(f"+{what} {k}")


TESTS = [
    Test("networks", networks, run, 400, 10000),
    Test("unsupported", unsupported, run_unsupported, 200, 3000),
]
