"""The shipped libraries of models."""
import yaml
from hypothesis import strategies as st

from .. import lp, shipped, study
from ..runner import Test, Violation
from ..scratch import directory

PROPERTY = "C25"
RULE = (
    "random systems made of the models of the shipped libraries (areas with load, "
    "links, renewables, thermal clusters, storages, batteries, demand response and "
    "electrolysers; PyPSA buses with loads, generators, links, storage units, stores "
    "and CO2 quotas), with random data, are read from files and built; the problem "
    "must have the same optimum as an independently written formulation, for its cost "
    "and for random other objectives over its variables. Non-trivial: a feasible one"
)
ASSUMPTIONS = [
    "the linear solvers bundled with OR-Tools are right within 1e-5",
    "two problems with the same optimum in several random directions are the same",
]


class G:
    def __init__(self, draw):
        self.draw = draw

    def int(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def pick(self, xs):
        return self.draw(st.sampled_from(xs))

    def flag(self):
        return self.draw(st.booleans())


def series(g, T, S, pool, time=True, scen=True):
    """Data of a parameter, with at most the given dependencies"""
    kinds = ["const"] + (["time"] if time else []) + (["scen"] if scen else [])
    if time and scen:
        kinds += ["both", "both"]
    kind = g.pick(kinds[::-1])
    if kind == "const":
        return {"kind": kind, "values": g.pick(pool)}
    if kind == "time":
        return {"kind": kind, "values": [g.pick(pool) for _ in range(T)]}
    if kind == "scen":
        return {"kind": kind, "values": [g.pick(pool) for _ in range(S)]}
    return {"kind": kind, "values": [[g.pick(pool) for _ in range(S)] for _ in range(T)]}


def const(g, pool):
    return {"kind": "const", "values": g.pick(pool)}


SMALL = [0, 1, 2, 5, 10, 3.5]
SHARE = [1, 0.5, 0, 0.25, 0.75]


def ceil(a, b):
    return -int(-a // b)


def thermal_data(g, T, S):
    """Data consistent with one another, as the converter makes them"""
    unit = g.pick([1, 2, 5])
    units = g.int(1, 3)
    pmax = [[g.int(0, units) * unit - (0.5 if g.flag() else 0) for _ in range(S)] for _ in range(T)]
    pmax = [[max(x, 0.0) for x in r] for r in pmax]
    pmin = [[min(x, g.pick([0, 0, 0.5, 1])) for x in r] for r in pmax]
    nmax = [[ceil(x, unit) for x in r] for r in pmax]
    nmin = [[ceil(x, unit) for x in r] for r in pmin]
    both = lambda m: {"kind": "both", "values": m}
    return {
        "p_min_cluster": both(pmin),
        "p_max_cluster": both(pmax),
        "p_min_unit": const(g, [0, 0, 0.5, 1]),
        "p_max_unit": {"kind": "const", "values": unit},
        "generation_cost": const(g, SMALL),
        "startup_cost": const(g, SMALL),
        "fixed_cost": const(g, SMALL),
        "d_min_up": const(g, [1, 2, 3, 5]),
        "d_min_down": const(g, [1, 2, 3, 5]),
        "nb_units_min": both(nmin),
        "nb_units_max": both(nmax),
        "nb_units_max_variation_forward": both(
            [[max(0, nmax[t - 1][s] - nmax[t][s]) for s in range(S)] for t in range(T)]
        ),
        "nb_units_max_variation_backward": both(
            [[max(0, nmax[t][s] - nmax[t - 1][s]) for s in range(S)] for t in range(T)]
        ),
    }


def storage_data(g, T, S, name):
    d = {
        "reservoir_capacity": const(g, [10, 4, 20]),
        "injection_nominal_capacity": const(g, [5, 2, 10]),
        "withdrawal_nominal_capacity": const(g, [5, 2, 10]),
        "efficiency_injection": const(g, [1, 0.5, 0.75]),
        "efficiency_withdrawal": const(g, [1, 2, 1.25]),
        "lower_rule_curve": series(g, T, S, [0, 0, 0.125]),
        "upper_rule_curve": series(g, T, S, [1, 0.5, 0.75]),
        "p_max_injection_modulation": series(g, T, S, SHARE),
        "p_max_withdrawal_modulation": series(g, T, S, SHARE),
    }
    if name == "battery":
        d["marginal_cost"] = series(g, T, S, SMALL, scen=False)
    else:
        d["inflows"] = series(g, T, S, [0, 0, 1, -0.5])
        d["initial_level"] = const(g, [0.25, 0.5, 0.125, 0.3])
    return d


@st.composite
def historic(draw):
    g = G(draw)
    T, S = g.int(1, 5), g.int(1, 2)
    comps, conns = [], []
    areas = [f"area{i}" for i in range(g.int(1, 3))]
    H, V = "antares-historic.", "andromede-v1-models."
    for a in areas:
        comps.append(
            {
                "id": a,
                "model": H + "area",
                "node": g.flag(),
                "data": {"spillage_cost": const(g, SMALL), "ens_cost": const(g, [100, 1000, 5])},
            }
        )

    def add(name, model, data, ends):
        cid = f"{name}{len(comps)}"
        comps.append({"id": cid, "model": model, "node": False, "data": data})
        for port, a in ends:
            conns.append([cid, port, a, "balance_port"] if g.flag() else [a, "balance_port", cid, port])

    for a in areas:
        if g.int(0, 3):
            add("load", H + "load", {"load": series(g, T, S, [0, 1, 3, 5, 8])}, [("balance_port", a)])
    kinds = ["renewable", "thermal", "short-term-storage", "dsr", "battery", "electrolyser", "link"]
    for _ in range(g.int(1, 3)):
        kind = g.pick(kinds)
        a = g.pick(areas)
        if kind == "renewable":
            add(
                kind, H + kind,
                {"generation": series(g, T, S, SMALL), "unit_count": const(g, [1, 2]), CAPACITY: const(g, [3, 5])},
                [("balance_port", a)],
            )
        elif kind == "thermal":
            add(kind, H + kind, thermal_data(g, T, S), [("balance_port", a)])
        elif kind == "short-term-storage":
            add("sts", H + kind, storage_data(g, T, S, kind), [("injection_port", a)])
        elif kind == "battery":
            add(kind, V + kind, storage_data(g, T, S, kind), [("injection_port", a)])
        elif kind == "dsr":
            add(
                kind, V + kind,
                {"max_load": series(g, T, S, SMALL), "curtailment_price": const(g, SMALL)},
                [("balance_port", a)],
            )
        elif kind == "electrolyser":
            add(
                kind, V + kind,
                {"efficiency": const(g, [0.5, 0.75, 1]), "p_max": series(g, T, S, SMALL)},
                [("power_port", a), ("hydrogen_port", g.pick(areas))],
            )
        elif len(areas) > 1:
            b = g.pick([x for x in areas if x != a])
            add(
                kind, H + kind,
                {
                    "capacity_direct": series(g, T, S, [2, 0, 5, 10]),
                    "capacity_indirect": series(g, T, S, [3, 0, 1, 10]),
                },
                [("in_port", a), ("out_port", b)],
            )
    return {
        "T": T, "S": S, "comps": comps, "conns": conns,
        "directions": [g.int(1, 1000) for _ in range(3)],
        "libs": ["antares-historic", "andromede-v1-models"],
    }


CAPACITY = "p_max_unit"


@st.composite
def pypsa(draw):
    g = G(draw)
    T, S = g.int(1, 5), g.pick([1, 1, 1, 2])
    comps, conns = [], []
    L = "pypsa_models."
    buses = [f"bus{i}" for i in range(g.int(1, 3))]

    def t_(pool):
        return series(g, T, S, pool, scen=False)

    for b in buses:
        comps.append(
            {
                "id": b, "model": L + "bus", "node": g.flag(),
                "data": {
                    "v_nom": const(g, [1, 380]), "x": const(g, [0, 1]), "y": const(g, [0, 2]),
                    "v_mag_pu_set": t_([1, 1.5]), "v_mag_pu_min": const(g, [0]), "v_mag_pu_max": const(g, [1000]),
                },
            }
        )
    emitters = []

    def add(name, data, ends):
        cid = f"{name}{len(comps)}"
        comps.append({"id": cid, "model": L + name, "node": False, "data": data})
        for port, b in ends:
            conns.append(
                [cid, port, b, "p_balance_port"] if g.flag() else [b, "p_balance_port", cid, port]
            )
        return cid

    def nom(p):
        lo = g.pick([0, 0, 2, 5])
        return {
            f"{p}_nom_min": {"kind": "const", "values": lo},
            f"{p}_nom_max": {"kind": "const", "values": lo + g.pick([0, 3, 10, 100, float("inf")])},
            "capital_cost": const(g, SMALL),
        }

    for b in buses:
        if g.int(0, 3):
            add(
                "load",
                {"p_set": series(g, T, S, [0, 1, 3, 5]), "q_set": const(g, [0]), "sign": const(g, [-1, -1, -1, 1])},
                [("p_balance_port", b)],
            )
        if g.int(0, 7):  # something flexible: most systems are feasible
            emitters.append(
                add(
                    "generator",
                    {
                        "p_nom_min": const(g, [0]), "p_nom_max": const(g, [100, 1e20]),
                        "capital_cost": const(g, SMALL), "p_min_pu": const(g, [-1]), "p_max_pu": const(g, [1]),
                        "e_sum_min": const(g, [-1e20]), "e_sum_max": const(g, [1e20]), "sign": const(g, [1, -1]),
                        "marginal_cost": const(g, [20, 30]), "efficiency": t_([1, 0.5]),
                        "emission_factor": const(g, [0, 1, -1]),
                    },
                    [("p_balance_port", b)],
                )
            )
        for _ in range(g.pick([1, 0, 2])):
            emitters.append(
                add(
                    "generator",
                    {
                        **nom("p"),
                        "p_min_pu": t_([0, 0, 0, 0.25, -1]), "p_max_pu": t_([1, 1, 0.5, 0.75, 0.25]),
                        "e_sum_min": const(g, [-1e20, -1e20, 0, 2]), "e_sum_max": const(g, [1e20, 1e20, 20, 8]),
                        "sign": const(g, [1, 1, 1, -1]),
                        "marginal_cost": t_(SMALL), "efficiency": t_([1, 0.5, 0.25]),
                        "emission_factor": const(g, [0, 1, 2, 0.5]),
                    },
                    [("p_balance_port", b)],
                )
            )
    for _ in range(g.int(1, 3)):
        kind = g.pick(["link", "storage_unit", "store", "link"])
        b = g.pick(buses)
        if kind == "link":
            if len(buses) < 2:
                continue
            c = g.pick([x for x in buses if x != b])
            add(
                kind,
                {
                    **nom("p"), "efficiency": t_([1, 0.5, 0.75]), "p_min_pu": t_([0, -1, -0.5]),
                    "p_max_pu": t_([1, 0.5, 0]), "marginal_cost": t_(SMALL),
                },
                [("p0_port", b), ("p1_port", c)],
            )
        elif kind == "storage_unit":
            emitters.append(
                add(
                    kind,
                    {
                        **nom("p"), "p_min_pu": t_([-1, -0.5, -0.25, 0]), "p_max_pu": t_([1, 0.5, 0.75, 0]),
                        "sign": const(g, [1]),
                        "spill_cost": t_(SMALL), "marginal_cost": t_(SMALL), "marginal_cost_storage": t_([0, 0.5]),
                        "max_hours": const(g, [1, 2, 6, 0]), "efficiency_store": t_([1, 0.5, 0.75]),
                        "efficiency_dispatch": t_([1, 0.5, 0.25]), "standing_loss": t_([0, 0.25, 0.5]),
                        "inflow": series(g, T, S, [0, 1, 2]), "emission_factor": const(g, [0, 1]),
                    },
                    [("p_balance_port", b)],
                )
            )
        else:
            emitters.append(
                add(
                    kind,
                    {
                        **nom("e"), "e_min_pu": t_([0, 0, 0.25, -1]), "e_max_pu": t_([1, 0.5, 0.75]),
                        "sign": const(g, [1]), "marginal_cost": t_(SMALL), "marginal_cost_storage": t_([0, 0.5]),
                        "standing_loss": t_([0, 0.25, 0.5]), "emission_factor": const(g, [0, 1]),
                    },
                    [("p_balance_port", b)],
                )
            )
    for i in range(g.pick([0, 0, 1, 1, 2])):
        model = g.pick(["max", "max", "eq"])
        cid = f"co2{i}"
        comps.append(
            {
                "id": cid, "model": f"{L}global_constraint_co2_{model}", "node": False,
                "data": {"quota": const(g, [10, 50, 3])},
            }
        )
        for e in emitters:
            if g.int(0, 3):
                conns.append([cid, "emission_port", e, "emission_port"])
    return {
        "T": T, "S": S, "comps": comps, "conns": conns,
        "directions": [g.int(1, 1000) for _ in range(3)],
        "libs": ["pypsa_models"],
    }


def system_document(case, path):
    groups = {True: [], False: []}
    for c in case["comps"]:
        params = []
        for name, data in c["data"].items():
            d = {"id": name}
            if data["kind"] == "const":
                d["value"] = data["values"]
            else:
                d["time-dependent"] = data["kind"] in ("time", "both")
                d["scenario-dependent"] = data["kind"] in ("scen", "both")
                d["value"] = f"{c['id']}-{name}"
                study.write_series(path / f"{d['value']}.txt", data)
            params.append(d)
        groups[c["node"]].append({"id": c["id"], "model": c["model"], "parameters": params})
    return yaml.safe_dump(
        {
            "system": {
                "nodes": groups[True],
                "components": groups[False],
                "connections": [
                    {"component1": a, "port1": p, "component2": b, "port2": q}
                    for a, p, b, q in case["conns"]
                ],
            }
        }
    )


_libraries = {}


def libraries(names):
    key = tuple(names)
    if key not in _libraries:
        _libraries[key] = study.load_libraries(shipped.library_texts(names))
    return _libraries[key]


def run(case, note):
    from andromede.simulation import TimeBlock, build_problem

    with directory() as path:
        text = system_document(case, path)
        network, db = study.load_system(text, libraries(case["libs"]), path)
        problem = build_problem(network, db, TimeBlock(1, list(range(case["T"]))), case["S"])
    lp.compare(problem, shipped.reference(case), case["directions"], note)
    for c in case["comps"]:
        note(c["model"])


TESTS = [
    Test("antares", historic, run, 480, 12000),
    Test("pypsa", pypsa, run, 480, 12000),
]
