"""
Systems made of the models of the shipped libraries: generation, files, and an
independent formulation of every model.

case = {"T", "S", "comps": [{"id", "model": "lib.model", "node", "data": {p: data}}],
        "conns": [[c, port, c, port]]}
"""
import os
from typing import Any, Callable, Dict, List, Tuple

from .lp import INF, Lin, Problem, lin
from .runner import REPO_SRC
from .study import data_value

LIBS = {
    "antares-historic": "antares_historic/antares_historic.yml",
    "andromede-v1-models": "reference_models/andromede_v1_models.yml",
    "pypsa_models": "pypsa_models/pypsa_models.yml",
}


def library_texts(names: List[str]) -> List[str]:
    out = []
    for n in names:
        with open(os.path.join(REPO_SRC, "andromede/libs", LIBS[n])) as f:
            out.append(f.read())
    return out


class Component:
    def __init__(self, p: Problem, case: Dict[str, Any], c: Dict[str, Any]) -> None:
        self.p, self.case, self.c = p, case, c
        self.T, self.S = case["T"], case["S"]
        self.steps = range(self.T)
        self.scens = range(self.S)
        self.all = [(t, s) for t in self.steps for s in self.scens]
        self.ports: Dict[Tuple[str, str], Callable[[int, int], Lin]] = {}

    def par(self, name: str, t: int = 0, s: int = 0) -> float:
        return data_value(self.c["data"][name], t % self.T, s)

    def var(self, name: str, lb: Any = None, ub: Any = None, integer: bool = False) -> Any:
        """Variable of every time step and scenario"""
        made = {}
        for t, s in self.all:
            made[t, s] = self.p.var(
                (self.c["id"], name, t, s),
                -INF if lb is None else lb(t, s),
                INF if ub is None else ub(t, s),
                integer,
            )
        return lambda t, s: made[t % self.T, s]

    def once(self, name: str, lb: float, ub: float) -> Lin:
        return self.p.var((self.c["id"], name, None, None), lb, ub)

    def mean(self, e: Callable[[int, int], Any]) -> None:
        """Adds the expected value over scenarios of the sum over time"""
        for t, s in self.all:
            self.p.cost = self.p.cost + lin(e(t, s)) / self.S


def zero(t: int, s: int) -> float:
    return 0.0


# ------------------------------------------------------------ Antares historic


def area(k: Component, flows: Callable) -> None:
    spill = k.var("spillage", zero)
    ens = k.var("unsupplied_energy", zero)
    for t, s in k.all:
        k.p.eq(flows("balance_port", "flow", t, s), spill(t, s) - ens(t, s))
    k.mean(lambda t, s: k.par("spillage_cost") * spill(t, s) + k.par("ens_cost") * ens(t, s))


def load(k: Component, flows: Callable) -> None:
    k.ports["balance_port", "flow"] = lambda t, s: lin(-k.par("load", t, s))


def fixed(name: str) -> Callable:
    def renewable(k: Component, flows: Callable) -> None:
        k.ports["balance_port", "flow"] = lambda t, s: lin(k.par(name, t, s))

    return renewable


def link(k: Component, flows: Callable) -> None:
    direct = k.var("flow_direct", zero, lambda t, s: k.par("capacity_direct", t, s))
    indirect = k.var("flow_indirect", zero, lambda t, s: k.par("capacity_indirect", t, s))
    flow = k.var("flow")
    for t, s in k.all:
        k.p.eq(flow(t, s), direct(t, s) - indirect(t, s))
    k.ports["in_port", "flow"] = lambda t, s: -flow(t, s)
    k.ports["out_port", "flow"] = lambda t, s: flow(t, s)


def thermal(k: Component, flows: Callable) -> None:
    gen = k.var(
        "generation",
        lambda t, s: k.par("p_min_cluster", t, s),
        lambda t, s: k.par("p_max_cluster", t, s),
    )
    on = k.var(
        "nb_units_on",
        lambda t, s: k.par("nb_units_min", t, s),
        lambda t, s: k.par("nb_units_max", t, s),
        True,
    )
    start = k.var("nb_starting", zero, lambda t, s: k.par("nb_units_max", t, s), True)
    stop = k.var("nb_stopping", zero, None, True)
    fail = k.var("nb_failing", zero)
    up, down = int(k.par("d_min_up")), int(k.par("d_min_down"))
    for t, s in k.all:
        k.p.leq(gen(t, s), k.par("p_max_unit") * on(t, s))
        k.p.leq(k.par("p_min_unit") * on(t, s), gen(t, s))
        k.p.eq(on(t, s) - on(t - 1, s), start(t, s) - stop(t, s))
        k.p.leq(fail(t, s), stop(t, s))
        k.p.leq(fail(t, s), k.par("nb_units_max_variation_forward", t, s))
        started = lin(0)
        for h in range(up):
            started = started + start(t - h, s) - fail(t - h, s)
        k.p.leq(started, on(t, s))
        stopped = lin(0)
        back = 0.0
        for h in range(down):
            stopped = stopped + stop(t - h, s)
            back += k.par("nb_units_max_variation_backward", t - h, s)
        k.p.leq(stopped, k.par("nb_units_max", t - down, s) - on(t, s) + back)
    k.mean(
        lambda t, s: k.par("generation_cost") * gen(t, s)
        + k.par("startup_cost") * start(t, s)
        + k.par("fixed_cost") * on(t, s)
    )
    k.ports["balance_port", "flow"] = lambda t, s: gen(t, s)


def reservoir(k: Component) -> Any:
    cap = k.par("reservoir_capacity")
    inj = k.var(
        "p_injection",
        zero,
        lambda t, s: k.par("p_max_injection_modulation", t, s) * k.par("injection_nominal_capacity"),
    )
    out = k.var(
        "p_withdrawal",
        zero,
        lambda t, s: k.par("p_max_withdrawal_modulation", t, s) * k.par("withdrawal_nominal_capacity"),
    )
    level = k.var(
        "level",
        lambda t, s: k.par("lower_rule_curve", t, s) * cap,
        lambda t, s: k.par("upper_rule_curve", t, s) * cap,
    )
    inflow = "inflows" in k.c["data"]
    for t, s in k.all:
        change = (
            k.par("efficiency_injection") * inj(t, s) - k.par("efficiency_withdrawal") * out(t, s)
        )
        if inflow:
            change = change + k.par("inflows", t, s)
        k.p.eq(level(t + 1, s) - level(t, s), change)
    k.ports["injection_port", "flow"] = lambda t, s: out(t, s) - inj(t, s)
    return inj, level


def storage(k: Component, flows: Callable) -> None:
    _, level = reservoir(k)
    for s in k.scens:
        k.p.eq(level(0, s), k.par("initial_level") * k.par("reservoir_capacity"))


def battery(k: Component, flows: Callable) -> None:
    inj, _ = reservoir(k)
    k.mean(lambda t, s: k.par("marginal_cost", t, s) * inj(t, s))


def dsr(k: Component, flows: Callable) -> None:
    cut = k.var("curtailment", zero, lambda t, s: k.par("max_load", t, s))
    k.mean(lambda t, s: k.par("curtailment_price") * cut(t, s))
    k.ports["balance_port", "flow"] = lambda t, s: cut(t, s) - k.par("max_load", t, s)


def electrolyser(k: Component, flows: Callable) -> None:
    power = k.var("power", zero, lambda t, s: k.par("p_max", t, s))
    k.ports["power_port", "flow"] = lambda t, s: -power(t, s)
    k.ports["hydrogen_port", "flow"] = lambda t, s: k.par("efficiency") * power(t, s)


# ---------------------------------------------------------------------- PyPSA


def bus(k: Component, flows: Callable) -> None:
    for t, s in k.all:
        k.p.eq(flows("p_balance_port", "flow", t, s), 0.0)
        k.p.eq(flows("q_balance_port", "flow", t, s), 0.0)


def pypsa_load(k: Component, flows: Callable) -> None:
    for x in "pq":
        k.ports[f"{x}_balance_port", "flow"] = lambda t, s, x=x: lin(
            k.par("sign") * k.par(f"{x}_set", t, s)
        )


def generator(k: Component, flows: Callable) -> None:
    nom = k.once("p_nom", k.par("p_nom_min"), k.par("p_nom_max"))
    p = k.var("p")
    for t, s in k.all:
        k.p.leq(k.par("p_min_pu", t, s) * nom, p(t, s))
        k.p.leq(p(t, s), k.par("p_max_pu", t, s) * nom)
    for s in k.scens:
        total = lin(0)
        for t in k.steps:
            total = total + p(t, s)
        k.p.leq(k.par("e_sum_min"), total)
        k.p.leq(total, k.par("e_sum_max"))
    k.mean(lambda t, s: k.par("marginal_cost", t, s) * p(t, s))
    k.p.cost = k.p.cost + k.par("capital_cost") * nom
    k.ports["p_balance_port", "flow"] = lambda t, s: k.par("sign") * p(t, s)
    k.ports["emission_port", "emission"] = lambda t, s: p(t, s) * (
        k.par("emission_factor") / k.par("efficiency", t, s)
    )


def pypsa_link(k: Component, flows: Callable) -> None:
    nom = k.once("p_nom", k.par("p_nom_min"), k.par("p_nom_max"))
    p = k.var("p0")
    for t, s in k.all:
        k.p.leq(k.par("p_min_pu", t, s) * nom, p(t, s))
        k.p.leq(p(t, s), k.par("p_max_pu", t, s) * nom)
    k.mean(lambda t, s: k.par("marginal_cost", t, s) * p(t, s))
    k.p.cost = k.p.cost + k.par("capital_cost") * nom
    k.ports["p0_port", "flow"] = lambda t, s: -p(t, s)
    k.ports["p1_port", "flow"] = lambda t, s: k.par("efficiency", t, s) * p(t, s)


def storage_unit(k: Component, flows: Callable) -> None:
    nom = k.once("p_nom", k.par("p_nom_min"), k.par("p_nom_max"))
    store = k.var("p_store", zero)
    dispatch = k.var("p_dispatch", zero)
    soc = k.var("state_of_charge", zero)
    spill = k.var("spill", zero)
    for t, s in k.all:
        k.p.leq(store(t, s), -k.par("p_min_pu", t, s) * nom)
        k.p.leq(dispatch(t, s), k.par("p_max_pu", t, s) * nom)
        k.p.leq(soc(t, s), k.par("max_hours") * nom)
        k.p.eq(
            soc(t, s),
            (1 - k.par("standing_loss", t, s)) * soc(t - 1, s)
            + k.par("efficiency_store", t, s) * store(t, s)
            - dispatch(t, s) / k.par("efficiency_dispatch", t, s)
            + k.par("inflow", t, s)
            - spill(t, s),
        )
    k.mean(
        lambda t, s: k.par("marginal_cost", t, s) * dispatch(t, s)
        + k.par("spill_cost", t, s) * spill(t, s)
        + k.par("marginal_cost_storage", t, s) * soc(t, s)
    )
    k.p.cost = k.p.cost + k.par("capital_cost") * nom
    k.ports["p_balance_port", "flow"] = lambda t, s: dispatch(t, s) - store(t, s)
    k.ports["emission_port", "emission"] = lambda t, s: lin(0)


def pypsa_store(k: Component, flows: Callable) -> None:
    nom = k.once("e_nom", k.par("e_nom_min"), k.par("e_nom_max"))
    e = k.var("e")
    p = k.var("p")
    for t, s in k.all:
        k.p.leq(e(t, s), k.par("e_max_pu", t, s) * nom)
        k.p.leq(k.par("e_min_pu", t, s) * nom, e(t, s))
        k.p.eq(e(t, s), (1 - k.par("standing_loss", t, s)) * e(t - 1, s) - p(t, s))
    k.mean(
        lambda t, s: k.par("marginal_cost", t, s) * p(t, s)
        + k.par("marginal_cost_storage", t, s) * e(t, s)
    )
    k.p.cost = k.p.cost + k.par("capital_cost") * nom
    k.ports["p_balance_port", "flow"] = lambda t, s: p(t, s)
    k.ports["emission_port", "emission"] = lambda t, s: lin(0)


def co2(equal: bool) -> Callable:
    def quota(k: Component, flows: Callable) -> None:
        for s in k.scens:
            total = lin(0)
            for t in k.steps:
                total = total + flows("emission_port", "emission", t, s)
            (k.p.eq if equal else k.p.leq)(total, k.par("quota"))

    return quota


MODELS: Dict[str, Callable] = {
    "antares-historic.area": area,
    "antares-historic.load": load,
    "antares-historic.link": link,
    "antares-historic.renewable": fixed("generation"),
    "antares-historic.thermal": thermal,
    "antares-historic.short-term-storage": storage,
    "andromede-v1-models.dsr": dsr,
    "andromede-v1-models.electrolyser": electrolyser,
    "andromede-v1-models.battery": battery,
    "pypsa_models.bus": bus,
    "pypsa_models.load": pypsa_load,
    "pypsa_models.generator": generator,
    "pypsa_models.link": pypsa_link,
    "pypsa_models.storage_unit": storage_unit,
    "pypsa_models.store": pypsa_store,
    "pypsa_models.global_constraint_co2_max": co2(False),
    "pypsa_models.global_constraint_co2_eq": co2(True),
}
# models that only collect what others bring to their ports
COLLECT = {"area", "bus", "global_constraint_co2_max", "global_constraint_co2_eq"}


def reference(case: Dict[str, Any]) -> Problem:
    p = Problem()
    made = {c["id"]: Component(p, case, c) for c in case["comps"]}

    def collected(cid: str) -> Callable:
        def flows(port: str, field: str, t: int, s: int) -> Lin:
            total = lin(0)
            for a, pa, b, pb in case["conns"]:
                for x, px, y, py in ((a, pa, b, pb), (b, pb, a, pa)):
                    if (x, px) == (cid, port):
                        total = total + made[y].ports[py, field](t, s)
            return total

        return flows

    order = sorted(case["comps"], key=lambda c: c["model"].split(".")[1] in COLLECT)
    for c in order:
        MODELS[c["model"]](made[c["id"]], collected(c["id"]))
    return p
