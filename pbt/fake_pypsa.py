"""
Stand-in for pypsa.Network (pypsa is not installed here): the tables of a
network, with the columns and defaults PyPSA gives them, and Network.add.
"""
import sys
import types
from typing import Any, Dict, List

INF = float("inf")
# class: (list name, {attribute: default}, attributes that may be series)
CLASSES: Dict[str, Any] = {
    "Bus": (
        "buses",
        dict(v_nom=1.0, type="", x=0.0, y=0.0, carrier="AC", unit="", v_mag_pu_set=1.0,
             v_mag_pu_min=0.0, v_mag_pu_max=INF, control="PQ"),
        ["v_mag_pu_set", "p", "q", "marginal_price"],
    ),
    "Carrier": (
        "carriers",
        dict(co2_emissions=0.0, color="", nice_name="", max_growth=INF, max_relative_growth=0.0),
        [],
    ),
    "Load": (
        "loads",
        dict(bus="", carrier="", type="", p_set=0.0, q_set=0.0, sign=-1.0, active=True),
        ["p_set", "q_set", "p", "q"],
    ),
    "Generator": (
        "generators",
        dict(bus="", control="PQ", type="", p_nom=0.0, p_nom_mod=0.0, p_nom_extendable=False, p_nom_min=0.0,
             p_nom_max=INF, p_min_pu=0.0, p_max_pu=1.0, p_set=0.0, e_sum_min=-INF, e_sum_max=INF, q_set=0.0,
             sign=1.0, carrier="", marginal_cost=0.0, marginal_cost_quadratic=0.0, active=True, build_year=0,
             lifetime=INF, capital_cost=0.0, efficiency=1.0, committable=False, start_up_cost=0.0),
        ["p_min_pu", "p_max_pu", "p_set", "q_set", "marginal_cost", "marginal_cost_quadratic", "efficiency", "p"],
    ),
    "Link": (
        "links",
        dict(bus0="", bus1="", type="", carrier="", efficiency=1.0, active=True, p_nom=0.0, p_nom_mod=0.0,
             p_nom_extendable=False, p_nom_min=0.0, p_nom_max=INF, p_set=0.0, p_min_pu=0.0, p_max_pu=1.0,
             capital_cost=0.0, marginal_cost=0.0, marginal_cost_quadratic=0.0, length=0.0, committable=False),
        ["efficiency", "p_set", "p_min_pu", "p_max_pu", "marginal_cost", "p0", "p1"],
    ),
    "Line": (
        "lines",
        dict(bus0="", bus1="", type="", x=0.0, r=0.0, g=0.0, b=0.0, s_nom=0.0, s_nom_extendable=False,
             s_max_pu=1.0, capital_cost=0.0, active=True, carrier="", length=0.0),
        ["s_max_pu", "p0", "p1"],
    ),
    "Transformer": (
        "transformers",
        dict(bus0="", bus1="", type="", x=0.0, r=0.0, s_nom=0.0, s_nom_extendable=False, s_max_pu=1.0,
             capital_cost=0.0, active=True, tap_ratio=1.0),
        ["s_max_pu", "p0", "p1"],
    ),
    "StorageUnit": (
        "storage_units",
        dict(bus="", control="PQ", type="", p_nom=0.0, p_nom_mod=0.0, p_nom_extendable=False, p_nom_min=0.0,
             p_nom_max=INF, p_min_pu=-1.0, p_max_pu=1.0, p_set=0.0, q_set=0.0, sign=1.0, carrier="",
             spill_cost=0.0, marginal_cost=0.0, marginal_cost_quadratic=0.0, marginal_cost_storage=0.0,
             capital_cost=0.0, active=True, state_of_charge_initial=0.0, cyclic_state_of_charge=False,
             max_hours=1.0, efficiency_store=1.0, efficiency_dispatch=1.0, standing_loss=0.0, inflow=0.0),
        ["p_min_pu", "p_max_pu", "p_set", "spill_cost", "marginal_cost", "marginal_cost_storage",
         "efficiency_store", "efficiency_dispatch", "standing_loss", "inflow", "p"],
    ),
    "Store": (
        "stores",
        dict(bus="", type="", carrier="", e_nom=0.0, e_nom_mod=0.0, e_nom_extendable=False, e_nom_min=0.0,
             e_nom_max=INF, e_min_pu=0.0, e_max_pu=1.0, e_initial=0.0, e_cyclic=False, p_set=0.0, q_set=0.0,
             sign=1.0, marginal_cost=0.0, marginal_cost_quadratic=0.0, marginal_cost_storage=0.0,
             capital_cost=0.0, standing_loss=0.0, active=True),
        ["e_min_pu", "e_max_pu", "p_set", "marginal_cost", "marginal_cost_storage", "standing_loss", "p", "e"],
    ),
    "GlobalConstraint": (
        "global_constraints",
        dict(type="primary_energy", investment_period=float("nan"), carrier_attribute="co2_emissions",
             sense="", constant=0.0),
        [],
    ),
}


class Network:
    def __init__(self, name: str = "", snapshots: Any = 1) -> None:
        import pandas as pd

        self.name = name
        self.snapshots = pd.Index(range(snapshots), name="snapshot")
        self.investment_periods = pd.Index([], name="period")
        self.snapshot_weightings = pd.DataFrame(
            1.0, index=self.snapshots, columns=["objective", "stores", "generators"]
        )
        for table, attributes, varying in CLASSES.values():
            frame = pd.DataFrame({k: pd.Series([], dtype=_dtype(v)) for k, v in attributes.items()})
            frame.index = pd.Index([], dtype=object)
            setattr(self, table, frame)
            setattr(
                self,
                table + "_t",
                {v: pd.DataFrame(index=self.snapshots, columns=pd.Index([], dtype=object)) for v in varying},
            )

    def add(self, cls: str, name: str, **kw: Any) -> None:
        import pandas as pd

        table, attributes, varying = CLASSES[cls]
        frame = getattr(self, table)
        if name in frame.index:
            raise ValueError(f"{cls} {name} already there")
        row = dict(attributes)
        series: Dict[str, List[float]] = {}
        for k, v in kw.items():
            if k not in attributes:
                raise ValueError(f"{cls} has no attribute {k}")
            if isinstance(v, list):
                assert k in varying
                series[k] = v
            else:
                row[k] = v
        new = pd.DataFrame({k: pd.Series([v], index=[name], dtype=_dtype(attributes[k])) for k, v in row.items()})
        for c in frame.columns:
            if c not in new.columns:
                new[c] = ""
        setattr(self, table, new if frame.empty else pd.concat([frame, new[frame.columns]]))
        for k, v in series.items():
            t = getattr(self, table + "_t")
            old = t[k]
            t[k] = pd.DataFrame({**{c: old[c] for c in old.columns}, name: [float(x) for x in v]}, index=self.snapshots)


def _dtype(default: Any) -> Any:
    if isinstance(default, bool):
        return bool
    if isinstance(default, str):
        return object
    return type(default)


def install() -> None:
    try:
        import pypsa  # noqa: F401
    except ImportError:
        module = types.ModuleType("pypsa")
        module.Network = Network  # type: ignore
        sys.modules["pypsa"] = module
