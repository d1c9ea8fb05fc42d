"""
Study specifications (JSON), the independent reference meaning of a study as a
linear problem, the two ways of handing a study to the code under test (Python
API, YAML files), and the comparison of the problems.

spec = {
 "port_types": [{"id", "fields": [..]}],
 "models": [{"id",
     "params": [{"name","time","scen","role"}],
     "vars":   [{"name","time","scen","type","lb","ub","ctx"}],
     "ports":  [{"name","type"}],
     "defs":   [{"port","field","expr"}],
     "cons":   [{"name","binding","ctx", "cmp": [op,l,r]}
                | {"name","binding","ctx","expr","lb","ub"}],
     "obj": ast|None, "inv": ast|None}],
 "comps": [{"id","model","node","data": {param: data}}],
 "conns": [[comp, port, comp, port]],
 "timesteps": [..], "scenarios": n
}
data = {"kind": "const"|"time"|"scen"|"both", "values": v | [t] | [s] | [[s] per t],
        "map": {year: column} (optional scenarization)}
"""
import math
import os
from typing import Any, Dict, List, Optional, Tuple

from .asts import Ast, as_int, to_expr, to_text
from .runner import Violation

INF = float("inf")
Lin = Tuple[Dict[Tuple, float], float]


# --------------------------------------------------------------- reference


def data_value(data: Dict[str, Any], abs_t: Optional[int], s: Optional[int]) -> float:
    kind, v = data["kind"], data["values"]
    if kind == "const":
        return float(v)
    if kind == "time":
        return float(v[abs_t])
    col = s
    if data.get("map") is not None:
        col = data["map"][str(s)] if str(s) in data["map"] else data["map"][s]
    if kind == "scen":
        return float(v[col])
    return float(v[abs_t][col])


class Ref:
    """Direct interpretation of a study."""

    def __init__(
        self,
        spec: Dict[str, Any],
        timesteps: Optional[List[int]] = None,
        scenarios: Optional[int] = None,
    ) -> None:
        self.spec = spec
        self.timesteps = spec["timesteps"] if timesteps is None else timesteps
        self.T = len(self.timesteps)
        self.S = spec["scenarios"] if scenarios is None else scenarios
        self.models = {m["id"]: m for m in spec["models"]}
        self.comps = {c["id"]: c for c in spec["comps"]}
        self.types = {p["id"]: p for p in spec["port_types"]}
        self.vars = {
            m["id"]: {v["name"]: v for v in m["vars"]} for m in spec["models"]
        }
        self.params = {
            m["id"]: {p["name"]: p for p in m["params"]} for m in spec["models"]
        }
        self.defs = {
            m["id"]: {(d["port"], d["field"]): d["expr"] for d in m["defs"]}
            for m in spec["models"]
        }

    def model_of(self, comp: str) -> Dict[str, Any]:
        return self.models[self.comps[comp]["model"]]

    def ends(self, comp: str, port: str, field: str) -> List[Tuple[str, Ast]]:
        """Definitions of a port field brought by the connections of a port."""
        out = []
        for c1, p1, c2, p2 in self.spec["conns"]:
            for a, pa, b, pb in ((c1, p1, c2, p2), (c2, p2, c1, p1)):
                if (a, pa) == (comp, port):
                    own = self.defs[self.comps[a]["model"]].get((pa, field))
                    other = self.defs[self.comps[b]["model"]].get((pb, field))
                    assert (own is None) != (other is None)
                    out.append((a, own) if own is not None else (b, other))
        return out

    def par(self, comp: str, name: str, t: Optional[int], s: Optional[int]) -> float:
        data = self.comps[comp]["data"][name]
        return data_value(
            data, None if t is None else self.timesteps[t % self.T], s
        )

    def lin(self, e: Ast, comp: str, t: int, s: int) -> Lin:
        op = e[0]
        if op == "lit":
            return {}, float(e[1])
        if op == "par":
            p = self.params[self.comps[comp]["model"]][e[1]]
            return {}, self.par(
                comp, e[1], t if p["time"] else None, s if p["scen"] else None
            )
        if op == "var":
            v = self.vars[self.comps[comp]["model"]][e[1]]
            key = (
                comp,
                e[1],
                t % self.T if v["time"] else None,
                s if v["scen"] else None,
            )
            return {key: 1.0}, 0.0
        if op in ("field", "sumc"):
            ends = self.ends(comp, e[1], e[2])
            if op == "field":
                assert len(ends) == 1
            return add_all([self.lin(d, c, t, s) for c, d in ends])
        if op == "neg":
            return scale(self.lin(e[1], comp, t, s), -1.0)
        if op == "add":
            return add_all([self.lin(e[1], comp, t, s), self.lin(e[2], comp, t, s)])
        if op == "sub":
            return add_all(
                [self.lin(e[1], comp, t, s), scale(self.lin(e[2], comp, t, s), -1.0)]
            )
        if op == "mul":
            a, b = self.lin(e[1], comp, t, s), self.lin(e[2], comp, t, s)
            if not a[0]:
                return scale(b, a[1])
            assert not b[0]
            return scale(a, b[1])
        if op == "div":
            a, b = self.lin(e[1], comp, t, s), self.lin(e[2], comp, t, s)
            assert not b[0] and b[1] != 0
            return {k: v / b[1] for k, v in a[0].items()}, a[1] / b[1]
        if op == "shift":
            return self.lin(e[1], comp, t + self.bound(e[2], comp), s)
        if op == "eval":
            return self.lin(e[1], comp, self.bound(e[2], comp), s)
        if op == "tsum":
            a, b = self.bound(e[2], comp), self.bound(e[3], comp)
            return add_all(
                [self.lin(e[1], comp, t + k, s) for k in range(a, b + 1)]
            )
        if op == "allsum":
            return add_all([self.lin(e[1], comp, k, s) for k in range(self.T)])
        if op == "expec":
            return scale(
                add_all([self.lin(e[1], comp, t, k) for k in range(self.S)]),
                1.0 / self.S,
            )
        raise KeyError(op)

    def bound(self, e: Ast, comp: str) -> int:
        terms, const = self.lin(e, comp, 0, 0)
        assert not terms
        return as_int(const)

    def indexing(self, e: Ast, comp: str) -> Tuple[bool, bool]:
        op = e[0]
        if op == "lit":
            return False, False
        if op == "par":
            p = self.params[self.comps[comp]["model"]][e[1]]
            return p["time"], p["scen"]
        if op == "var":
            v = self.vars[self.comps[comp]["model"]][e[1]]
            return v["time"], v["scen"]
        if op in ("field", "sumc"):
            got = [self.indexing(d, c) for c, d in self.ends(comp, e[1], e[2])]
            return any(g[0] for g in got), any(g[1] for g in got)
        if op in ("neg", "shift", "tsum"):
            return self.indexing(e[1], comp)
        if op in ("eval", "allsum"):
            return False, self.indexing(e[1], comp)[1]
        if op == "expec":
            return self.indexing(e[1], comp)[0], False
        a, b = self.indexing(e[1], comp), self.indexing(e[2], comp)
        return a[0] or b[0], a[1] or b[1]

    # ---- problem

    def variables(self, keep=lambda ctx: True) -> Dict[Tuple, Tuple]:
        out = {}
        for c in self.spec["comps"]:
            for v in self.model_of(c["id"])["vars"]:
                if not keep(v.get("ctx", "operational")):
                    continue
                for t in range(self.T) if v["time"] else [None]:
                    for s in range(self.S) if v["scen"] else [None]:
                        lb, ub = -INF, INF
                        if v["lb"] is not None:
                            lb = self.lin(v["lb"], c["id"], t or 0, s or 0)[1]
                        if v["ub"] is not None:
                            ub = self.lin(v["ub"], c["id"], t or 0, s or 0)[1]
                        inconsistent = lb > ub
                        if v["type"] == "boolean":
                            lb, ub = max(lb, 0.0), min(ub, 1.0)
                        out[(c["id"], v["name"], t, s)] = (
                            lb,
                            ub,
                            v["type"] != "continuous",
                            inconsistent,
                        )
        return out

    def rows(self, keep=lambda ctx: True) -> List[Tuple[Dict, float, float, str]]:
        out = []
        for c in self.spec["comps"]:
            for con in self.model_of(c["id"])["cons"]:
                if not keep(con.get("ctx", "operational")):
                    continue
                if "cmp" in con:
                    op, left, right = con["cmp"]
                    expr: Ast = ["sub", left, right]
                    lb_e: Ast = ["lit", 0.0]
                    ub_e: Ast = ["lit", 0.0]
                    if op == "<=":
                        lb_e = ["lit", -INF]
                    elif op == ">=":
                        ub_e = ["lit", INF]
                else:
                    expr = con["expr"]
                    lb_e = con["lb"] if con["lb"] is not None else ["lit", -INF]
                    ub_e = con["ub"] if con["ub"] is not None else ["lit", INF]
                idx = [self.indexing(x, c["id"]) for x in (expr, lb_e, ub_e)]
                time = any(i[0] for i in idx)
                scen = any(i[1] for i in idx)
                for t in range(self.T) if time else [0]:
                    for s in range(self.S) if scen else [0]:
                        terms, const = self.lin(expr, c["id"], t, s)
                        lb = self.lin(lb_e, c["id"], t, s)[1]
                        ub = self.lin(ub_e, c["id"], t, s)[1]
                        out.append(
                            (
                                terms,
                                lb - const,
                                ub - const,
                                f"{c['id']}.{con['name']} t={t} s={s}",
                            )
                        )
        return out

    def objective(
        self, which: Tuple[str, ...] = ("obj", "inv"), factor: float = 1.0
    ) -> Lin:
        parts = []
        for c in self.spec["comps"]:
            for name in which:
                e = self.model_of(c["id"]).get(name)
                if e is not None:
                    parts.append(scale(self.lin(e, c["id"], 0, 0), factor))
        return add_all(parts)


def scale(x: Lin, k: float) -> Lin:
    return {key: v * k for key, v in x[0].items()}, x[1] * k


def add_all(xs: List[Lin]) -> Lin:
    terms: Dict[Tuple, float] = {}
    const = 0.0
    for t, c in xs:
        const += c
        for k, v in t.items():
            terms[k] = terms.get(k, 0.0) + v
    return terms, const


# ------------------------------------------------- building with Python API


def build_data(data: Dict[str, Any]) -> Any:
    import pandas as pd

    from andromede.study.data import (
        ConstantData,
        Scenarization,
        ScenarioIndex,
        ScenarioSeriesData,
        TimeIndex,
        TimeScenarioSeriesData,
        TimeSeriesData,
    )

    kind, v = data["kind"], data["values"]
    scenarization = None
    if data.get("map") is not None:
        scenarization = Scenarization({int(k): c for k, c in data["map"].items()})
    if kind == "const":
        return ConstantData(v)
    if kind == "time":
        return TimeSeriesData({TimeIndex(i): x for i, x in enumerate(v)})
    if kind == "scen":
        return ScenarioSeriesData(
            {ScenarioIndex(i): x for i, x in enumerate(v)}, scenarization
        )
    return TimeScenarioSeriesData(pd.DataFrame(v), scenarization)


def context(name: Optional[str]) -> Any:
    from andromede.model import ProblemContext

    return {
        None: ProblemContext.OPERATIONAL,
        "operational": ProblemContext.OPERATIONAL,
        "investment": ProblemContext.INVESTMENT,
        "coupling": ProblemContext.COUPLING,
    }[name]


def opt(e: Optional[Ast]) -> Any:
    return None if e is None else to_expr(e)


def build_models(spec: Dict[str, Any]) -> Dict[str, Any]:
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.model import (
        Constraint,
        ModelPort,
        PortField,
        PortType,
        model,
    )
    from andromede.model.common import ValueType
    from andromede.model.parameter import Parameter, float_parameter
    from andromede.model.port import port_field_def
    from andromede.model.variable import Variable, bool_var, float_variable, int_variable

    def variable(v: Dict[str, Any]) -> Any:
        structure = IndexingStructure(v["time"], v["scen"])
        ctx = context(v.get("ctx"))
        if spec.get("helpers"):
            # both dependencies and the operational context are the default
            args = {} if v["time"] and v["scen"] else {"structure": structure}
            if v.get("ctx", "operational") != "operational":
                args["context"] = ctx
            if v["type"] == "boolean" and v["lb"] is None and v["ub"] is None:
                return bool_var(v["name"], **args)
            if v["type"] != "boolean":
                make = int_variable if v["type"] == "integer" else float_variable
                if v["lb"] is not None:
                    args["lower_bound"] = to_expr(v["lb"])
                if v["ub"] is not None:
                    args["upper_bound"] = to_expr(v["ub"])
                return make(v["name"], **args)
        return Variable(v["name"], vtype[v["type"]], opt(v["lb"]), opt(v["ub"]), structure, ctx)

    types = {
        p["id"]: PortType(id=p.get("named", p["id"]), fields=[PortField(f) for f in p["fields"]])
        for p in spec["port_types"]
    }
    vtype = {
        "continuous": ValueType.CONTINUOUS,
        "integer": ValueType.INTEGER,
        "boolean": ValueType.BOOLEAN,
    }
    out = {}
    for m in spec["models"]:
        cons: Dict[bool, List[Any]] = {True: [], False: []}
        for c in m["cons"]:
            if "cmp" in c:
                obj = Constraint(
                    name=c["name"],
                    expression=to_expr(["cmp", *c["cmp"]]),
                    context=context(c.get("ctx")),
                )
            else:
                kwargs = {}
                if c["lb"] is not None:
                    kwargs["lower_bound"] = to_expr(c["lb"])
                if c["ub"] is not None:
                    kwargs["upper_bound"] = to_expr(c["ub"])
                obj = Constraint(
                    name=c["name"],
                    expression=to_expr(c["expr"]),
                    context=context(c.get("ctx")),
                    **kwargs,
                )
            cons[c["binding"]].append(obj)
        out[m["id"]] = model(
            id=m["id"],
            parameters=[
                float_parameter(
                    p["name"],
                    *([] if p["time"] and p["scen"] else [IndexingStructure(p["time"], p["scen"])]),
                )
                if spec.get("helpers")
                else Parameter(
                    p["name"],
                    ValueType.CONTINUOUS,
                    IndexingStructure(p["time"], p["scen"]),
                )
                for p in m["params"]
            ],
            variables=[variable(v) for v in m["vars"]],
            ports=[
                ModelPort(port_type=types[p["type"]], port_name=p["name"])
                for p in m["ports"]
            ],
            port_fields_definitions=[
                port_field_def(d["port"], d["field"], to_expr(d["expr"]))
                for d in m["defs"]
            ],
            constraints=cons[False],
            binding_constraints=cons[True],
            objective_operational_contribution=opt(m.get("obj")),
            objective_investment_contribution=opt(m.get("inv")),
        )
    return out


def build_network_api(
    spec: Dict[str, Any], models: Optional[Dict[str, Any]] = None
) -> Any:
    from andromede.study import Network, Node, PortRef, create_component

    if models is None:
        models = build_models(spec)
    network = Network("study")
    objs = {}
    for c in spec["comps"]:
        if c["node"]:
            objs[c["id"]] = Node(model=models[c["model"]], id=c["id"])
            network.add_node(objs[c["id"]])
        else:
            objs[c["id"]] = create_component(model=models[c["model"]], id=c["id"])
            network.add_component(objs[c["id"]])
    for c1, p1, c2, p2 in spec["conns"]:
        network.connect(PortRef(objs[c1], p1), PortRef(objs[c2], p2))
    return network


def build_database_api(spec: Dict[str, Any]) -> Any:
    from andromede.study import DataBase

    db = DataBase()
    for c in spec["comps"]:
        for name, data in c["data"].items():
            db.add_data(c["id"], name, build_data(data))
    return db


def build_api(spec: Dict[str, Any]) -> Tuple[Any, Any]:
    return build_network_api(spec), build_database_api(spec)


def solve_problem_api(spec: Dict[str, Any], **kwargs: Any) -> Any:
    from andromede.simulation import TimeBlock, build_problem

    network, db = build_api(spec)
    return build_problem(
        network, db, TimeBlock(1, list(spec["timesteps"])), spec["scenarios"], **kwargs
    )


# -------------------------------------------------- building with YAML files


def yaml_documents(
    spec: Dict[str, Any], directory: str, lib_id: str = "lib", full: bool = False
) -> Tuple[str, str]:
    """Writes the series files, returns (library text, system text)."""
    import yaml

    def txt(e: Optional[Ast]) -> Optional[str]:
        return None if e is None else to_text(e, full)

    vt = {"continuous": "continuous", "integer": "integer", "boolean": "binary"}
    models = []
    for m in spec["models"]:
        entry: Dict[str, Any] = {"id": m["id"]}
        entry["parameters"] = [
            {
                "id": p["name"],
                "time-dependent": p["time"],
                "scenario-dependent": p["scen"],
            }
            for p in m["params"]
        ]
        entry["variables"] = []
        for v in m["vars"]:
            d = {
                "id": v["name"],
                "time-dependent": v["time"],
                "scenario-dependent": v["scen"],
                "variable-type": vt[v["type"]],
            }
            if v["lb"] is not None:
                d["lower-bound"] = txt(v["lb"])
            if v["ub"] is not None:
                d["upper-bound"] = txt(v["ub"])
            entry["variables"].append(d)
        entry["ports"] = [{"id": p["name"], "type": p["type"]} for p in m["ports"]]
        entry["port-field-definitions"] = [
            {"port": d["port"], "field": d["field"], "definition": txt(d["expr"])}
            for d in m["defs"]
        ]
        for c in m["cons"]:
            key = "binding-constraints" if c["binding"] else "constraints"
            if "cmp" in c:
                d = {"id": c["name"], "expression": txt(["cmp", *c["cmp"]])}
            else:
                d = {"id": c["name"], "expression": txt(c["expr"])}
                if c["lb"] is not None:
                    d["lower-bound"] = txt(c["lb"])
                if c["ub"] is not None:
                    d["upper-bound"] = txt(c["ub"])
            entry.setdefault(key, []).append(d)
        if m.get("obj") is not None:
            entry["objective"] = txt(m["obj"])
        models.append(entry)
    library = {
        "library": {
            "id": lib_id,
            "port-types": [
                {"id": p["id"], "fields": [{"id": f} for f in p["fields"]]}
                for p in spec["port_types"]
            ],
            "models": models,
        }
    }
    comps: Dict[bool, List[Any]] = {True: [], False: []}
    for c in spec["comps"]:
        params = []
        for name, data in c["data"].items():
            d = {"id": name}
            if data["kind"] == "const":
                d["value"] = data["values"]
            else:
                d["time-dependent"] = data["kind"] in ("time", "both")
                d["scenario-dependent"] = data["kind"] in ("scen", "both")
                file = f"{c['id']}-{name}"
                write_series(os.path.join(directory, file + ".txt"), data)
                d["value"] = file
            params.append(d)
        comps[c["node"]].append(
            {"id": c["id"], "model": f"{lib_id}.{c['model']}", "parameters": params}
        )
    system: Dict[str, Any] = {"system": {}}
    if comps[True]:
        system["system"]["nodes"] = comps[True]
    if comps[False]:
        system["system"]["components"] = comps[False]
    if spec["conns"]:
        system["system"]["connections"] = [
            {"component1": a, "port1": p, "component2": b, "port2": q}
            for a, p, b, q in spec["conns"]
        ]
    return (
        yaml.safe_dump(library, sort_keys=False),
        yaml.safe_dump(system, sort_keys=False),
    )


def write_series(path: str, data: Dict[str, Any]) -> None:
    kind, v = data["kind"], data["values"]
    rows = {"time": lambda: [[x] for x in v], "scen": lambda: [v], "both": lambda: v}[
        kind
    ]()
    with open(path, "w") as f:
        for r in rows:
            f.write("\t".join(repr(float(x)) for x in r) + "\n")


# --------------------------------------------------------------- comparison


def is_inf(x: float) -> bool:
    return abs(x) >= 1e20


def close(a: Any, b: float, tol: float = 1e-7) -> bool:
    try:
        a = float(a)
    except (TypeError, ValueError):
        raise Violation(f"{a!r} where a number was expected")
    if math.isnan(a):
        return False
    if is_inf(a) or is_inf(b):
        return is_inf(a) and is_inf(b) and (a > 0) == (b > 0)
    return abs(a - b) <= tol * (1.0 + abs(a) + abs(b))


def problem_variables(problem: Any) -> Dict[Tuple, Any]:
    """(component, variable, block timestep, scenario) -> solver variable"""
    out = {}
    for key, v in problem.context.get_all_component_variables().items():
        out[
            (key.component_id, key.variable_name, key.block_timestep, key.scenario)
        ] = v
    return out


def compare_variables(problem: Any, expected: Dict[Tuple, Tuple]) -> None:
    actual = problem_variables(problem)
    if set(actual) != set(expected):
        missing = sorted(map(str, set(expected) - set(actual)))[:5]
        extra = sorted(map(str, set(actual) - set(expected)))[:5]
        raise Violation(f"variables: missing {missing}, unexpected {extra}")
    if problem.solver.NumVariables() != len(expected):
        raise Violation(
            f"{problem.solver.NumVariables()} solver variables for "
            f"{len(expected)} model variables"
        )
    indices = set()
    for key, (lb, ub, integer, _) in expected.items():
        v = actual[key]
        indices.add(v.index())
        if not close(v.lb(), lb) or not close(v.ub(), ub):
            raise Violation(
                f"variable {key}: bounds [{v.lb()}, {v.ub()}], expected [{lb}, {ub}]"
            )
        if bool(v.integer()) != integer:
            raise Violation(f"variable {key}: integer={v.integer()}, expected {integer}")
    if len(indices) != len(expected):
        raise Violation("two model variables share one solver variable")


def solver_rows(problem: Any, by_index: Dict[int, Any]) -> List[Tuple]:
    rows = []
    variables = problem.solver.variables()
    for c in problem.solver.constraints():
        terms = {}
        for v in variables:
            k = c.GetCoefficient(v)
            if k != 0:
                if v.index() not in by_index:
                    raise Violation(f"constraint on unknown variable {v.name()}")
                terms[by_index[v.index()]] = k
        rows.append((terms, c.lb(), c.ub(), c.name()))
    return rows


def normal(row: Tuple) -> Tuple:
    """Same row whichever side of the comparison the terms were moved to."""
    terms, lb, ub, name = row
    terms = {k: v for k, v in terms.items() if abs(v) > 1e-12}
    if terms:
        first = min(terms, key=key_order)
        if terms[first] < 0:
            terms = {k: -v for k, v in terms.items()}
            lb, ub = -ub, -lb
    return terms, lb + 0.0, ub + 0.0, name


def key_order(key: Any) -> Tuple:
    return tuple((x is None, str(x)) for x in key)


def rows_close(a: Tuple, b: Tuple) -> bool:
    if not close(a[1], b[1]) or not close(a[2], b[2]):
        return False
    for k in set(a[0]) | set(b[0]):
        if not close(a[0].get(k, 0.0), b[0].get(k, 0.0)):
            return False
    return True


def show(row: Tuple) -> str:
    terms = " ".join(
        f"{v:+g}*{'.'.join(str(x) for x in k)}"
        for k, v in sorted(row[0].items(), key=lambda kv: key_order(kv[0]))
    )
    return f"{row[3]}: {row[1]:g} <= {terms or '0'} <= {row[2]:g}"


def compare_row_sets(actual: List[Tuple], expected: List[Tuple]) -> None:
    if len(actual) != len(expected):
        raise Violation(
            f"{len(actual)} constraints, expected {len(expected)}: "
            f"{[r[3] for r in actual][:12]} vs {[r[3] for r in expected][:12]}"
        )
    left = [normal(r) for r in actual]
    if len(left) > 40:  # candidates with the same variables first
        rank: Dict[Any, int] = {}
        wanted = [frozenset(normal(r)[0]) for r in expected]
        for i, k in enumerate(wanted):
            rank.setdefault(k, i)
        left.sort(key=lambda a: rank.get(frozenset(a[0]), -1))

    for r in expected:
        n = normal(r)
        for i, a in enumerate(left):
            if rows_close(a, n):
                del left[i]
                break
        else:
            raise Violation(
                f"no constraint matches {show(n)}; "
                f"candidates: {'; '.join(show(a) for a in left[:4])}"
            )


def compare_objective(problem: Any, by_index: Dict[int, Any], expected: Lin) -> None:
    obj = problem.solver.Objective()
    if obj.maximization():
        raise Violation("the objective is maximised")
    terms = {}
    for v in problem.solver.variables():
        k = obj.GetCoefficient(v)
        if k != 0:
            if v.index() not in by_index:
                raise Violation(f"objective on unknown variable {v.name()}")
            terms[by_index[v.index()]] = k
    for k in set(terms) | set(expected[0]):
        if not close(terms.get(k, 0.0), expected[0].get(k, 0.0)):
            raise Violation(
                f"objective coefficient of {k}: {terms.get(k, 0.0)}, "
                f"expected {expected[0].get(k, 0.0)}"
            )
    if not close(obj.offset(), expected[1]):
        raise Violation(f"objective offset {obj.offset()}, expected {expected[1]}")


def compare_problem(problem: Any, ref: Ref) -> None:
    compare_variables(problem, ref.variables())
    by_index = {v.index(): k for k, v in problem_variables(problem).items()}
    compare_row_sets(solver_rows(problem, by_index), ref.rows())
    compare_objective(problem, by_index, ref.objective())


def problem_signature(problem: Any) -> Dict[str, Any]:
    """Content of a problem, for differential comparisons."""
    actual = problem_variables(problem)
    by_index = {v.index(): k for k, v in actual.items()}
    obj = problem.solver.Objective()
    return {
        "variables": {
            k: (v.lb(), v.ub(), bool(v.integer()), False) for k, v in actual.items()
        },
        "rows": solver_rows(problem, by_index),
        "objective": (
            {
                by_index[v.index()]: obj.GetCoefficient(v)
                for v in problem.solver.variables()
            },
            obj.offset(),
        ),
    }


def compare_to_signature(problem: Any, sig: Dict[str, Any]) -> None:
    compare_variables(problem, sig["variables"])
    by_index = {v.index(): k for k, v in problem_variables(problem).items()}
    compare_row_sets(solver_rows(problem, by_index), sig["rows"])
    compare_objective(problem, by_index, sig["objective"])


# ------------------------------------------------------------- YAML loading


def load_libraries(texts: List[str], preloaded: Any = None) -> Dict[str, Any]:
    import io

    from andromede.model.parsing import parse_yaml_library
    from andromede.model.resolve_library import resolve_library

    libs = [parse_yaml_library(io.StringIO(t)) for t in texts]
    return resolve_library(libs, preloaded) if preloaded else resolve_library(libs)


def load_system(text: str, libraries: Dict[str, Any], directory: Any) -> Tuple[Any, Any]:
    import io

    from andromede.study.parsing import parse_yaml_components
    from andromede.study.resolve_components import (
        build_data_base,
        build_network,
        resolve_system,
    )

    system = parse_yaml_components(io.StringIO(text))
    network = build_network(resolve_system(system, libraries))
    return network, build_data_base(system, directory)


def solve_problem_yaml(spec: Dict[str, Any], directory: Any, **kwargs: Any) -> Any:
    from andromede.simulation import TimeBlock, build_problem

    lib, system = yaml_documents(spec, str(directory), **kwargs)
    network, db = load_system(system, load_libraries([lib]), directory)
    return build_problem(
        network, db, TimeBlock(1, list(spec["timesteps"])), spec["scenarios"]
    )
