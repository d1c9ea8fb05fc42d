"""
Decision trees over studies: generation, building with the code, reference.

case = {"spec": study spec (data of a component parameter may be
            {"kind": "tree", "nodes": {tree node: data}}),
        "nodes": [{"id", "parent": rank|None, "prob": conditional probability,
                   "blocks": [[block id, [timesteps]]], "scenarios": n,
                   "comps": [component ids]}],
        "couplings": [{"node": rank, "par": comp, "cum_par": var, "chd": comp,
                       "cum": var, "inc": var}]}
"""
import copy
from typing import Any, Dict, List, Tuple

from . import gen, study
from .runner import Violation
from .study import INF, add_all, close, scale

PROBS = {
    1: [[1.0]],
    2: [[0.5, 0.5], [0.25, 0.75], [0.1, 0.9], [0.6, 0.4], [1 / 3, 2 / 3], [0.12345, 0.87655], [0.0, 1.0]],
    4: [[0.25, 0.25, 0.25, 0.25], [0.1, 0.2, 0.3, 0.4], [1 / 6, 1 / 3, 1 / 6, 1 / 3]],
    3: [[0.25, 0.25, 0.5], [0.2, 0.3, 0.5], [0.7, 0.2, 0.1], [1 / 3, 1 / 3, 1 / 3], [0.125, 0.87, 0.005]],
}


def contextual(g: gen.G) -> Dict[str, Any]:
    """Study whose models have investment, operational and coupling parts."""
    spec = g.spec()
    for m in spec["models"]:
        used = {
            n[1] for d in m["defs"] for n in gen_walk(d["expr"]) if n[0] == "var"
        }
        for v in m["vars"]:
            if not v["time"] and not v["scen"] and v["name"] not in used:
                v["ctx"] = g.pick(["investment", "coupling", "operational"])
        fields = g.usable_fields(
            m, spec["models"], spec["comps"], spec["conns"],
            {p["id"]: p["fields"] for p in spec["port_types"]},
        )
        for f in fields:
            f["direct"] = False

        def constant(q: Any) -> bool:
            return not q["time"] and not q["scen"]

        contexts = {
            "operational": g.ctx(
                m, fields=fields, var_ok=lambda v: v["ctx"] in ("operational", "coupling")
            ),
            "investment": g.ctx(
                m, time_ops=False, scen_ops=False, par_ok=constant,
                var_ok=lambda v: v["ctx"] in ("investment", "coupling"),
            ),
            "coupling": g.ctx(
                m, time_ops=False, scen_ops=False, par_ok=constant,
                var_ok=lambda v: v["ctx"] == "coupling",
            ),
        }
        for i in range(g.int(0, 3)):
            name = g.pick(["operational", "investment", "coupling"])
            k = g.constraint(m, i, contexts[name])
            k["ctx"] = name
            m["cons"].append(k)
        if g.flag():
            c = dict(contexts["operational"], fields=[])
            e = g.lin(2, c)
            time, scen = gen.structure(e, m)
            if time:
                e = ["allsum", e]
            if scen:
                e = ["expec", e]
            m["obj"] = e
        if not g.chance(4):
            m["inv"] = g.lin(2, contexts["investment"])
    return spec


def gen_walk(e: Any) -> Any:
    from .asts import walk

    return walk(e)


def tree(
    g: gen.G,
    max_nodes: int = 4,
    couplings: bool = True,
    prefix: str = "n",
    min_nodes: int = 1,
    max_blocks: int = 3,
) -> Dict[str, Any]:
    spec = contextual(g)
    steps = spec["timesteps"]
    horizon = steps[-1] + 1
    nodes: List[Dict[str, Any]] = []
    count = g.int(min_nodes, max_nodes)
    # some trees are narrow and deep
    deep = count > 4 and g.flag()
    parents: List[Any] = [None] + [
        g.int(max(0, i - 2) if deep else 0, i - 1) for i in range(1, count)
    ]
    children: Dict[int, List[int]] = {}
    for i, p in enumerate(parents):
        if p is not None:
            children.setdefault(p, []).append(i)
    probs = {0: 1.0}
    for p, kids in children.items():
        for k, x in zip(kids, g.pick(PROBS.get(len(kids)) or [[1 / len(kids)] * len(kids)])):
            probs[k] = x
    ids = [c["id"] for c in spec["comps"]]
    for i in range(count):
        blocks = []
        for b in range(g.int(1, max_blocks)):
            n = g.int(1, min(3, horizon))
            start = g.int(0, horizon - n)
            blocks.append([b + 1 if g.flag() else 10 * b + 3, [start + k for k in range(n)]])
        if len({b[0] for b in blocks}) < len(blocks):
            blocks = blocks[:1]
        keep = list(ids)
        if g.chance(3) and len(ids) > 1:
            keep.remove(g.pick(ids))
        nodes.append(
            {
                "id": f"{prefix}{i}",
                "parent": parents[i],
                "prob": probs[i],
                "blocks": blocks,
                "scenarios": g.int(1, spec["scenarios"]),
                "comps": keep,
            }
        )
        if g.chance(4):
            nodes[-1]["coupler"] = True
    # data that depend on the node of the tree
    for c in spec["comps"]:
        m = next(m for m in spec["models"] if m["id"] == c["model"])
        for q in m["params"]:
            if g.chance(3) and q["role"] == "num":
                c["data"][q["name"]] = {
                    "kind": "tree",
                    "nodes": {
                        n["id"]: g.series(q, horizon, spec["scenarios"]) for n in nodes
                    },
                }
    out: List[Dict[str, Any]] = []
    if couplings:
        candidates = {
            c["id"]: [
                v["name"]
                for m in spec["models"]
                if m["id"] == c["model"]
                for v in m["vars"]
                if v["ctx"] in ("investment", "coupling")
            ]
            for c in spec["comps"]
        }
        for i, n in enumerate(nodes):
            for _ in range(g.int(0, 2)):
                chd = [c for c in n["comps"] if len(candidates[c]) >= 2]
                above = nodes[n["parent"]]["comps"] if n["parent"] is not None else n["comps"]
                par = [c for c in above if candidates[c]]
                if not chd or not par:
                    continue
                a, b = g.pick(par), g.pick(chd)
                cum = g.pick(candidates[b])
                out.append(
                    {
                        "node": i,
                        "par": a,
                        "cum_par": g.pick(candidates[a]),
                        "chd": b,
                        "cum": cum,
                        "inc": g.pick([v for v in candidates[b] if v != cum]),
                    }
                )
    return {"spec": spec, "nodes": nodes, "couplings": out, "upwards": g.chance(3)}


# ---------------------------------------------------------------- the code


def node_spec(case: Dict[str, Any], i: int) -> Dict[str, Any]:
    """The study of one node of the tree, with the data of this node."""
    spec, n = case["spec"], case["nodes"][i]
    out = dict(spec)
    out["comps"] = []
    for c in spec["comps"]:
        if c["id"] in n["comps"]:
            data = {
                k: (d["nodes"][n["id"]] if d["kind"] == "tree" else d)
                for k, d in c["data"].items()
            }
            out["comps"].append(dict(c, data=data))
    out["conns"] = [
        k for k in spec["conns"] if k[0] in n["comps"] and k[2] in n["comps"]
    ]
    return out


def database(case: Dict[str, Any]) -> Any:
    from andromede.study import DataBase
    from andromede.study.data import TreeData

    db = DataBase()
    for c in case["spec"]["comps"]:
        for name, d in c["data"].items():
            if d["kind"] == "tree":
                data = TreeData({k: study.build_data(x) for k, x in d["nodes"].items()})
            else:
                data = study.build_data(d)
            db.add_data(c["id"], name, data)
    return db


def build_tree(case: Dict[str, Any], upto: Any = None) -> List[Any]:
    from andromede.simulation import TimeBlock
    from andromede.simulation.decision_tree import (
        DecisionTreeNode,
        InterDecisionTimeScenarioConfig,
    )
    from andromede.study import Network

    models = study.build_models(case["spec"])
    nodes: List[Any] = [None] * len(case["nodes"])
    order = list(range(len(nodes)))
    # from the root down with parents, or from the leaves up with children
    upwards = case.get("upwards", False)
    for i in reversed(order) if upwards else order:
        n = case["nodes"][i]
        kw: Dict[str, Any] = {}
        if upwards:
            kids = [nodes[j] for j in order if case["nodes"][j]["parent"] == i]
            if kids:
                kw["children"] = kids
        elif n["parent"] is not None:
            kw["parent"] = nodes[n["parent"]]
        if n["prob"] != 1.0 or n["parent"] is not None:
            kw["prob"] = n["prob"]
        if n.get("coupler"):
            kw["coupling_network"] = Network("coupler")
        nodes[i] = DecisionTreeNode(
            n["id"],
            InterDecisionTimeScenarioConfig(
                [TimeBlock(b, list(ts)) for b, ts in n["blocks"]], n["scenarios"]
            ),
            study.build_network_api(node_spec(case, i), models),
            **kw,
        )
        if n.get("coupler") and nodes[i].coupling_network is not kw["coupling_network"]:
            raise Violation("the coupling network of the node is not the given one")
    return nodes


def define_couplings(case: Dict[str, Any], nodes: List[Any]) -> None:
    for k in case["couplings"]:
        node = nodes[k["node"]]
        par = node.parent if node.parent is not None else node
        node.define_coupling_constraint(
            par.network.get_component(k["par"]),
            k["cum_par"],
            node.network.get_component(k["chd"]),
            k["cum"],
            k["inc"],
        )


# ----------------------------------------------------------- the reference


def probability(case: Dict[str, Any], i: int) -> float:
    n = case["nodes"][i]
    p = n["prob"]
    return p if n["parent"] is None else p * probability(case, n["parent"])


def invest(ctx: str) -> bool:
    return ctx in ("investment", "coupling")


def operate(ctx: str) -> bool:
    return ctx in ("operational", "coupling")


def master_reference(case: Dict[str, Any]) -> Dict[str, Any]:
    variables: Dict[str, Tuple] = {}
    rows: List[Tuple] = []
    parts = []
    for i, n in enumerate(case["nodes"]):
        ref = study.Ref(node_spec(case, i), timesteps=[0], scenarios=1)

        def name(key: Tuple) -> str:
            return f"{n['id']}_{key[0]}_{key[1]}"

        for key, value in ref.variables(invest).items():
            variables[name(key)] = value
        for terms, lb, ub, label in ref.rows(invest):
            rows.append(({name(k): v for k, v in terms.items()}, lb, ub, f"{n['id']} {label}"))
        terms, const = scale(ref.objective(("inv",)), probability(case, i))
        parts.append(({name(k): v for k, v in terms.items()}, const))
    for k in case["couplings"]:
        n = case["nodes"][k["node"]]
        items = [
            (f"{n['id']}_{k['chd']}_{k['cum']}", 1.0),
            (f"{n['id']}_{k['chd']}_{k['inc']}", -1.0),
        ]
        if n["parent"] is not None:
            items.append((f"{case['nodes'][n['parent']]['id']}_{k['par']}_{k['cum_par']}", -1.0))
        rows.append((dict(items), 0.0, 0.0, f"coupling {k}"))
    return {"variables": variables, "rows": rows, "objective": add_all(parts)}


def names_of(problem: Any) -> Dict[int, str]:
    return {v.index(): v.name() for v in problem.solver.variables()}


def compare_named(problem: Any, expected: Dict[str, Any]) -> None:
    """Compares a problem to a reference whose variables are names."""
    actual = problem.solver.variables()
    got = [v.name() for v in actual]
    if sorted(got) != sorted(expected["variables"]):
        raise Violation(
            f"variables {sorted(got)[:10]}, expected {sorted(expected['variables'])[:10]}"
        )
    for v in actual:
        lb, ub, integer, _ = expected["variables"][v.name()]
        if not close(v.lb(), lb) or not close(v.ub(), ub):
            raise Violation(
                f"variable {v.name()}: bounds [{v.lb()}, {v.ub()}], expected [{lb}, {ub}]"
            )
        if bool(v.integer()) != integer:
            raise Violation(f"variable {v.name()}: integer={v.integer()}")
    by_index = {v.index(): (v.name(),) for v in actual}
    study.compare_row_sets(
        study.solver_rows(problem, by_index),
        [({(k,): v for k, v in t.items()}, *rest) for t, *rest in expected["rows"]],
    )
    terms, const = expected["objective"]
    study.compare_objective(problem, by_index, ({(k,): v for k, v in terms.items()}, const))


def subproblem_references(case: Dict[str, Any]) -> Dict[str, Any]:
    """problem name -> (study reference, weight, tree node)"""
    out = {}
    for i, n in enumerate(case["nodes"]):
        node = f"_{n['id']}" if len(case["nodes"]) > 1 else ""
        for b, ts in n["blocks"]:
            block = f"_b{b}" if len(n["blocks"]) > 1 else ""
            out[f"subproblem{node}{block}"] = (
                study.Ref(node_spec(case, i), timesteps=ts, scenarios=n["scenarios"]),
                probability(case, i),
                n["id"],
            )
    return out


def compare_subproblem(problem: Any, ref: Any, weight: float, node: str) -> None:
    study.compare_variables(problem, ref.variables(operate))
    keys = study.problem_variables(problem)
    by_index = {v.index(): k for k, v in keys.items()}
    study.compare_row_sets(study.solver_rows(problem, by_index), ref.rows(operate))
    study.compare_objective(problem, by_index, ref.objective(("obj",), weight))
    for (comp, name, t, s), v in keys.items():
        wanted = f"{node}_{comp}_{name}"
        if t is not None and ref.T > 1:
            wanted += f"_t{t}"
        if s is not None and ref.S > 1:
            wanted += f"_s{s}"
        if v.name() != wanted:
            raise Violation(f"variable named {v.name()}, expected {wanted}")


def compare_benders(benders: Any, case: Dict[str, Any]) -> None:
    compare_named(benders.master, master_reference(case))
    expected = subproblem_references(case)
    got = [p.name for p in benders.subproblems]
    if sorted(got) != sorted(expected):
        raise Violation(f"subproblems {got}, expected {sorted(expected)}")
    for p in benders.subproblems:
        compare_subproblem(p, *expected[p.name])
