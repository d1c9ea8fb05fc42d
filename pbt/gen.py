"""Hypothesis generators of study specifications (see study.py)."""
import dataclasses
from typing import Any, Dict, List, Optional, Tuple

from hypothesis import strategies as st

from .asts import Ast, ops_of

NUM = [0, 1, -1, 2, 3, -2, 0.5, 4, 5, 7, -3, 2.5, 10, 0.25, -0.75, 12]
NZ = [1, 2, -1, 0.5, 4, -2, 3, 5, 2.5, 8]
NN = [0, 1, 2, 5, 0.5, 3.25, 10]
INTS = [0, 1, -1, 2, 3, -2, 4, -3]
FAR = [5, -5, 7, 10, -13, 25]
SMALL = [1e-4, -2e-5, 1e-3]

# names that look alike, or like something else
COMPONENTS = [
    ["c1", "c10", "c2", "c11", "c20", "c100"],
    ["a", "A", "b", "B", "aa", "Aa"],
    ["fr", "fr-de", "de", "de-fr", "fr.de", "de.fr"],
    ["zone_1", "zone_10", "zone", "zone_2", "Zone", "z"],
    ["1", "2", "10", "01", "1.0", "-1"],
    ["None", "null", "true", "x", "lib", "p"],
    ["\u00e9t\u00e9", "ete", "\u00c9t\u00e9", "e", "\u00fc", "u"],
]
NAMES = [
    ["v1", "v10", "v2", "v11", "v", "v_1", "v_10", "w", "w1"],
    ["p", "P", "pp", "Pp", "pP", "PP", "q", "Q", "p_"],
    ["sum_x", "sum1", "expecx", "t1", "tt", "Sum", "T", "s", "e"],
    ["p_max", "p_min", "p", "max", "min", "p_max_1", "p_max_2", "cost", "p_cost"],
    ["_a", "a", "a_", "a1", "A1", "b", "a_b", "b_a", "ab"],
]
FIELDS = [["f", "F", "f_", "_f"], ["flow", "flow1", "flow_1", "Flow"], ["p", "x", "v", "f0"]]
PORTS = [["q", "Q", "q_", "_q"], ["port", "port1", "port_1", "Port"], ["p", "x", "v", "q1"]]
MODELS = [["m0", "m1", "m2"], ["node", "Node", "nodes"], ["c1", "c10", "1"], ["lib", "m", "M"]]

# number of time steps, number of scenarios
LARGE = [
    (24, 1), (48, 2), (100, 1), (168, 1), (30, 8), (12, 12), (5, 25), (2, 40),
    (200, 1), (1, 60), (9, 3), (10, 11), (13, 2), (1, 12),
]


@dataclasses.dataclass
class Profile:
    T: Tuple[int, int] = (1, 3)
    S: Tuple[int, int] = (1, 2)
    models: Tuple[int, int] = (1, 2)
    comps: Tuple[int, int] = (1, 3)
    cons: Tuple[int, int] = (0, 2)
    params: Tuple[int, int] = (0, 3)
    vars: Tuple[int, int] = (1, 3)
    depth: int = 3
    port_types: Tuple[int, int] = (0, 0)
    time_ops: bool = True
    scen_ops: bool = True
    objective: bool = True
    invest: bool = False  # investment objective and contexts
    maps: bool = False  # scenarizations
    int_vars: bool = True
    safe_bounds: bool = True
    gaps: bool = True  # non contiguous timesteps
    const_vars: bool = False  # most variables depend on neither time nor scenario
    large: bool = False  # many time steps or scenarios
    rename: bool = True  # names that look alike
    op_weight: int = 2  # share of operators over time and scenarios
    varying: bool = False  # most variables depend on time and scenario
    bound_ops: bool = False  # operators in the bounds
    fields: Tuple[int, int] = (1, 2)  # fields of a port type
    ports: Tuple[int, int] = (1, 2)  # ports of a model
    terms: Tuple[int, int] = (0, 0)  # terms of the constraints and objectives


class G:
    def __init__(self, draw: Any, prof: Profile) -> None:
        self.draw = draw
        self.p = prof

    # ------------------------------------------------------------ basics
    def int(self, lo: int, hi: int) -> int:
        return self.draw(st.integers(lo, hi))

    def span(self, lohi: Tuple[int, int]) -> int:
        return self.int(*lohi)

    def flag(self) -> bool:
        return self.draw(st.booleans())

    def pick(self, xs: List[Any]) -> Any:
        return self.draw(st.sampled_from(xs))

    def chance(self, n: int) -> bool:
        """True one time out of n; shrinks to False"""
        return self.draw(st.integers(0, n - 1)) == n - 1

    # -------------------------------------------------------- expressions
    def bound(self, m: Dict[str, Any]) -> Ast:
        """Constant integer expression, for time shifts"""
        ints = [q["name"] for q in m["params"] if q["role"] == "int"]
        kind = self.pick(
            ["lit", "lit", "lit"] + (["par", "negpar", "add", "sub", "mul"] if ints else [])
        )
        if kind == "lit":
            return ["lit", self.pick(FAR) if self.chance(8) else self.pick(INTS)]
        p = ["par", self.pick(ints)]
        if kind == "par":
            return p
        if kind == "negpar":
            return ["neg", p]
        if kind == "mul":
            return ["mul", ["lit", self.pick([2, -1, 3])], p]
        return [kind, p, ["lit", self.pick([0, 1, 2, 3])]]

    def const(self, d: int, c: Dict[str, Any]) -> Ast:
        """Expression without variables"""
        pars = [q["name"] for q in c["model"]["params"] if c["par_ok"](q)]
        kinds = ["lit"] + ["par"] * (3 if pars else 0)
        if d > 0:
            kinds += ["neg", "add", "sub", "mul", "div"]
            if pars:
                kinds += self.operators(c)
        k = self.pick(kinds)
        if k == "lit":
            return ["lit", self.pick(SMALL if self.chance(20) else NUM)]
        if k == "par":
            return ["par", self.pick(pars)]
        if k == "neg":
            return ["neg", self.const(d - 1, c)]
        if k == "div":
            return ["div", self.const(d - 1, c), self.divisor(c)]
        if k in ("add", "sub", "mul"):
            return [k, self.const(d - 1, c), self.const(d - 1, c)]
        return self.operator(k, d, c, self.const)

    def divisor(self, c: Dict[str, Any]) -> Ast:
        nz = [
            q["name"]
            for q in c["model"]["params"]
            if q["role"] == "nz" and c["par_ok"](q)
        ]
        k = self.pick(["lit"] + (["par", "par", "mul"] if nz else []))
        if k == "lit":
            return ["lit", self.pick(NZ)]
        if k == "par":
            return ["par", self.pick(nz)]
        return ["mul", ["lit", self.pick(NZ)], ["par", self.pick(nz)]]

    def operators(self, c: Dict[str, Any]) -> List[str]:
        out = []
        if c["time_ops"]:
            out += ["shift", "tsum"]
            if not c["no_allsum"]:
                out.append("allsum")
            if not c["no_eval"]:
                out.append("eval")
        if c["scen_ops"]:
            out.append("expec")
        return out

    def operator(self, k: str, d: int, c: Dict[str, Any], rec: Any) -> Ast:
        m = c["model"]
        if k == "shift":
            return ["shift", rec(d - 1, {**c, "no_eval": True}), self.bound(m)]
        if k == "tsum":
            e = rec(d - 1, {**c, "no_eval": True})
            a = self.bound(m)
            if self.chance(4):
                b = self.bound(m)
            elif a[0] == "lit":
                b = ["lit", a[1] + self.pick([0, 1, 2, 3, -1, 6])]
            else:
                b = ["add", a, ["lit", self.pick([0, 1, 2, 3])]]
            return ["tsum", e, a, b]
        if k == "allsum":
            return ["allsum", rec(d - 1, c)]
        if k == "eval":
            return [
                "eval",
                rec(d - 1, {**c, "no_eval": True, "no_allsum": True}),
                self.bound(m),
            ]
        if k == "expec":
            return ["expec", rec(d - 1, c)]
        raise KeyError(k)

    def lin(self, d: int, c: Dict[str, Any]) -> Ast:
        """Expression linear with respect to variables"""
        names = [v["name"] for v in c["model"]["vars"] if c["var_ok"](v)]
        fields = [
            f
            for f in c["fields"]
            if not (c["no_eval"] and f["has_eval"])
            and not (c["no_allsum"] and f["has_allsum"])
        ]
        leaves = ["var"] * (4 if names else 0) + ["const"]
        if fields:
            leaves += ["port"] * 4
        kinds = list(leaves)
        if d > 0:
            kinds += ["neg", "add", "add", "sub", "cmul", "mulc", "div"]
            kinds += self.operators(c) * self.p.op_weight
        k = self.pick(kinds)
        if k == "var":
            return ["var", self.pick(names)]
        if k == "const":
            return self.const(min(d, 1), c)
        if k == "port":
            f = self.pick(fields)
            op = self.pick(["sumc", "field"]) if f["direct"] else "sumc"
            return [op, f["port"], f["field"]]
        if k == "neg":
            return ["neg", self.lin(d - 1, c)]
        if k in ("add", "sub"):
            return [k, self.lin(d - 1, c), self.lin(d - 1, c)]
        if k == "cmul":
            return ["mul", self.const(min(d - 1, 1), c), self.lin(d - 1, c)]
        if k == "mulc":
            return ["mul", self.lin(d - 1, c), self.const(min(d - 1, 1), c)]
        if k == "div":
            return ["div", self.lin(d - 1, c), self.divisor(c)]
        return self.operator(k, d, c, self.lin)

    def ctx(self, m: Dict[str, Any], **kw: Any) -> Dict[str, Any]:
        c = {
            "model": m,
            "fields": [],
            "time_ops": self.p.time_ops,
            "scen_ops": self.p.scen_ops,
            "no_eval": False,
            "no_allsum": False,
            "par_ok": lambda q: True,
            "var_ok": lambda v: True,
        }
        c.update(kw)
        return c

    # -------------------------------------------------------------- series
    def series(self, q: Dict[str, Any], horizon: int, cols: int) -> Dict[str, Any]:
        kinds = ["const"]
        if q["time"]:
            kinds.append("time")
        if q["scen"]:
            kinds.append("scen")
        if q["time"] and q["scen"]:
            kinds += ["both", "both"]
        kind = self.pick(kinds[::-1])
        role = q["role"]
        pool = {"num": NUM, "nz": NZ, "nn": NN, "int": INTS}[role]
        base = self.pick(pool)
        if role == "num" and self.chance(20):
            base = self.pick(SMALL)
        if kind == "const":
            return {"kind": kind, "values": float(base) if self.flag() else base}
        if role in ("nz", "nn"):
            base = abs(base)
        a = self.pick([1, 2, 0.5])
        b = self.pick([3, 0.25, 7])
        w = self.int(0, 2)

        def v(t: int, s: int) -> float:
            return base + a * t + b * s + w * ((t * 7 + s * 3) % 5)

        if kind == "time":
            return {"kind": kind, "values": [v(t, 0) for t in range(horizon)]}
        extra: Dict[str, Any] = {}
        n = cols
        if self.p.maps and self.flag():
            n = self.int(1, 4)
            extra["map"] = {str(y): self.int(0, n - 1) for y in range(cols)}
        if kind == "scen":
            return {"kind": kind, "values": [v(0, s) for s in range(n)], **extra}
        return {
            "kind": kind,
            "values": [[v(t, s) for s in range(n)] for t in range(horizon)],
            **extra,
        }

    # --------------------------------------------------------------- model
    def params(self) -> List[Dict[str, Any]]:
        out = []
        for i in range(self.span(self.p.params)):
            role = self.pick(["num", "num", "nz", "nn", "int"])
            time = scen = False
            if role != "int":
                time, scen = self.pick(
                    [(False, False), (True, True), (True, False), (False, True)]
                )
            out.append({"name": f"p{i}", "time": time, "scen": scen, "role": role})
        return out

    def variables(self, m: Dict[str, Any]) -> List[Dict[str, Any]]:
        out = []
        for i in range(self.span(self.p.vars)):
            time, scen = self.pick(
                [(True, True), (True, False), (False, True), (False, False)]
                + ([(False, False)] * 4 if self.p.const_vars else [])
                + ([(True, True)] * 4 if self.p.varying else [])
            )
            vtype = self.pick(
                ["continuous", "continuous", "continuous"]
                + (["integer", "boolean"] if self.p.int_vars else [])
            )
            lb = ub = None
            c = self.ctx(
                m,
                time_ops=self.p.bound_ops,
                scen_ops=self.p.bound_ops,
                par_ok=lambda q: (time or not q["time"]) and (scen or not q["scen"]),
            )
            if vtype == "boolean":
                if self.chance(4):
                    lb = ["lit", self.pick([0, 1])]
                if self.chance(4):
                    ub = ["lit", 1 if lb is not None else self.pick([0, 1])]
            else:
                if self.flag():
                    lb = self.const(1, c)
                if self.flag():
                    if self.p.safe_bounds and lb is not None:
                        nn = [
                            q["name"]
                            for q in m["params"]
                            if q["role"] == "nn" and c["par_ok"](q)
                        ]
                        width = (
                            ["par", self.pick(nn)]
                            if nn and self.flag()
                            else ["lit", self.pick(NN)]
                        )
                        ub = ["add", lb, width]
                    else:
                        ub = self.const(1, c)
            out.append(
                {
                    "name": f"x{i}",
                    "time": time,
                    "scen": scen,
                    "type": vtype,
                    "lb": lb,
                    "ub": ub,
                    "ctx": "operational",
                }
            )
        return out

    def wide(self, d: int, c: Dict[str, Any]) -> Ast:
        """Sum of many terms, or any linear expression"""
        if not self.p.terms[1]:
            return self.lin(d, c)
        items = [self.lin(d, c) for _ in range(self.span(self.p.terms))]
        shape = self.pick(["left", "right", "pairs"])
        while len(items) > 1:
            op = self.pick(["add", "add", "sub"])
            if shape == "left":
                items[:2] = [[op, items[0], items[1]]]
            elif shape == "right":
                items[-2:] = [[op, items[-2], items[-1]]]
            else:
                items = items[2:] + [[op, items[0], items[1]]]
        return items[0]

    def constraint(self, m: Dict[str, Any], i: int, c: Dict[str, Any]) -> Dict[str, Any]:
        d = self.p.depth
        base = {"name": f"k{i}", "binding": self.flag(), "ctx": "operational"}
        if self.chance(3):
            ops = self.p.bound_ops
            bc = {**c, "time_ops": ops, "scen_ops": ops, "fields": []}
            lb = self.const(1, bc) if self.flag() else None
            ub: Optional[Ast] = None
            if self.flag():
                ub = (
                    self.const(1, bc)
                    if lb is None
                    else ["add", lb, ["lit", self.pick(NN)]]
                )
            return {**base, "expr": self.wide(d, c), "lb": lb, "ub": ub}
        op = self.pick(["<=", ">=", "="])
        left = self.wide(d, c)
        right = self.lin(1, c) if self.flag() else self.const(1, c)
        return {**base, "cmp": [op, left, right]}

    def objective(self, m: Dict[str, Any]) -> Ast:
        c = self.ctx(m)
        e = self.wide(self.p.depth - 1, c)
        time, scen = structure(e, m)
        wraps = (["allsum"] if time else []) + (["expec"] if scen else [])
        if self.flag():
            wraps = wraps[::-1]
        for w in wraps:
            e = [w, e]
        if self.flag():
            k = self.pick(["mul", "add", "div"])
            const = self.ctx(
                m,
                time_ops=False,
                scen_ops=False,
                par_ok=lambda q: not q["time"] and not q["scen"],
            )
            if k == "div":
                e = ["div", e, ["lit", self.pick(NZ)]]
            else:
                e = [k, e, self.const(1, const)]
        return e

    # --------------------------------------------------------------- study
    def spec(self) -> Dict[str, Any]:
        p = self.p
        T, S = self.pick(LARGE) if p.large else (self.span(p.T), self.span(p.S))
        start = self.int(0, 2)
        step = 2 if (p.gaps and self.chance(4)) else 1
        timesteps = [start + step * i for i in range(T)]
        horizon = timesteps[-1] + 1
        port_types = [
            {"id": f"pt{i}", "fields": [f"f{j}" for j in range(self.span(p.fields))]}
            for i in range(self.span(p.port_types))
        ]
        fields_of = {t["id"]: t["fields"] for t in port_types}
        models: List[Dict[str, Any]] = []
        for i in range(self.span(p.models)):
            m: Dict[str, Any] = {"id": f"m{i}", "params": self.params()}
            m["vars"] = self.variables(m)
            m["ports"] = []
            m["defs"] = []
            m["cons"] = []
            m["obj"] = None
            m["inv"] = None
            if port_types:
                for j in range(self.span(p.ports)):
                    t = self.pick(port_types)
                    m["ports"].append({"name": f"q{j}", "type": t["id"]})
                    # models of even rank mostly define, others mostly use
                    style = self.pick(
                        [["all", "none"][i % 2], ["none", "all"][i % 2], "mix"]
                    )
                    for f in t["fields"]:
                        defined = {"all": True, "none": False}.get(style)
                        if defined is None:
                            defined = self.flag()
                        if defined:
                            m["defs"].append(
                                {
                                    "port": f"q{j}",
                                    "field": f,
                                    "expr": self.lin(2, self.ctx(m)),
                                }
                            )
            models.append(m)
        by_id = {m["id"]: m for m in models}
        n = max(self.span(p.comps), len(models))
        comps = []
        for i in range(n):
            m = models[i] if i < len(models) else self.pick(models)
            comps.append(
                {
                    "id": f"c{i}",
                    "model": m["id"],
                    "node": self.chance(3),
                    "data": {q["name"]: self.series(q, horizon, S) for q in m["params"]},
                }
            )
        conns: List[List[str]] = []
        if port_types:
            ends = [(c, q) for c in comps for q in by_id[c["model"]]["ports"]]
            pairs = []
            for i, (a, pa) in enumerate(ends):
                for b, pb in ends[i + 1 :]:
                    if pa["type"] == pb["type"] and complementary(
                        by_id[a["model"]], pa, by_id[b["model"]], pb, fields_of
                    ):
                        pairs.append([a["id"], pa["name"], b["id"], pb["name"]])
            for pair in pairs:
                if not self.chance(3):
                    conns.append(
                        pair if self.flag() else [pair[2], pair[3], pair[0], pair[1]]
                    )
                    if self.chance(6):  # the same two ports, connected twice
                        conns.append(
                            list(conns[-1])
                            if self.flag()
                            else [pair[0], pair[1], pair[2], pair[3]]
                        )
        for m in models:
            fields = self.usable_fields(m, models, comps, conns, fields_of)
            c = self.ctx(m, fields=fields)
            for i in range(self.span(p.cons)):
                m["cons"].append(self.constraint(m, i, c))
            if p.objective and self.flag():
                m["obj"] = self.objective(m)
            if p.objective and self.chance(4) and p.invest:
                m["inv"] = self.objective(m)
        spec = {
            "port_types": port_types,
            "models": models,
            "comps": comps,
            "conns": conns,
            "timesteps": timesteps,
            "scenarios": S,
        }
        if p.large:
            while len(spec["timesteps"]) > 1 and size(spec) > BUDGET:
                spec["timesteps"] = spec["timesteps"][: len(spec["timesteps"]) // 2]
            while spec["scenarios"] > 1 and size(spec) > BUDGET:
                spec["scenarios"] //= 2
        if p.rename and self.chance(3):
            self.renamed(spec)
        if self.flag():
            spec["helpers"] = True
        return spec

    def renamed(self, spec: Dict[str, Any]) -> None:
        """Gives other names to everything, in place"""
        ids = self.draw(st.permutations(self.pick(COMPONENTS)))
        if len(spec["comps"]) <= len(ids):
            new = {c["id"]: n for c, n in zip(spec["comps"], ids)}
            for c in spec["comps"]:
                c["id"] = new[c["id"]]
            for k in spec["conns"]:
                k[0], k[2] = new[k[0]], new[k[2]]
        models = self.pick(MODELS)
        if len(spec["models"]) <= len(models):
            new = {m["id"]: n for m, n in zip(spec["models"], models)}
            for m in spec["models"]:
                m["id"] = new[m["id"]]
            for c in spec["comps"]:
                c["model"] = new[c["model"]]
        for m in spec["models"]:
            pool = list(self.draw(st.permutations(self.pick(NAMES))))
            if len(m["vars"]) + len(m["params"]) > len(pool):
                continue
            names = {}
            for x in m["vars"] + m["params"]:
                names[x["name"]] = pool.pop()
                x["name"] = names[x["name"]]
            rank = {True: 0, False: 0}
            order = list(names.values()) + ["k", "k_1", "k1"]
            for k in m["cons"]:
                # constraints, binding constraints and variables may share names
                i = rank[k["binding"]]
                rank[k["binding"]] += 1
                k["name"] = order[i] if i < len(order) else f"k{i}"
            rename_leaves(m, names)
            for c in spec["comps"]:
                if c["model"] == m["id"]:
                    c["data"] = {names.get(n, n): d for n, d in c["data"].items()}
        self.renamed_ports(spec)

    def renamed_ports(self, spec: Dict[str, Any]) -> None:
        """Other names of ports and fields"""
        fields, ports = self.pick(FIELDS), self.pick(PORTS)
        if any(len(t["fields"]) > len(fields) for t in spec["port_types"]) or any(
            len(m["ports"]) > len(ports) for m in spec["models"]
        ):
            return
        of_type = {}
        for t in spec["port_types"]:
            of_type[t["id"]] = dict(zip(t["fields"], self.draw(st.permutations(fields))))
            t["fields"] = [of_type[t["id"]][f] for f in t["fields"]]
        new: Dict[str, Dict[str, str]] = {}
        for m in spec["models"]:
            pool = self.draw(st.permutations(ports))
            new[m["id"]] = {q["name"]: n for q, n in zip(m["ports"], pool)}
            types = {q["name"]: of_type[q["type"]] for q in m["ports"]}
            rename_ports(m, new[m["id"]], types)
        model_of = {c["id"]: c["model"] for c in spec["comps"]}
        for k in spec["conns"]:
            k[1], k[3] = new[model_of[k[0]]][k[1]], new[model_of[k[2]]][k[3]]

    def usable_fields(
        self, m: Any, models: Any, comps: Any, conns: Any, fields_of: Any
    ) -> List[Dict[str, Any]]:
        out = []
        mine = [c["id"] for c in comps if c["model"] == m["id"]]
        for q in m["ports"]:
            counts = [
                sum((cid, q["name"]) in ((a, pa), (b, pb)) for a, pa, b, pb in conns)
                for cid in mine
            ]
            for f in fields_of[q["type"]]:
                exprs = [
                    d["expr"]
                    for mm in models
                    for d in mm["defs"]
                    if d["field"] == f
                    and any(
                        r["name"] == d["port"] and r["type"] == q["type"]
                        for r in mm["ports"]
                    )
                ]
                ops = set().union(*[ops_of(e) for e in exprs]) if exprs else set()
                out.append(
                    {
                        "port": q["name"],
                        "field": f,
                        "direct": bool(mine) and all(k == 1 for k in counts),
                        "has_eval": "eval" in ops,
                        "has_allsum": "allsum" in ops,
                    }
                )
        return out


def complementary(m1: Any, p1: Any, m2: Any, p2: Any, fields_of: Any) -> bool:
    d1 = {d["field"] for d in m1["defs"] if d["port"] == p1["name"]}
    d2 = {d["field"] for d in m2["defs"] if d["port"] == p2["name"]}
    fs = set(fields_of[p1["type"]])
    return not (d1 & d2) and (d1 | d2) == fs


def structure(e: Ast, m: Dict[str, Any]) -> Tuple[bool, bool]:
    """Time and scenario dependency of an expression of a model (no ports)"""
    op = e[0]
    if op == "lit":
        return False, False
    if op in ("par", "var"):
        for q in m["params"] if op == "par" else m["vars"]:
            if q["name"] == e[1]:
                return q["time"], q["scen"]
        raise KeyError(e[1])
    if op in ("neg", "shift", "tsum"):
        return structure(e[1], m)
    if op in ("eval", "allsum"):
        return False, structure(e[1], m)[1]
    if op == "expec":
        return structure(e[1], m)[0], False
    if op in ("field", "sumc"):
        raise KeyError(op)
    a, b = structure(e[1], m), structure(e[2], m)
    return a[0] or b[0], a[1] or b[1]


BUDGET = 4000
OPERATORS = {"shift", "eval", "tsum", "allsum", "expec"}


def weight(e: Ast, T: int, S: int) -> int:
    """Rough number of leaves once the operators are expanded"""
    op = e[0]
    if op == "allsum":
        return T * weight(e[1], T, S)
    if op == "tsum":
        return 6 * weight(e[1], T, S)
    if op == "expec":
        return S * weight(e[1], T, S)
    if op in ("shift", "eval"):
        return weight(e[1], T, S)
    return 1 + sum(weight(x, T, S) for x in e[1:] if isinstance(x, list))


def size(spec: Dict[str, Any]) -> int:
    T, S = len(spec["timesteps"]), spec["scenarios"]
    total = 0
    for c in spec["comps"]:
        m = next(m for m in spec["models"] if m["id"] == c["model"])
        total += len(m["vars"]) * T * S
        ports = 1 + max(
            [weight(d["expr"], T, S) for k in spec["models"] for d in k["defs"]] or [0]
        ) * len(spec["conns"])
        for k in m["cons"]:
            for e in k["cmp"][1:] if "cmp" in k else [k["expr"]]:
                total += T * S * weight(e, T, S) * (ports if "sumc" in str(e) or "field" in str(e) else 1)
        for k in ("obj", "inv"):
            if m.get(k) is not None:
                total += weight(m[k], T, S)
    return total


def rename_leaves(m: Dict[str, Any], names: Dict[str, str]) -> None:
    def new(e: Any) -> Any:
        if not isinstance(e, list):
            return e
        if e[0] in ("par", "var"):
            return [e[0], names.get(e[1], e[1])]
        return [new(x) for x in e]

    replace_expressions(m, new)


def rename_ports(m: Dict[str, Any], ports: Dict[str, str], fields: Dict[str, Dict[str, str]]) -> None:
    def new(e: Any) -> Any:
        if not isinstance(e, list):
            return e
        if e[0] in ("field", "sumc"):
            return [e[0], ports[e[1]], fields[e[1]][e[2]]]
        return [new(x) for x in e]

    replace_expressions(m, new)
    for d in m["defs"]:
        d["port"], d["field"] = ports[d["port"]], fields[d["port"]][d["field"]]
    for q in m["ports"]:
        q["name"] = ports[q["name"]]


def replace_expressions(m: Dict[str, Any], new: Any) -> None:
    for v in m["vars"]:
        v["lb"], v["ub"] = new(v["lb"]), new(v["ub"])
    for d in m["defs"]:
        d["expr"] = new(d["expr"])
    for k in m["cons"]:
        for part in ("cmp", "expr", "lb", "ub"):
            if k.get(part) is not None:
                k[part] = new(k[part])
    for part in ("obj", "inv"):
        if m.get(part) is not None:
            m[part] = new(m[part])


def specs(**kw: Any) -> Any:
    prof = Profile(**kw)

    @st.composite
    def strat(draw: Any) -> Dict[str, Any]:
        return G(draw, prof).spec()

    return strat()


def has_ops(spec: Dict[str, Any]) -> set:
    """All operators used by the constraints, definitions and objectives"""
    out = set()
    for m in spec["models"]:
        for c in m["cons"]:
            for e in c["cmp"][1:] if "cmp" in c else [c["expr"]]:
                out |= ops_of(e)
        for d in m["defs"]:
            out |= ops_of(d["expr"])
        for k in ("obj", "inv"):
            if m.get(k) is not None:
                out |= ops_of(m[k])
    return out
