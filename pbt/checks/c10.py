"""Degree and index analyses; invalid models are refused."""
from hypothesis import strategies as st

from .. import asts, exprgen, gen, study
from ..runner import Test, Violation, rejected

PROPERTY = "C10"
RULE = (
    "random expressions: degree, linearity, constancy, time and scenario dependency "
    "computed by the code are compared with an independent computation; random "
    "models with one mistake (variable in a bound, comparison together with bounds, "
    "product or quotient of variables, invalid port definition) must be refused at "
    "the latest when the problem is built. Non-trivial: two operators or more, or an "
    "invalid model"
)


def degree(e):
    """None: undefined"""
    op = e[0]
    if op in ("lit", "par"):
        return 0
    if op in ("var", "field", "sumc"):
        return 1
    if op in ("neg", "shift", "eval", "tsum", "allsum", "expec"):
        return degree(e[1])
    if op == "cmp":
        a, b = degree(e[2]), degree(e[3])
    else:
        a, b = degree(e[1]), degree(e[2])
    if a is None or b is None:
        return None
    if op == "mul":
        return a + b
    if op == "div":
        return a if b == 0 else None
    return max(a, b)


@st.composite
def degrees(draw):
    x = exprgen.X(draw, names=False)
    e = x.expr(4)
    if x.pick([False, False, True]):
        e = ["cmp", x.pick(["<=", ">=", "="]), e, x.expr(2)]
    return {"expr": e, "vars": x.vars, "params": x.params}


def run_degree(case, note):
    from andromede.expression.degree import compute_degree, is_constant, is_linear

    e = case["expr"]
    expected = degree(e)
    node = asts.to_expr(e)
    if expected is None:
        rejected(lambda: compute_degree(node), f"degree of a division by a variable {e}")
        rejected(lambda: is_linear(node), f"linearity of a division by a variable {e}")
        note("+division by a variable")
        return
    if compute_degree(node) != expected:
        raise Violation(f"degree of {e}: {compute_degree(node)}, expected {expected}")
    if bool(is_linear(node)) != (expected <= 1):
        raise Violation(f"linearity of {e}: {is_linear(node)}, degree {expected}")
    if bool(is_constant(node)) != (expected == 0):
        raise Violation(f"constancy of {e}: {is_constant(node)}, degree {expected}")
    note(f"degree {min(expected, 3)}")
    if len([n for n in asts.walk(e) if n[0] not in asts.LEAVES]) >= 2:
        note("+two operators or more")


@st.composite
def indexed(draw):
    x = exprgen.X(draw, names=False)
    x.ports = False
    e = x.expr(4)
    return {
        "expr": e,
        "params": {n: [draw(st.booleans()), draw(st.booleans())] for n in x.params},
        "vars": {n: [draw(st.booleans()), draw(st.booleans())] for n in x.vars},
        "comp": draw(st.booleans()),
    }


def run_indexed(case, note):
    from andromede.expression.context_adder import add_component_context
    from andromede.expression.indexing import (
        IndexingStructureProvider,
        compute_indexation,
    )
    from andromede.expression.indexing_structure import IndexingStructure

    class Provider(IndexingStructureProvider):
        def get_parameter_structure(self, name):
            return IndexingStructure(*case["params"][name])

        def get_variable_structure(self, name):
            return IndexingStructure(*case["vars"][name])

        def get_component_variable_structure(self, component_id, name):
            return IndexingStructure(*case["vars"][name])

        def get_component_parameter_structure(self, component_id, name):
            return IndexingStructure(*case["params"][name])

    def items(d):
        return [{"name": n, "time": v[0], "scen": v[1]} for n, v in d.items()]

    m = {"params": items(case["params"]), "vars": items(case["vars"])}
    expected = gen.structure(case["expr"], m)
    node = asts.to_expr(case["expr"])
    if case["comp"]:
        node = add_component_context("c", node)
    got = compute_indexation(node, Provider())
    if (bool(got.time), bool(got.scenario)) != expected:
        raise Violation(f"dependencies of {case['expr']}: {got}, expected {expected}")
    note(f"time {expected[0]} scenario {expected[1]}")
    if len([n for n in asts.walk(case["expr"]) if n[0] not in asts.LEAVES]) >= 2:
        note("+two operators or more")


# ---------------------------------------------------------------- invalid

KINDS = [
    "var-lb",
    "var-ub",
    "con-lb",
    "con-ub",
    "cmp-and-lb",
    "cmp-and-ub",
    "product",
    "division",
    "obj-product",
    "obj-division",
    "obj-cmp",
    "cmp-inside",
    "bound-cmp",
    "def-cmp",
    "def-cmp",
    "def-field",
    "def-field",
    "def-field",
    "def-sum",
    "def-sum",
    "def-cvar",
    "def-cpar",
    "def-pvar",
    "def-ppar",
    "def-port",
    "def-name",
    "two-ports",
    "lb-inf",
    "ub-inf",
]


WRAPS = [
    "none", "neg", "add", "ladd", "mul", "lmul", "sub", "lsub", "div", "rdiv",
    "shift", "eval", "expec", "allsum", "tsum", "at-shift", "at-eval", "from", "to",
]


@st.composite
def invalid(draw):
    g = gen.G(draw, gen.Profile(T=(1, 2), S=(1, 2), models=(1, 1), comps=(1, 1), vars=(2, 3), cons=(0, 1), port_types=(1, 1)))
    spec = g.spec()
    m = spec["models"][0]
    c = g.ctx(m, time_ops=False, scen_ops=False)
    names = [v["name"] for v in m["vars"]]
    return {
        "spec": spec,
        "kind": g.pick(KINDS),
        "x": g.pick(names),
        "y": g.pick(names),
        "wrap": [g.pick(WRAPS) for _ in range(g.int(0, 3))],
        "lin": g.lin(2, c),
        "k": g.pick(gen.NZ),
    }


def wrap(e, how, k, x):
    for w in how:
        if w == "neg":
            e = ["neg", e]
        elif w == "add":
            e = ["add", ["lit", k], e]
        elif w == "ladd":
            e = ["add", e, ["lit", k]]
        elif w == "mul":
            e = ["mul", ["lit", k], e]
        elif w == "lmul":
            e = ["mul", e, ["lit", k]]
        elif w == "lsub":
            e = ["sub", e, ["lit", k]]
        elif w == "rdiv":
            e = ["div", ["lit", k], e]
        elif w == "eval":
            e = ["eval", e, ["lit", 0]]
        elif w == "sub":
            e = ["sub", ["lit", k], e]
        elif w == "div":
            e = ["div", e, ["lit", k]]
        elif w in ("at-shift", "at-eval", "from", "to"):
            # in the index of an operator over time
            v = ["var", x]
            e = {
                "at-shift": ["shift", v, e],
                "at-eval": ["eval", v, e],
                "from": ["tsum", v, e, ["lit", 0]],
                "to": ["tsum", v, ["lit", 0], e],
            }[w]
        elif w == "shift":
            e = ["shift", e, ["lit", 1]]
        elif w == "expec":
            e = ["expec", e]
        elif w == "allsum":
            e = ["allsum", e]
        elif w == "tsum":
            e = ["tsum", e, ["lit", 0], ["lit", 1]]
    return e


def run_invalid(case, note):
    import copy

    spec = copy.deepcopy(case["spec"])
    m = spec["models"][0]
    kind, k = case["kind"], case["k"]
    x, y = ["var", case["x"]], ["var", case["y"]]
    e = wrap(x, case["wrap"], k, case["x"])
    # known to be accepted without the mistake
    study.build_models(spec)
    inf = float("inf")
    if kind in ("var-lb", "var-ub"):
        m["vars"][0][kind[-2:]] = e
        m["vars"][0]["type"] = "continuous"
    elif kind in ("con-lb", "con-ub"):
        con = {"name": "bad", "binding": False, "expr": case["lin"], "lb": None, "ub": None}
        con[kind[-2:]] = e
        m["cons"].append(con)
    elif kind == "lb-inf":
        m["cons"].append({"name": "bad", "binding": False, "expr": case["lin"], "lb": ["lit", inf], "ub": None})
    elif kind == "ub-inf":
        m["cons"].append({"name": "bad", "binding": False, "expr": case["lin"], "lb": None, "ub": ["lit", -inf]})
    elif kind in ("cmp-and-lb", "cmp-and-ub"):
        con = {
            "name": "bad",
            "binding": True,
            "expr": ["cmp", "<=", case["lin"], ["lit", k]],
            "lb": None,
            "ub": None,
        }
        con[kind[-2:]] = ["lit", 1]
        m["cons"].append(con)
    elif kind == "product":
        # a variable alone never cancels out
        bad = wrap(["mul", x, ["add", y, ["lit", k]]], case["wrap"], k, case["x"])
        m["cons"].append({"name": "bad", "binding": False, "cmp": ["<=", bad, ["lit", 1]]})
    elif kind == "division":
        bad = wrap(["div", ["lit", k], ["add", y, ["lit", k]]], case["wrap"], k, case["x"])
        m["cons"].append({"name": "bad", "binding": False, "cmp": ["<=", bad, ["lit", 1]]})
    elif kind == "obj-product":
        m["obj"] = wrap(["mul", x, ["add", y, ["lit", k]]], case["wrap"], k, case["x"])
    elif kind == "obj-division":
        m["obj"] = wrap(["div", ["lit", k], ["add", y, ["lit", k]]], case["wrap"], k, case["x"])
    elif kind == "obj-cmp":
        m["obj"] = wrap(["cmp", "<=", x, ["lit", k]], case["wrap"], k, case["x"])
    elif kind == "cmp-inside":
        inside = ["add", ["cmp", "<=", x, ["lit", k]], y]
        m["cons"].append({"name": "bad", "binding": False, "expr": wrap(inside, case["wrap"], k, case["x"]), "lb": None, "ub": ["lit", 1]})
    elif kind == "bound-cmp":
        bad = wrap(["cmp", "<=", ["lit", 1], ["lit", k]], case["wrap"], k, case["x"])
        m["cons"].append({"name": "bad", "binding": False, "expr": case["lin"], "lb": None, "ub": bad})
    elif kind == "two-ports":
        m["ports"].append(dict(m["ports"][0]))
    else:
        q = m["ports"][0]
        f = spec["port_types"][0]["fields"][0]
        m["defs"] = [d for d in m["defs"] if (d["port"], d["field"]) != (q["name"], f)]
        bad = {
            "def-cmp": wrap(["cmp", "<=", x, ["lit", 1]], case["wrap"], k, case["x"]),
            "def-cvar": wrap(["cvar", "other", case["x"]], case["wrap"], k, case["x"]),
            "def-cpar": wrap(["cpar", "other", "p0"], case["wrap"], k, case["x"]),
            "def-pvar": wrap(["pvar", "other", case["x"]], case["wrap"], k, case["x"]),
            "def-ppar": wrap(["ppar", "other", "p0"], case["wrap"], k, case["x"]),
            "def-field": wrap(["field", q["name"], f], case["wrap"], k, case["x"]),
            "def-sum": wrap(["add", x, ["sumc", q["name"], f]], case["wrap"], k, case["x"]),
        }.get(kind, e)
        m["defs"].append(
            {
                "port": "unknown" if kind == "def-port" else q["name"],
                "field": "unknown" if kind == "def-name" else f,
                "expr": bad,
            }
        )
    rejected(
        lambda: study.solve_problem_api(spec).export_as_lp(), f"invalid model ({kind})"
    )
    note(f"+invalid: {kind}")


TESTS = [
    Test("degree", degrees, run_degree, 2400, 60000),
    Test("indexing", indexed, run_indexed, 2400, 60000),
    Test("invalid", invalid, run_invalid, 1600, 20000),
]
