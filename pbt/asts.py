"""
JSON expression trees, their text form, their construction with the Python API,
and a reader of the code's expression trees.  Forms:

 ["lit", v] ["var", n] ["par", n] ["neg", e] ["add", a, b] ["sub", a, b]
 ["mul", a, b] ["div", a, b] ["shift", e, k] ["eval", e, k] ["tsum", e, k1, k2]
 ["allsum", e] ["expec", e] ["field", port, field] ["sumc", port, field]
 ["cmp", op, a, b]   op in "<=", ">=", "="
"""
from typing import Any, List

Ast = List[Any]
UNARY = ("neg", "allsum", "expec")
BINARY = ("add", "sub", "mul", "div")
LEAVES = ("lit", "var", "par", "field", "sumc", "cvar", "cpar", "pvar", "ppar")


def children(e: Ast) -> List[Ast]:
    op = e[0]
    if op in LEAVES:
        return []
    if op in UNARY:
        return [e[1]]
    if op in BINARY:
        return [e[1], e[2]]
    if op == "cmp":
        return [e[2], e[3]]
    if op in ("shift", "eval"):
        return [e[1], e[2]]
    if op == "tsum":
        return [e[1], e[2], e[3]]
    raise KeyError(op)


def walk(e: Ast):
    yield e
    for c in children(e):
        yield from walk(c)


def ops_of(e: Ast) -> set:
    return {n[0] for n in walk(e)}


def depth(e: Ast) -> int:
    return 1 + max([depth(c) for c in children(e)], default=0)


# ------------------------------------------------------------------ text


def number(v: float) -> str:
    assert v >= 0
    if float(v).is_integer():
        return str(int(v))
    s = f"{v:.10f}".rstrip("0")
    assert abs(float(s) - v) < 1e-12, v
    return s


def _shift_text(k: Ast, sp: str) -> str:
    if k[0] == "lit":
        if k[1] == 0:
            return "t"
        sign = "+" if k[1] > 0 else "-"
        return f"t{sp}{sign}{sp}{number(abs(k[1]))}"
    if k[0] == "par":
        return f"t{sp}+{sp}{k[1]}"
    if k[0] == "neg" and k[1][0] == "par":
        return f"t{sp}-{sp}{k[1][1]}"
    if k[0] == "add" and _simple(k[1]) and _plain_atom(k[2]):
        return f"{_shift_text(k[1], sp)}{sp}+{sp}{_atom(k[2])}"
    if k[0] == "sub" and _simple(k[1]) and _plain_atom(k[2]):
        return f"{_shift_text(k[1], sp)}{sp}-{sp}{_atom(k[2])}"
    return f"t{sp}+{sp}({to_text(k)})"


def _plain_atom(k: Ast) -> bool:
    return k[0] == "par" or (k[0] == "lit" and k[1] >= 0)


def _atom(k: Ast) -> str:
    return k[1] if k[0] == "par" else number(k[1])


def _simple(k: Ast) -> bool:
    return (
        (k[0] == "lit" and k[1] != 0)
        or k[0] == "par"
        or (k[0] == "neg" and k[1][0] == "par")
        or (k[0] in ("add", "sub") and _simple(k[1]) and _plain_atom(k[2]))
    )


PREC = {"cmp": 0, "add": 1, "sub": 1, "mul": 2, "div": 2, "neg": 3}


def prec(e: Ast) -> int:
    if e[0] == "lit" and e[1] < 0:
        return 3
    return PREC.get(e[0], 4)


def to_text(e: Ast, full: bool = False, sp: str = " ") -> str:
    """
    Text of an expression; with `full`, every operation is parenthesised, else
    only where the usual precedence rules require it.
    """

    def sub(x: Ast, at_least: int) -> str:
        s = to_text(x, full, sp)
        if prec(x) < at_least or (full and prec(x) < 4):
            return f"({s})"
        return s

    op = e[0]
    if op == "lit":
        return number(e[1]) if e[1] >= 0 else f"-{number(-e[1])}"
    if op in ("var", "par"):
        return e[1]
    if op == "neg":
        return f"-{sub(e[1], 3)}"
    if op in BINARY:
        sign = {"add": "+", "sub": "-", "mul": "*", "div": "/"}[op]
        p = PREC[op]
        return f"{sub(e[1], p)}{sp}{sign}{sp}{sub(e[2], p + 1)}"
    if op == "cmp":
        return f"{sub(e[2], 1)}{sp}{e[1]}{sp}{sub(e[3], 1)}"
    if op == "shift":
        inner = to_text(e[1], full, sp)
        if e[1][0] not in ("var", "par") or full:
            inner = f"({inner})"
        return f"{inner}[{_shift_text(e[2], sp)}]"
    if op == "eval":
        inner = to_text(e[1], full, sp)
        if e[1][0] not in ("var", "par") or full:
            inner = f"({inner})"
        return f"{inner}[{to_text(e[2], full, sp)}]"
    if op == "tsum":
        return (
            f"sum({_shift_text(e[2], sp)}{sp}..{sp}{_shift_text(e[3], sp)},{sp}"
            f"{to_text(e[1], full, sp)})"
        )
    if op == "allsum":
        return f"sum({to_text(e[1], full, sp)})"
    if op == "expec":
        return f"expec({to_text(e[1], full, sp)})"
    if op == "field":
        return f"{e[1]}.{e[2]}"
    if op == "sumc":
        return f"sum_connections({e[1]}.{e[2]})"
    raise KeyError(op)


# ------------------------------------------------------------ Python API


def to_expr(e: Ast) -> Any:
    from andromede.expression import literal, param, var
    from andromede.expression.expression import port_field

    op = e[0]
    if op == "lit":
        return literal(float(e[1]))
    if op == "var":
        return var(e[1])
    if op == "par":
        return param(e[1])
    if op == "field":
        return port_field(e[1], e[2])
    if op == "sumc":
        return port_field(e[1], e[2]).sum_connections()
    if op in ("cvar", "cpar", "pvar", "ppar"):  # bound to a component: only to misuse
        from andromede.expression import expression as ex

        if op == "cvar":
            return ex.comp_var(e[1], e[2])
        if op == "cpar":
            return ex.comp_param(e[1], e[2])
        make = ex.problem_var if op == "pvar" else ex.problem_param
        return make(e[1], e[2], ex.TimeShift(0), ex.CurrentScenarioIndex())
    cs = [to_expr(c) for c in children(e)]
    if op == "neg":
        return -cs[0]
    if op == "add":
        return cs[0] + cs[1]
    if op == "sub":
        return cs[0] - cs[1]
    if op == "mul":
        return cs[0] * cs[1]
    if op == "div":
        return cs[0] / cs[1]
    if op == "shift":
        return cs[0].shift(cs[1])
    if op == "eval":
        return cs[0].eval(cs[1])
    if op == "tsum":
        return cs[0].time_sum(cs[1], cs[2])
    if op == "allsum":
        return cs[0].time_sum()
    if op == "expec":
        return cs[0].expec()
    if op == "cmp":
        if e[1] == "<=":
            return cs[0] <= cs[1]
        if e[1] == ">=":
            return cs[0] >= cs[1]
        return cs[0] == cs[1]
    raise KeyError(op)


def from_expr(node: Any) -> Ast:
    """Reads an expression tree of the code under test."""
    kind = type(node).__name__
    if kind == "LiteralNode":
        return ["lit", node.value]
    if kind == "VariableNode":
        return ["var", node.name]
    if kind == "ParameterNode":
        return ["par", node.name]
    if kind == "ComponentVariableNode":
        return ["cvar", node.component_id, node.name]
    if kind == "ComponentParameterNode":
        return ["cpar", node.component_id, node.name]
    if kind == "NegationNode":
        return ["neg", from_expr(node.operand)]
    if kind == "AdditionNode":
        ops = [from_expr(o) for o in node.operands]
        res = ops[0] if ops else ["lit", 0]
        for o in ops[1:]:
            res = ["add", res, o]
        return res
    if kind == "MultiplicationNode":
        return ["mul", from_expr(node.left), from_expr(node.right)]
    if kind == "DivisionNode":
        return ["div", from_expr(node.left), from_expr(node.right)]
    if kind == "ComparisonNode":
        op = {"LESS_THAN": "<=", "GREATER_THAN": ">=", "EQUAL": "="}[
            node.comparator.value
        ]
        return ["cmp", op, from_expr(node.left), from_expr(node.right)]
    if kind == "TimeShiftNode":
        return ["shift", from_expr(node.operand), from_expr(node.time_shift)]
    if kind == "TimeEvalNode":
        return ["eval", from_expr(node.operand), from_expr(node.eval_time)]
    if kind == "TimeSumNode":
        return [
            "tsum",
            from_expr(node.operand),
            from_expr(node.from_time),
            from_expr(node.to_time),
        ]
    if kind == "AllTimeSumNode":
        return ["allsum", from_expr(node.operand)]
    if kind == "ScenarioOperatorNode":
        return [{"Expectation": "expec", "Variance": "variance"}[node.name], from_expr(node.operand)]
    if kind == "PortFieldNode":
        return ["field", node.port_name, node.field_name]
    if kind == "PortFieldAggregatorNode":
        assert node.aggregator == "PortSum", node
        return ["sumc", node.operand.port_name, node.operand.field_name]
    raise TypeError(f"unknown node {kind}")


# ------------------------------------------- numeric value of an expression


def value(e: Ast, env: Any, t: int = 0, s: int = 0) -> float:
    """
    Numeric value at (t, s).  env: object with
      T, S, var(name, t, s), par(name, t, s), field(port, field, t, s)
    """
    op = e[0]
    if op == "lit":
        return float(e[1])
    if op == "var":
        return env.var(e[1], t % env.T, s)
    if op == "par":
        return env.par(e[1], t % env.T, s)
    if op in ("field", "sumc"):
        return env.field(op, e[1], e[2], t % env.T, s)
    if op == "neg":
        return -value(e[1], env, t, s)
    if op == "add":
        return value(e[1], env, t, s) + value(e[2], env, t, s)
    if op == "sub":
        return value(e[1], env, t, s) - value(e[2], env, t, s)
    if op == "mul":
        return value(e[1], env, t, s) * value(e[2], env, t, s)
    if op == "div":
        return value(e[1], env, t, s) / value(e[2], env, t, s)
    if op == "shift":
        return value(e[1], env, t + as_int(value(e[2], env, t, s)), s)
    if op == "eval":
        return value(e[1], env, as_int(value(e[2], env, t, s)), s)
    if op == "tsum":
        a = as_int(value(e[2], env, t, s))
        b = as_int(value(e[3], env, t, s))
        return sum(value(e[1], env, t + k, s) for k in range(a, b + 1))
    if op == "allsum":
        return sum(value(e[1], env, k, s) for k in range(env.T))
    if op == "expec":
        return sum(value(e[1], env, t, k) for k in range(env.S)) / env.S
    raise KeyError(op)


def as_int(x: float) -> int:
    r = round(x)
    if abs(r - x) > 1e-9:
        raise ValueError(f"{x} is not an integer")
    return int(r)
