"""Expression objects: operators, copies, instantiation, equality, printing."""
import copy as pycopy

from hypothesis import strategies as st

from .. import asts, exprgen
from ..runner import Discard, Test, Violation, rejected

PROPERTY = "C09"
RULE = (
    "random expression trees built with the Python operators (numbers on either "
    "side); their evaluation, copy, parameter substitution, association to a "
    "component and printed form must keep the value given by an independent "
    "evaluator and leave the original untouched; equality holds for two builds of "
    "the same tree and fails after any single change of the tree. Non-trivial: at "
    "least two operators"
)


@st.composite
def trees(draw, depth=4, time=True, ports=True, scen=True):
    x = exprgen.X(draw, names=False)
    x.time, x.ports, x.scen = time, ports, scen
    return {
        "expr": x.expr(depth),
        "vars": x.vars,
        "params": x.params,
        "ints": x.ints,
        "numbers": draw(st.booleans()),
    }


def build(e, numbers):
    """With `numbers`, literals are given as plain numbers whenever Python allows"""
    if not numbers:
        return asts.to_expr(e)
    from andromede.expression import ExpressionNode, literal

    def raw(x):
        if x[0] == "lit":
            v = x[1]
            return int(v) if float(v).is_integer() else float(v)
        return rec(x)

    def rec(x):
        op = x[0]
        if op in asts.BINARY:
            a, b = raw(x[1]), raw(x[2])
            if not isinstance(a, ExpressionNode) and not isinstance(b, ExpressionNode):
                b = literal(float(b))
            return {
                "add": lambda: a + b,
                "sub": lambda: a - b,
                "mul": lambda: a * b,
                "div": lambda: a / b,
            }[op]()
        if op == "neg":
            return -rec(x[1])
        if op == "shift":
            return rec(x[1]).shift(raw(x[2]))
        if op == "eval":
            return rec(x[1]).eval(raw(x[2]))
        if op == "tsum":
            return rec(x[1]).time_sum(raw(x[2]), raw(x[3]))
        if op == "allsum":
            return rec(x[1]).time_sum()
        if op == "expec":
            return rec(x[1]).expec()
        return asts.to_expr(x)

    return rec(e)


def same(a, b, env, what):
    try:
        diff = exprgen.same_value(a, b, env)
    except (KeyError, ValueError) as err:
        raise Violation(f"{what} of {b}: {a} ({type(err).__name__} {err})")
    if diff:
        raise Violation(f"{what} of {b}: {diff} ({a})")


def notes(e, note):
    ops = [n[0] for n in asts.walk(e) if n[0] not in asts.LEAVES]
    for op in set(ops):
        note(f"operator {op}")
    if len(ops) >= 2:
        note("+two operators or more")


def plain(e):
    """Names instead of component names"""
    if e[0] in ("cvar", "cpar"):
        return [e[0][1:], e[2]]
    return [e[0]] + [plain(c) if isinstance(c, list) else c for c in e[1:]]


def run_build(case, note):
    from andromede.expression import copy_expression
    from andromede.expression.context_adder import add_component_context
    from andromede.expression.equality import expressions_equal

    e, env = case["expr"], exprgen.Env(ints=case["ints"])
    node = build(e, case["numbers"])
    tree = asts.from_expr(node)
    same(tree, e, env, "construction")
    before = pycopy.deepcopy(tree)

    copied = copy_expression(node)
    if asts.from_expr(copied) != tree:
        raise Violation(f"copy of {tree} is {asts.from_expr(copied)}")
    if not expressions_equal(copied, node) or not expressions_equal(node, copied):
        raise Violation(f"{tree} is not equal to its copy")

    placed = add_component_context("comp", node)
    in_comp = asts.from_expr(placed)
    names = [n for n in _walk(in_comp) if n[0] in ("var", "par", "cvar", "cpar")]
    if any(n[0] in ("var", "par") or n[1] != "comp" for n in names):
        raise Violation(f"component missing in {in_comp}")
    if plain(in_comp) != tree:
        raise Violation(f"instance of {tree} is {in_comp}")
    if names:
        rejected(
            lambda: add_component_context("other", placed), f"second instance of {tree}"
        )
    # the operands are left untouched by the operators
    a = build(e, case["numbers"])
    for f in (lambda: a + node, lambda: a - node, lambda: node - a, lambda: -a, lambda: a * node, lambda: 1 - a, lambda: a + 1, lambda: 1 + a):
        f()
    if asts.from_expr(node) != before or asts.from_expr(a) != before:
        raise Violation(f"{before} was modified into {asts.from_expr(node)}")
    same(asts.from_expr(a - node), ["sub", e, e], env, "difference")
    same(asts.from_expr(2 - node), ["sub", ["lit", 2], e], env, "difference")
    same(asts.from_expr(2 / node), ["div", ["lit", 2], e], env, "quotient")
    same(asts.from_expr(node + 3), ["add", ["lit", 3], e], env, "sum")
    notes(e, note)


def _walk(e):
    yield e
    for c in e[1:]:
        if isinstance(c, list):
            yield from _walk(c)


# ----------------------------------------------------------- evaluation


def run_evaluate(case, note):
    from andromede.expression import EvaluationContext, evaluate, print_expr
    from andromede.expression.evaluate_parameters import (
        ParameterValueProvider,
        resolve_parameters,
    )
    from andromede.expression.parsing.parse_expression import (
        ModelIdentifiers,
        parse_expression,
    )

    e, env = case["expr"], exprgen.Env(ints=case["ints"])
    node = build(e, case["numbers"])
    expected = exprgen.safe(e, env, 0, 0)
    context = EvaluationContext(
        variables={n: env.var(n, 0, 0) for n in case["vars"]},
        parameters={n: float(env.par(n, 0, 0)) for n in case["params"]},
    )

    def value(n):
        try:
            v = evaluate(n, context)
        except (ZeroDivisionError, OverflowError):
            return None
        return v if abs(v) < 1e12 else None

    def compare(v, what):
        if (v is None) != (expected is None):
            raise Violation(f"{what} of {e}: {v}, expected {expected}")
        if v is not None and abs(v - expected) > 1e-6 * (1 + abs(v) + abs(expected)):
            raise Violation(f"{what} of {e}: {v}, expected {expected}")

    compare(value(node), "evaluation")

    class Provider(ParameterValueProvider):
        def get_parameter_value(self, name):
            return float(env.par(name, 0, 0))

        def get_component_parameter_value(self, component_id, name):
            raise NotImplementedError()

    resolved = resolve_parameters(node, Provider())
    tree = asts.from_expr(resolved)
    if any(n[0] == "par" for n in asts.walk(tree)):
        raise Violation(f"parameters left in {tree}")
    compare(value(resolved), "evaluation with parameters replaced")
    text = print_expr(node)
    parsed = parse_expression(
        text, ModelIdentifiers(set(case["vars"]), set(case["params"]))
    )
    compare(value(parsed), f"printed form {text!r}")
    notes(e, note)


# ------------------------------------------------------------- equality


@st.composite
def changed(draw):
    x = exprgen.X(draw, names=False)
    e = x.expr(4)
    if x.pick([False, False, True]):
        e = ["cmp", x.pick(["<=", ">=", "="]), e, x.expr(2)]
    paths = list(positions(e))
    path = draw(st.sampled_from(paths))
    other = replace(e, path, lambda n: change(x, n))
    return {"expr": e, "other": other}


def positions(e, path=()):
    yield path
    for i, c in enumerate(e):
        if isinstance(c, list):
            yield from positions(c, path + (i,))


def replace(e, path, f):
    if not path:
        return f(e)
    out = list(e)
    out[path[0]] = replace(e[path[0]], path[1:], f)
    return out


def change(x, n):
    op = n[0]
    if op == "lit":
        return x.pick([["lit", n[1] + 1], ["lit", n[1] * 1.001 + 0.01], ["par", x.params[0]]])
    if op == "var":
        return x.pick([["var", n[1] + "_"], ["par", n[1]], ["lit", 1]])
    if op == "par":
        return x.pick([["par", n[1] + "_"], ["var", n[1]], ["lit", 1]])
    if op in ("field", "sumc"):
        return x.pick(
            [
                [op, n[1] + "_", n[2]],
                [op, n[1], n[2] + "_"],
                ["sumc" if op == "field" else "field", n[1], n[2]],
            ]
        )
    if op == "cmp":
        return ["cmp", {"<=": ">=", ">=": "=", "=": "<="}[n[1]], n[2], n[3]]
    if op == "neg":
        return n[1] if n[1][0] != "neg" else ["allsum", n[1]]
    if op in ("allsum", "expec"):
        return [{"allsum": "expec", "expec": "allsum"}[op], n[1]]
    if op in ("add", "sub"):
        return ["mul", n[1], n[2]]
    if op in ("mul", "div"):
        return [{"mul": "div", "div": "mul"}[op], n[1], n[2]]
    if op in ("shift", "eval"):
        return [{"shift": "eval", "eval": "shift"}[op], n[1], n[2]]
    if op == "tsum":
        return x.pick(
            [
                ["tsum", n[1], n[2], ["add", n[3], ["lit", 1]]],
                ["tsum", n[1], ["add", n[2], ["lit", 1]], n[3]],
                ["allsum", n[1]],
            ]
        )
    raise KeyError(op)


def run_changed(case, note):
    from andromede.expression.equality import expressions_equal

    a, b = case["expr"], case["other"]
    x, x2, y = asts.to_expr(a), asts.to_expr(a), asts.to_expr(b)
    if not expressions_equal(x, x2):
        raise Violation(f"two builds of {a} are not equal")
    if asts.from_expr(x) == asts.from_expr(y):
        raise Discard()
    if expressions_equal(x, y) or expressions_equal(y, x):
        raise Violation(f"{a} is considered equal to {b}")
    notes(a, note)


@st.composite
def tolerance(draw):
    x = exprgen.X(draw, names=False)
    e = x.expr(3)
    return {
        "expr": e,
        "tol": draw(st.sampled_from([0.1, 0.01, 1e-6])),
        "rel": draw(st.booleans()),
        "factor": draw(st.sampled_from([0.5, 0.9, 2, 10])),
        "sign": draw(st.sampled_from([1, -1])),
    }


def run_tolerance(case, note):
    from andromede.expression.equality import expressions_equal

    e, tol = case["expr"], case["tol"]

    def moved(n):
        if n[0] == "lit":
            delta = tol * case["factor"] * case["sign"]
            return ["lit", n[1] * (1 + delta) if case["rel"] else n[1] + delta]
        return [moved(c) if isinstance(c, list) else c for c in n]

    other = moved(e)
    if other == e:
        raise Discard()
    kwargs = {"rel_tol": tol} if case["rel"] else {"abs_tol": tol}
    expected = case["factor"] < 1
    got = expressions_equal(asts.to_expr(e), asts.to_expr(other), **kwargs)
    if got != expected:
        raise Violation(
            f"{e} equal to {other} with tolerance {kwargs}: {got}, expected {expected}"
        )
    note(f"+{'within' if expected else 'out of'} tolerance")


# --------------------------------------------- leaves, variables, constraints

FIELDS = {
    "lit": ["value"],
    "var": ["name"],
    "par": ["name"],
    "cvar": ["comp", "name"],
    "cpar": ["comp", "name"],
    "pvar": ["comp", "name", "time", "scen"],
    "ppar": ["comp", "name", "time", "scen"],
    "field": ["port", "field"],
    "sumc": ["port", "field"],
}
VALUES = {
    "value": [0, 1, 2.5, -1, 1e-9],
    "name": ["x", "y", "X"],
    "comp": ["a", "b", "x"],
    "time": [["none"], ["shift", 0], ["shift", 1], ["step", 0], ["step", 1]],
    "scen": [["none"], ["current"], ["one", 0], ["one", 1]],
    "port": ["p", "q"],
    "field": ["f", "g", "p"],
}


@st.composite
def leaves(draw):
    def leaf():
        kind = draw(st.sampled_from(sorted(FIELDS)))
        return [kind] + [draw(st.sampled_from(VALUES[f])) for f in FIELDS[kind]]

    a = leaf()
    what = draw(st.sampled_from(["same", "one", "one", "any"]))
    b = list(a)
    if what == "one":
        i = draw(st.integers(1, len(a) - 1))
        b[i] = draw(st.sampled_from(VALUES[FIELDS[a[0]][i - 1]]))
    elif what == "any":
        b = leaf()
    return {"a": a, "b": b, "wraps": draw(st.lists(st.sampled_from(["neg", "left", "right", "sum", "shift", "bound", "expec"]), max_size=3))}


def make_leaf(x):
    from andromede.expression import expression as ex

    kind, args = x[0], x[1:]
    if kind == "lit":
        return ex.literal(float(args[0]))
    if kind == "var":
        return ex.var(args[0])
    if kind == "par":
        return ex.param(args[0])
    if kind == "cvar":
        return ex.comp_var(*args)
    if kind == "cpar":
        return ex.comp_param(*args)
    if kind == "field":
        return ex.PortFieldNode(*args)
    if kind == "sumc":
        return ex.PortFieldNode(*args).sum_connections()
    comp, name, time, scen = args
    t = {"none": ex.NoTimeIndex, "shift": ex.TimeShift, "step": ex.TimeStep}[time[0]](*time[1:])
    s = {
        "none": ex.NoScenarioIndex,
        "current": ex.CurrentScenarioIndex,
        "one": ex.OneScenarioIndex,
    }[scen[0]](*scen[1:])
    return (ex.problem_var if kind == "pvar" else ex.problem_param)(comp, name, t, s)


def wrap(node, how):
    from andromede.expression import expression as ex

    other = ex.var("z")
    return {
        "neg": lambda: -node,
        "left": lambda: node - other,
        "right": lambda: other * node,
        "sum": lambda: node.time_sum(),
        "shift": lambda: node.shift(1),
        "bound": lambda: other.time_sum(node, 1),
        "expec": lambda: node.expec(),
    }[how]()


def run_leaves(case, note):
    from andromede.expression import copy_expression
    from andromede.expression.equality import expressions_equal

    a, b = make_leaf(case["a"]), make_leaf(case["b"])
    for how in case["wraps"]:
        a, b = wrap(a, how), wrap(b, how)
    expected = case["a"] == case["b"]
    for x, y in ((a, b), (b, a)):
        if bool(expressions_equal(x, y)) != expected:
            raise Violation(f"{case['a']} and {case['b']} within {case['wraps']}: equal is {not expected}")
    if not expressions_equal(copy_expression(a), a):
        raise Violation(f"the copy of {case['a']} within {case['wraps']} is another expression")
    note(f"+{case['a'][0]} and {case['b'][0]}")


@st.composite
def elements(draw):
    """Variables and constraints that differ by at most one attribute"""
    bounds = [None, ["lit", 0], ["lit", 1], ["par", "p"], ["par", "q"]]
    kind = draw(st.sampled_from(["variable", "constraint"]))
    values = {
        "variable": {
            "name": ["x", "y"],
            "type": ["continuous", "integer"],
            "lb": bounds,
            "ub": bounds,
            "time": [True, False],
            "scen": [True, False],
        },
        "constraint": {
            "name": ["k", "l"],
            "expr": [["var", "x"], ["var", "y"], ["neg", ["var", "x"]], ["allsum", ["var", "x"]]],
            "lb": bounds,
            "ub": bounds,
        },
    }[kind]
    a = {k: draw(st.sampled_from(v)) for k, v in values.items()}
    b = dict(a)
    if draw(st.booleans()):
        k = draw(st.sampled_from(sorted(values)))
        b[k] = draw(st.sampled_from(values[k]))
    return {"kind": kind, "a": a, "b": b}


def run_elements(case, note):
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.model import Constraint, ProblemContext
    from andromede.model.common import ValueType
    from andromede.model.variable import Variable

    def make(x):
        lb = None if x["lb"] is None else asts.to_expr(x["lb"])
        ub = None if x["ub"] is None else asts.to_expr(x["ub"])
        if case["kind"] == "constraint":
            kw = {}
            if lb is not None:
                kw["lower_bound"] = lb
            if ub is not None:
                kw["upper_bound"] = ub
            return Constraint(x["name"], asts.to_expr(x["expr"]), **kw)
        vtype = ValueType.INTEGER if x["type"] == "integer" else ValueType.CONTINUOUS
        return Variable(
            x["name"], vtype, lb, ub, IndexingStructure(x["time"], x["scen"]),
            ProblemContext.OPERATIONAL,
        )

    a, b = make(case["a"]), make(case["b"])
    expected = case["a"] == case["b"]
    if (a == b) != expected or (b == a) != expected:
        raise Violation(f"{case['kind']}s {case['a']} and {case['b']}: equal is {not expected}")
    if a == case["a"]["name"] or b == None:  # noqa: E711
        raise Violation(f"{case['kind']} equal to something else")
    note(f"+{'same' if expected else 'different'} {case['kind']}s")


def run_misuse(case, note):
    """Operators given wrong arguments are refused"""
    from andromede.expression import literal, var
    from andromede.expression.expression import ScenarioOperatorNode

    node = asts.to_expr(case["expr"])
    kind = case["kind"]
    calls = {
        "from only": lambda: node.time_sum(1, None),
        "to only": lambda: node.time_sum(None, 1),
        "zero from only": lambda: node.time_sum(0, None),
        "zero to only": lambda: node.time_sum(None, 0),
        "text": lambda: node + "a",
        "text on the left": lambda: "a" * node,
        "text divisor": lambda: node / "2",
        "text comparison": lambda: node <= "a",
        "text bound": lambda: node.time_sum("a", "b"),
        "unknown scenario operator": lambda: ScenarioOperatorNode(node, "Median"),
        "connections of an expression": lambda: (node + var("x")).sum_connections(),
        "connections of a number": lambda: literal(1).sum_connections(),
    }
    rejected(calls[kind], f"{kind}, {case['expr']}")
    note(f"+{kind}")


KINDS = [
    "from only", "to only", "zero from only", "zero to only", "text", "text on the left",
    "text divisor", "text comparison", "text bound", "unknown scenario operator",
    "connections of an expression", "connections of a number",
]


@st.composite
def misuse(draw):
    x = exprgen.X(draw, names=False)
    return {"expr": x.expr(2), "kind": draw(st.sampled_from(KINDS))}


TESTS = [
    Test("leaves", leaves, run_leaves, 800, 20000),
    Test("elements", elements, run_elements, 240, 4000),
    Test("misuse", misuse, run_misuse, 160, 2000),
    Test("build", trees, run_build, 2400, 60000),
    Test(
        "evaluate",
        lambda: trees(time=False, ports=False, scen=False),
        run_evaluate,
        1600,
        40000,
    ),
    Test("changed", changed, run_changed, 2400, 60000),
    Test("tolerance", tolerance, run_tolerance, 400, 10000),
]
