"""Numbers of every magnitude, through literals, texts and data, down to the problem."""
import math
from typing import Any, Dict

from hypothesis import strategies as st

from .runner import Violation

# 1e-8 .. 1e15: neither negligible nor infinite for anyone
NUMBER = st.one_of(
    st.builds(
        lambda m, e: float(f"{m}e{e}"),
        st.sampled_from([1, -1, 2.5, -7.25, 3.1415926, 9.99]),
        st.integers(-8, 15),
    ),
    st.sampled_from([0.0, 1.0, 1000.0, 1001.0, 100000.0, 2.0**31, 2.0**31 + 1, 2.0**53, 8760.0, 0.1, 1 / 3]),
    st.integers(-(10**7), 10**7).map(float),
)
FORMS = ["literal", "text", "param", "series"]


@st.composite
def cases(draw: Any) -> Dict[str, Any]:
    two = sorted([draw(NUMBER), draw(NUMBER)])
    return {
        "lb": draw(st.sampled_from([None, two[0]])),
        "ub": draw(st.sampled_from([None, two[1], float("inf")])),
        "type": draw(st.sampled_from(["continuous", "integer", "boolean"])),
        "coef": draw(NUMBER),
        "const": draw(st.one_of(st.just(0.0), NUMBER)),
        "rhs": draw(NUMBER),
        "op": draw(st.sampled_from(["<=", ">=", "=", "bounds"])),
        "cost": draw(NUMBER),
        "offset": draw(st.one_of(st.just(0.0), NUMBER)),
        "form": {
            k: draw(st.sampled_from(FORMS)) for k in ("lb", "ub", "coef", "const", "rhs", "cost", "offset")
        },
        "S": draw(st.integers(1, 2)),
        "T": draw(st.integers(1, 2)),
    }


def same(got: float, wanted: float, scale: float = 0.0) -> bool:
    if math.isinf(wanted) or math.isinf(got):
        return got == wanted
    return abs(got - wanted) <= 1e-12 * max(abs(wanted), scale)


def run(case: Dict[str, Any], what: str) -> None:
    from andromede.expression import literal, param, var
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.expression.parsing.parse_expression import ModelIdentifiers, parse_expression
    from andromede.model import Constraint, float_parameter, model
    from andromede.model.common import ProblemContext, ValueType
    from andromede.model.variable import Variable
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study import (
        ConstantData, DataBase, Network, TimeIndex, TimeSeriesData, create_component,
    )

    T = case["T"]
    parameters, db = [], DataBase()
    names = ModelIdentifiers(variables=set(), parameters=set())

    def number(key: str, constant: bool = False) -> Any:
        """The expression of a number of the case"""
        value, form = case[key], case["form"][key]
        if form == "text" and (not math.isfinite(value) or value < 0):
            form = "literal"
        if form == "text":
            return parse_expression(format(value, ".20f") if value < 1e16 else repr(value), names)
        if form == "literal":
            return literal(value)
        series = form == "series" and not constant
        parameters.append(float_parameter(key, IndexingStructure(series, False)))
        db.add_data(
            "c", key,
            TimeSeriesData({TimeIndex(t): value for t in range(T)}) if series else ConstantData(value),
        )
        return param(key)

    kinds = {"continuous": ValueType.CONTINUOUS, "integer": ValueType.INTEGER, "boolean": ValueType.BOOLEAN}
    x = Variable(
        "x",
        kinds[case["type"]],
        None if case["lb"] is None else number("lb"),
        None if case["ub"] is None else number("ub"),
        IndexingStructure(True, True),
        ProblemContext.OPERATIONAL,
    )
    left = number("coef") * var("x") + number("const")
    right = number("rhs")
    op = case["op"]
    if op == "bounds":
        k = Constraint("k", left, lower_bound=-right, upper_bound=right) if case["rhs"] >= 0 else Constraint("k", left, upper_bound=right)
    else:
        k = Constraint("k", left <= right if op == "<=" else left >= right if op == ">=" else left == right)
    objective = (number("cost") * var("x")).time_sum().expec() + number("offset", True)
    m = model("m", parameters=parameters, variables=[x], constraints=[k], objective_operational_contribution=objective)
    net = Network("n")
    net.add_component(create_component(model=m, id="c"))
    p = build_problem(net, db, TimeBlock(1, list(range(T))), case["S"])
    solver = p.solver
    variables = solver.variables()
    if what == "variables":
        lb = -math.inf if case["lb"] is None else case["lb"]
        ub = math.inf if case["ub"] is None else case["ub"]
        if case["type"] == "boolean":
            lb, ub = max(lb, 0), min(ub, 1)
        for v in variables:
            if not (same(v.lb(), lb) and same(v.ub(), ub)):
                raise Violation(f"bounds [{v.lb()}, {v.ub()}], expected [{lb}, {ub}]")
    elif what == "rows":
        scale = max(abs(case["rhs"]), abs(case["const"]))
        up = case["rhs"] - case["const"] if op in ("<=", "=", "bounds") else math.inf
        down = -math.inf
        if op in (">=", "="):
            down = case["rhs"] - case["const"]
        elif op == "bounds" and case["rhs"] >= 0:
            down = -case["rhs"] - case["const"]
        if len(solver.constraints()) != T * case["S"]:
            raise Violation(f"{len(solver.constraints())} rows, expected {T * case['S']}")
        for row in solver.constraints():
            coefs = [c for c in (row.GetCoefficient(v) for v in variables) if c]
            wanted = [case["coef"]] if case["coef"] else []
            if len(coefs) != len(wanted) or not all(same(a, b) for a, b in zip(coefs, wanted)):
                raise Violation(f"coefficients {coefs}, expected {wanted}")
            if not (same(row.lb(), down, scale) and same(row.ub(), up, scale)):
                raise Violation(f"bounds [{row.lb()}, {row.ub()}], expected [{down}, {up}]")
    else:
        o = solver.Objective()
        for v in variables:
            if not same(o.GetCoefficient(v), case["cost"] / case["S"]):
                raise Violation(f"cost {o.GetCoefficient(v)}, expected {case['cost']}/{case['S']}")
        if not same(o.offset(), case["offset"]):
            raise Violation(f"offset {o.offset()}, expected {case['offset']}")


def check(what: str) -> Any:
    def run_(case: Dict[str, Any], note: Any) -> None:
        lo = -math.inf if case["lb"] is None else case["lb"]
        hi = math.inf if case["ub"] is None else case["ub"]
        if case["type"] == "boolean" and (lo > 1 or hi < 0):
            return  # no value is possible
        run(case, what)
        note("+magnitudes")

    return run_
