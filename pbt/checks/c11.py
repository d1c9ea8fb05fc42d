"""Arithmetic of linear expressions."""
from hypothesis import strategies as st

from .. import gen
from ..runner import Test, Violation

PROPERTY = "C11"
RULE = (
    "random sequences of operations (in place and not) on a pool of linear "
    "expressions, compared after every step with a dictionary model; operands other "
    "than the target of an in-place operation never change, results share nothing "
    "with their operands. Non-trivial: at least three operations, one of them on an "
    "expression with variables"
)
NAMES = [("c", "x", None, None), ("c", "x", 0, None), ("c", "x", 0, 0), ("d", "x", 0, 0), ("c", "y", 1, 0), ("c", "x", 1, 0), ("c", "x", 0, 1)]
NAMES += [(c, v, t, s) for c in "cde" for v in "xyz" for t in (5, 7) for s in (2, None)]
COEF = [1, -1, 2, 0.5, 0, 3, -2.5, 10]
OPS = ["add", "sub", "mul", "div", "neg", "iadd", "isub", "imul", "idiv", "self"]


@st.composite
def histories(draw, names=7, terms=3):
    n = draw(st.integers(2, 4))
    pool = []
    for _ in range(n):
        k = draw(st.integers(0, terms))
        keys = draw(st.lists(st.integers(0, names - 1), min_size=k, max_size=k, unique=True))
        pool.append(
            {
                "terms": [[i, draw(st.sampled_from(COEF))] for i in keys],
                "const": draw(st.sampled_from(COEF)),
                "dict": draw(st.booleans()),
            }
        )
    steps = [
        [
            draw(st.sampled_from(OPS)),
            draw(st.integers(0, n - 1)),
            draw(st.integers(0, n - 1)),
            draw(st.integers(0, n - 1)),
        ]
        for _ in range(draw(st.integers(1, 6)))
    ]
    return {"pool": pool, "steps": steps, "scale": draw(st.sampled_from([0, -30, -40, 24]))}


def read(expr):
    out = {}
    for key, t in expr.terms.items():
        k = (t.component_id, t.variable_name, t.time_index, t.scenario_index)
        if k in out:
            raise Violation(f"{k} appears twice in {expr}")
        out[k] = t.coefficient
    return out, expr.constant


def check(objs, model, what, scale=1.0):
    for i, (o, m) in enumerate(zip(objs, model)):
        terms, const = read(o)
        for k in set(terms) | set(m[0]):
            a, b = terms.get(k, 0.0), m[0].get(k, 0.0)
            if abs(a - b) > 1e-9 * (scale + abs(a) + abs(b)) + 1.01e-16:
                raise Violation(f"after {what}: expression {i} has {a}*{k}, expected {b}")
        if abs(const - m[1]) > 1e-9 * (scale + abs(const) + abs(m[1])):
            raise Violation(f"after {what}: expression {i} has constant {const}, expected {m[1]}")
        if any(c == 0 for c in terms.values()):
            raise Violation(f"after {what}: null coefficient kept in {o}")


def combine(a, b, sign, scale=1.0):
    terms = dict(a[0])
    for k, v in b[0].items():
        terms[k] = terms.get(k, 0.0) + sign * v
    return {k: v for k, v in terms.items() if abs(v) > 1e-14 * scale}, a[1] + sign * b[1]


def times(a, k):
    return {n: v * k for n, v in a[0].items() if v * k != 0}, a[1] * k


def run(case, note):
    from andromede.simulation.linear_expression import (
        LinearExpression,
        Term,
        generate_key,
    )

    scale = 2.0 ** case.get("scale", 0)
    objs, model = [], []
    for p in case["pool"]:
        terms = [Term(c * scale, *NAMES[i]) for i, c in p["terms"]]
        arg = {generate_key(t): t for t in terms} if p["dict"] else terms
        objs.append(LinearExpression(arg, float(p["const"])))
        model.append(
            ({NAMES[i]: c * scale for i, c in p["terms"] if c != 0}, float(p["const"]))
        )
    check(objs, model, "construction", scale)
    useful = 0
    for op, i, j, target in case["steps"]:
        a, b = model[i], model[j]
        x, y = objs[i], objs[j]
        what = f"{op} {i} {j} -> {target}"
        if a[0] or b[0]:
            useful += 1
        base = op[-3:] if op != "self" else op
        inplace = len(op) == 4 and op[0] == "i"
        error = None
        if base == "add":
            expected = combine(a, b, 1, scale)
        elif base == "sub":
            expected = combine(a, b, -1, scale)
        elif base == "neg":
            expected = times(a, -1.0)
        elif base == "mul":
            if a[0] and b[0]:
                error = ValueError
            else:
                expected = times(a, b[1]) if a[0] else times(b, a[1])
        elif base == "div":
            if b[0]:
                error = ValueError
            elif abs(b[1]) < 1e-15:
                error = ZeroDivisionError
            else:
                expected = times(a, 1 / b[1])
        else:
            expected = a
        if error is None and (
            abs(expected[1]) > 1e9 or any(
                not max(1e-9 * scale, 1e-15) < abs(v) < 1e9 * scale for v in expected[0].values()
            )
            or (expected[1] != 0 and abs(expected[1]) < 1e-9)
        ):
            break  # out of the range where comparisons are reliable
        try:
            if op == "add":
                r = x + y
            elif op == "sub":
                r = x - y
            elif op == "mul":
                r = x * y
            elif op == "div":
                r = x / y
            elif op == "neg":
                r = -x
            elif op == "iadd":
                x += y
                r = x
            elif op == "isub":
                x -= y
                r = x
            elif op == "imul":
                x *= y
                r = x
            elif op == "idiv":
                x /= y
                r = x
            else:
                r = x + LinearExpression()
        except (ValueError, ZeroDivisionError) as e:
            if error is None:
                raise Violation(f"{what}: {type(e).__name__} {e}")
            check(objs, model, what + " (refused)", scale)
            note("refused operation")
            continue
        if error is not None:
            raise Violation(f"{what} was accepted: {r}")
        if inplace:
            # "x op= y": x may be a new object, bound to the same name
            objs[i], model[i] = r, expected
        else:
            check(objs, model, what + " (operands)", scale)
            objs[target], model[target] = r, expected
        check(objs, model, what, scale)
    if scale != 1.0 and useful:
        note("very small or large coefficients")
    if len(case["steps"]) >= 3 and useful:
        note("+three operations or more")


@st.composite
def pairs(draw):
    h = draw(histories())
    return {"a": h["pool"][0], "b": h["pool"][1]}


def run_equal(case, note):
    from andromede.simulation.linear_expression import LinearExpression, Term

    def make(p, order=1):
        return LinearExpression(
            [Term(float(c), *NAMES[i]) for i, c in p["terms"][::order]], float(p["const"])
        )

    def value(p):
        return {i: c for i, c in p["terms"] if c != 0}, p["const"]

    a, b = case["a"], case["b"]
    if not make(a) == make(a, -1):
        raise Violation(f"{make(a)} is not equal to itself built in another order")
    expected = value(a) == value(b)
    if (make(a) == make(b)) != expected:
        raise Violation(f"{make(a)} == {make(b)}: {not expected}")
    zero = make(a) - make(a)
    if not zero.is_zero() or not make(a).is_zero() == (value(a) == ({}, 0)):
        raise Violation(f"is_zero of {make(a)} or of its difference with itself")
    if a["terms"]:
        note("+with variables")


TESTS = [
    Test("histories", histories, run, 4000, 100000),
    Test("many terms", lambda: histories(names=len(NAMES), terms=30), run, 160, 6000),
    Test("equality", pairs, run_equal, 1200, 20000),
]
