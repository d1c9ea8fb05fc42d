"""Comparison of results: output values and expansion solutions."""
import math

from hypothesis import strategies as st

from ..runner import Test, Violation

PROPERTY = "C18"
RULE = (
    "random pairs of results built from random values, the second one a perturbed copy "
    "of the first (a value moved by a factor around the tolerance, a value, variable or "
    "component added, removed or renamed, shape changed, parts ignored); equality and "
    "closeness, in both directions, are compared with an independent definition on "
    "dictionaries; values set are read back in the same shape. Non-trivial: the two "
    "results differ"
)

VALUES = [0.0, 1.0, -1.0, 2.5, 100.0, -0.001, 1e6, 3.0, 1e-12, -7.25, math.inf, -math.inf]
# 0.105 and 0.45 tell a tolerance relative to the larger of both from other ones
FACTORS = [0.0, 1e-12, 1e-10, 0.5e-9, 2e-9, 1e-7, 1e-4, 0.01, 0.5, 0.105, 0.45, 0.45]
RELATIVE = [1e-9, 0.0, 1e-3, 1e-6, 0.1, 0.4]


def near(x, y, rel, abs_):
    if x == y:
        return True
    if math.isinf(x) or math.isinf(y):
        return False
    return abs(x - y) <= max(rel * max(abs(x), abs(y)), abs_)


def tables(draw, kind, ns, nt):
    def v():
        return draw(st.sampled_from(VALUES))

    if kind == "const":
        return v()
    if kind == "scen":
        return [v() for _ in range(ns)]
    return [[v() for _ in range(nt)] for _ in range(ns)]


def shape_value(draw):
    kind = draw(st.sampled_from(["const", "scen", "both", "time"]))
    ns = draw(st.integers(1, 3))
    nt = draw(st.integers(1, 4))
    if kind == "time":
        ns = 1
    return tables(draw, kind, ns, nt)


@st.composite
def results(draw):
    out = {}
    for c in range(draw(st.integers(0, 3))):
        comp = {"ignore": False, "vars": {}}
        for v in range(draw(st.integers(0, 3))):
            comp["vars"][f"v{v}"] = {"ignore": False, "value": shape_value(draw)}
        out[f"c{c}"] = comp
    return out


def perturb(draw, value):
    flat = [value] if not isinstance(value, list) else None
    k = draw(st.sampled_from(FACTORS))
    kind = draw(st.sampled_from(["rel", "abs", "both"]))
    sign = draw(st.sampled_from([1, -1]))

    def change(x):
        if kind == "rel":
            return x * (1 + sign * k)
        if kind == "abs":
            return x + sign * k
        return x * (1 + sign * k) + sign * k

    if flat is not None:
        return change(value)
    i = draw(st.integers(0, len(value) - 1))
    out = list(value)
    if isinstance(value[i], list):
        j = draw(st.integers(0, len(value[i]) - 1))
        out[i] = [change(x) if q == j else x for q, x in enumerate(value[i])]
    else:
        out[i] = change(value[i])
    return out


@st.composite
def pairs(draw):
    import copy

    a = draw(results())
    b = copy.deepcopy(a)
    for _ in range(draw(st.integers(0, 2))):
        kind = draw(
            st.sampled_from(
                ["value", "value", "value", "shape", "drop-var", "add-var", "drop-comp", "add-comp", "ignore-var", "ignore-comp", "ignore-var", "ignore-comp", "resize"]
            )
        )
        side = b if draw(st.booleans()) else a
        if kind == "add-comp":
            name = f"c{draw(st.integers(0, 4))}"
            side.setdefault(
                name,
                {"ignore": draw(st.booleans()), "vars": {"v0": {"ignore": False, "value": shape_value(draw)}}},
            )
            continue
        if not side:
            continue
        comp = draw(st.sampled_from(sorted(side)))
        if kind == "drop-comp":
            del side[comp]
            continue
        if kind == "ignore-comp":
            side[comp]["ignore"] = not side[comp]["ignore"]
            continue
        vs = side[comp]["vars"]
        if kind == "add-var":
            vs.setdefault(
                f"v{draw(st.integers(0, 4))}",
                {"ignore": draw(st.booleans()), "value": shape_value(draw)},
            )
            continue
        if not vs:
            continue
        v = draw(st.sampled_from(sorted(vs)))
        if kind == "drop-var":
            del vs[v]
        elif kind == "ignore-var":
            vs[v]["ignore"] = not vs[v]["ignore"]
        elif kind == "shape":
            vs[v]["value"] = shape_value(draw)
        elif kind == "resize":
            if isinstance(vs[v]["value"], list):
                vs[v]["value"] = vs[v]["value"] + vs[v]["value"][-1:]
        else:
            vs[v]["value"] = perturb(draw, vs[v]["value"])
    return {
        "a": a,
        "b": b,
        "rel": draw(st.sampled_from(RELATIVE)),
        "abs": draw(st.sampled_from([0.0, 0.0, 1e-9, 1e-3, 0.2])),
        "default": draw(st.booleans()),
    }


def build(tree):
    from andromede.simulation import OutputValues

    out = OutputValues()
    for c, comp in tree.items():
        obj = out.component(c)
        obj.ignore = comp["ignore"]
        for v, d in comp["vars"].items():
            obj.var(v).value = d["value"]
            obj.var(v).ignore = d["ignore"]
    return out


def flat(value):
    """{(t, s): number}, with the shape"""
    if not isinstance(value, list):
        return (1, 1), {(0, 0): value}
    if not isinstance(value[0], list):
        return (len(value), 1), {(0, s): x for s, x in enumerate(value)}
    return (len(value), len(value[0])), {
        (t, s): x for s, r in enumerate(value) for t, x in enumerate(r)
    }


def same(a, b, rel, abs_):
    """Independent definition; exact when both tolerances are null"""

    def numbers(x, y):
        return near(x, y, rel, abs_)

    def mapping(x, y, inner):
        for k in set(x) | set(y):
            if k not in x:
                if not y[k]["ignore"]:
                    return False
            elif k not in y:
                if not x[k]["ignore"]:
                    return False
            elif not (x[k]["ignore"] or y[k]["ignore"]) and not inner(x[k], y[k]):
                return False
        return True

    def variables(x, y):
        sx, fx = flat(x["value"])
        sy, fy = flat(y["value"])
        return sx == sy and all(numbers(fx[k], fy[k]) for k in fx)

    return mapping(a, b, lambda x, y: mapping(x["vars"], y["vars"], variables))


def expect(got, wanted, what):
    if not isinstance(got, bool):
        raise Violation(f"{what} gives {got!r}")
    if got != wanted:
        raise Violation(f"{what} is {got}, expected {wanted}")


def run(case, note):
    a, b = build(case["a"]), build(case["b"])
    before = (str(a), str(b))
    exact = same(case["a"], case["b"], 0, 0)
    expect(a == b, exact, "a == b")
    expect(b == a, exact, "b == a")
    expect(a != b, not exact, "a != b")
    expect(a == build(case["a"]), True, "a == copy of a")
    rel, abs_ = (1e-9, 0.0) if case["default"] else (case["rel"], case["abs"])
    kw = {} if case["default"] else {"rel_tol": rel, "abs_tol": abs_}
    wanted = same(case["a"], case["b"], rel, abs_)
    expect(a.is_close(b, **kw), wanted, f"a.is_close(b, {kw})")
    expect(b.is_close(a, **kw), wanted, f"b.is_close(a, {kw})")
    # part by part
    for c in set(case["a"]) & set(case["b"]):
        one, two = {"x": case["a"][c]}, {"x": case["b"][c]}
        x, y = a.component(c), b.component(c)
        expect(x == y, same(one, two, 0, 0), f"component {c} ==")
        expect(x.is_close(y, **kw), same(one, two, rel, abs_), f"component {c} is_close")
        for v in set(case["a"][c]["vars"]) & set(case["b"][c]["vars"]):
            one = {"x": {"ignore": False, "vars": {"y": case["a"][c]["vars"][v]}}}
            two = {"x": {"ignore": False, "vars": {"y": case["b"][c]["vars"][v]}}}
            expect(x.var(v) == y.var(v), same(one, two, 0, 0), f"variable {c}.{v} ==")
            expect(
                x.var(v).is_close(y.var(v), **kw),
                same(one, two, rel, abs_),
                f"variable {c}.{v} is_close",
            )
    if (str(a), str(b)) != before:
        raise Violation("comparing changed the values")
    if case["a"] != case["b"]:
        note("+different")
        note("equal although different" if exact else "not equal")
        note("close" if wanted else "not close")
    # names matter
    from andromede.simulation import OutputValues

    for v in ("v0", "v1"):
        x, y = OutputValues.Variable(v), OutputValues.Variable("v0")
        x.value = y.value = 1.0
        expect(x == y, v == "v0", "variables by name")
        x, y = OutputValues.Component(v), OutputValues.Component("v0")
        expect(x == y, v == "v0", "components by name")


@st.composite
def histories(draw):
    return [shape_value(draw) for _ in range(draw(st.integers(1, 4)))]


def run_histories(values, note):
    """The value set last is the one read, whatever was set before"""
    from andromede.simulation import OutputValues

    out = OutputValues()
    for value in values:
        var = out.component("c").var("v")
        var.value = value
        got = out.component("c").var("v").value
        shape, content = flat(value)
        gshape, gcontent = flat(got)
        if shape != gshape or content != gcontent:
            raise Violation(f"{value!r} set, {got!r} read")
        fresh = OutputValues()
        fresh.component("c").var("v").value = value
        expect(out == fresh, True, "values after an overwriting == fresh values")
        expect(out.is_close(fresh), True, "values after an overwriting close to fresh values")
    if len(values) > 1:
        note("+overwritten")


@st.composite
def solutions(draw):
    def number():
        return draw(st.sampled_from(VALUES))

    a = {
        "cost": number(),
        "inv": number(),
        "ope": number(),
        "values": {f"x{i}": number() for i in range(draw(st.integers(0, 3)))},
    }
    b = {**a, "values": dict(a["values"])}
    for _ in range(draw(st.integers(0, 2))):
        kind = draw(st.sampled_from(["cost", "inv", "ope", "value", "value", "drop", "add"]))
        names = sorted(b["values"])
        if kind == "cost":
            b["cost"] = perturb(draw, b["cost"])
        elif kind in ("inv", "ope"):
            b[kind] = number()
        elif kind == "add":
            b["values"][f"x{draw(st.integers(0, 4))}"] = number()
        elif names:
            n = draw(st.sampled_from(names))
            if kind == "drop":
                del b["values"][n]
            else:
                b["values"][n] = perturb(draw, b["values"][n])
    return {
        "a": a,
        "b": b,
        "rel": draw(st.sampled_from(RELATIVE)),
        "abs": draw(st.sampled_from([0.0, 0.0, 1e-9, 1e-3, 0.2])),
        "default": draw(st.booleans()),
        "merged": draw(st.booleans()),
    }


def solution(d, merged):
    from andromede.simulation.output_values import (
        BendersDecomposedSolution,
        BendersMergedSolution,
    )

    data = {
        "run_duration": 12.5,
        "solution": {
            "overall_cost": d["cost"],
            "investment_cost": d["inv"],
            "operational_cost": d["ope"],
            "values": dict(d["values"]),
            "problem_status": "OPTIMAL",
            "optimality_gap": 0.25,
            "relative_gap": 0.125,
            "stopping_criterion": "relative gap",
            "lb": 3.0,
            "ub": 4.0,
            "iteration": 7,
        },
    }
    return (BendersMergedSolution if merged else BendersDecomposedSolution)(data)


def run_solutions(case, note):
    merged = case["merged"]
    a, b = solution(case["a"], merged), solution(case["b"], merged)

    def equal(rel, abs_):
        def num(x, y):
            return near(x, y, rel, abs_)

        x, y = case["a"], case["b"]
        return (
            num(x["cost"], y["cost"])
            and set(x["values"]) == set(y["values"])
            and all(num(v, y["values"][k]) for k, v in x["values"].items())
        )

    rel, abs_ = (1e-9, 0.0) if case["default"] else (case["rel"], case["abs"])
    kw = {} if case["default"] else {"rel_tol": rel, "abs_tol": abs_}
    expect(a == b, equal(0, 0), "solutions ==")
    expect(b == a, equal(0, 0), "solutions == (reversed)")
    expect(a.is_close(b, **kw), equal(rel, abs_), "solutions is_close")
    expect(b.is_close(a, **kw), equal(rel, abs_), "solutions is_close (reversed)")
    d = case["a"]
    wanted = {
        "overall_cost": d["cost"],
        "investment_cost": d["inv"],
        "operational_cost": d["ope"],
        "candidates": d["values"],
        "status": "OPTIMAL",
        "absolute_gap": 0.25,
        "relative_gap": 0.125,
        "stopping_criterion": "relative gap",
    }
    wanted.update(
        {"lower_bound": 3.0, "upper_bound": 4.0}
        if merged
        else {"nb_iterations": 7, "duration": 12.5}
    )
    for name, value in wanted.items():
        if getattr(a, name) != value:
            raise Violation(f"{name} is {getattr(a, name)!r}, the file says {value!r}")
    text = str(a)
    for name, value in d["values"].items():
        if name not in text or str(value) not in text:
            raise Violation(f"{name} = {value} not in the printed solution")
    if case["a"] != case["b"]:
        note("+different")


TESTS = [
    Test("outputs", pairs, run, 4000, 100000),
    Test("overwrite", histories, run_histories, 1200, 20000),
    Test("solutions", solutions, run_solutions, 2000, 40000),
]
