from hypothesis import strategies as st

from .. import asts, gen, magnitudes, study
from ..runner import Discard, Test, rejected

PROPERTY = "C01"
RULE = (
    "random studies (models, components, nodes, parameter data, constraints, bounds, "
    "objectives) drawn from a grammar; the problem built by the code is compared "
    "variable by variable, row by row and coefficient by coefficient with an "
    "independent interpretation of the study. Non-trivial: at least one constraint "
    "row with a variable"
)


def run(spec, note):
    problem = study.solve_problem_api(spec)
    ref = study.Ref(spec)
    study.compare_problem(problem, ref)
    rows = ref.rows()
    if any(r[0] for r in rows):
        note("+row with a variable")
    for op in gen.has_ops(spec):
        note(f"operator {op}")
    if ref.T > 1:
        note("several timesteps")
    if ref.S > 1:
        note("several scenarios")
    if ref.T * ref.S >= 24:
        note("24 indices or more")


def run_bounds(spec, note):
    """Operators in bounds: the right value, or a refusal"""
    if not any(
        b is not None and gen.OPERATORS & asts.ops_of(b)
        for m in spec["models"]
        for x in m["vars"] + m["cons"]
        for b in (x.get("lb"), x.get("ub"))
    ):
        raise Discard()
    if any(v[3] or v[0] > v[1] for v in study.Ref(spec).variables().values()):
        raise Discard()
    try:
        problem = study.solve_problem_api(spec)
    except Exception:
        note("+refused")
        return
    study.compare_problem(problem, study.Ref(spec))
    note("+accepted")


@st.composite
def divisors(draw):
    return {
        "kind": draw(st.sampled_from(["const", "time", "scen", "both"])),
        "form": draw(st.sampled_from(["x", "number", "sum", "product", "difference", "literal"])),
        "where": draw(st.sampled_from(["cmp", "binding", "bounds", "lb", "var", "obj"])),
        "T": draw(st.integers(1, 3)),
        "S": draw(st.integers(1, 2)),
        "at": draw(st.integers(0, 5)),
        "value": draw(st.sampled_from([1, -2, 0.5])),
        "int": draw(st.booleans()),
    }


def divided(case, zero):
    """A study with one division, by zero at one step and scenario or not"""
    T, S, kind, value = case["T"], case["S"], case["kind"], case["value"]
    nothing = 0 if case["int"] else 0.0
    values = [[value] * S for _ in range(T)]
    if zero:
        values[case["at"] % T][case["at"] % S] = nothing
    if kind == "const":
        values = nothing if zero else value
    elif kind == "time":
        values = [nothing if nothing in r else value for r in values]
    elif kind == "scen":
        values = [nothing if nothing in r else value for r in zip(*values)]
    x, q, one = ["var", "x"], ["par", "q"], ["lit", 1]
    if case["where"] in ("lb", "var"):
        x = ["lit", 3]
    e = {
        "x": ["div", x, q],
        "number": ["add", ["div", ["lit", 2], q], x],
        "sum": ["div", ["add", x, ["lit", 2]], q],
        "product": ["div", x, ["mul", ["lit", 2], q]],
        "difference": ["div", x, ["sub", ["add", q, one], one]],
        "literal": ["div", x, ["lit", nothing if zero else value]],
    }[case["form"]]
    v = {"type": "continuous", "time": True, "scen": True, "lb": None, "ub": None}
    m = {
        "id": "m",
        "params": [
            {"name": "q", "time": kind in ("time", "both"), "scen": kind in ("scen", "both"), "role": "num"}
        ],
        "vars": [dict(v, name="x")],
        "ports": [],
        "defs": [],
        "cons": [],
    }
    where = case["where"]
    if where in ("cmp", "binding"):
        m["cons"] = [{"name": "k", "binding": where == "binding", "cmp": ["<=", e, one]}]
    elif where == "bounds":
        m["cons"] = [{"name": "k", "binding": False, "expr": e, "lb": one, "ub": None}]
    elif where == "lb":
        m["cons"] = [{"name": "k", "binding": False, "expr": ["var", "x"], "lb": e, "ub": None}]
    elif where == "var":
        m["vars"][0]["lb"] = e
    else:
        m["obj"] = ["allsum", ["expec", e]]
    return {
        "port_types": [],
        "models": [m],
        "comps": [{"id": "c", "model": "m", "node": False, "data": {"q": {"kind": kind, "values": values}}}],
        "conns": [],
        "timesteps": list(range(T)),
        "scenarios": S,
    }


def run_divisors(case, note):
    good = divided(case, False)
    study.compare_problem(study.solve_problem_api(good), study.Ref(good))
    rejected(
        lambda: study.solve_problem_api(divided(case, True)).export_as_lp(),
        f"division by zero ({case['kind']}, {case['form']} in {case['where']})",
    )
    note(f"+division by zero in {case['where']}")


TESTS = [
    Test("zero divisors", divisors, run_divisors, 240, 3000),
    Test("magnitudes", magnitudes.cases, magnitudes.check("rows"), 320, 6000),
    Test("problem", lambda: gen.specs(), run, 2400, 60000),
    Test(
        "deep",
        lambda: gen.specs(models=(1, 1), comps=(1, 2), cons=(1, 1), depth=5, objective=False),
        run,
        1600,
        40000,
    ),
    Test(
        "wide",
        lambda: gen.specs(
            models=(2, 3), comps=(3, 6), cons=(1, 3), depth=2, vars=(2, 4), params=(1, 4)
        ),
        run,
        400,
        10000,
    ),
    Test(
        "large",
        lambda: gen.specs(models=(1, 2), comps=(1, 2), cons=(1, 1), depth=2, large=True),
        run,
        60,
        4000,
    ),
    Test(
        "many components",
        lambda: gen.specs(
            T=(1, 2), S=(1, 1), models=(1, 3), comps=(8, 16), cons=(1, 1), depth=2, vars=(1, 2)
        ),
        run,
        60,
        4000,
    ),
    Test(
        "many members",
        lambda: gen.specs(
            T=(1, 2), S=(1, 2), models=(1, 1), comps=(1, 2), cons=(4, 10), depth=1,
            vars=(5, 12), params=(3, 12),
        ),
        run,
        60,
        4000,
    ),
    Test(
        "many terms",
        lambda: gen.specs(
            T=(1, 3), S=(1, 2), models=(1, 1), comps=(1, 2), cons=(1, 2), depth=1,
            vars=(3, 8), params=(0, 2), terms=(6, 30), objective=False,
        ),
        run,
        60,
        4000,
    ),
    Test(
        "operators in bounds",
        lambda: gen.specs(
            models=(1, 1), comps=(1, 1), params=(1, 3), cons=(1, 2), depth=1, bound_ops=True,
            objective=False,
        ),
        run_bounds,
        160,
        4000,
    ),
]
