"""Time operators, cyclic blocks, position of the block in the horizon."""
from hypothesis import strategies as st

from .. import asts, gen, study
from ..runner import Test, rejected

PROPERTY = "C02"
RULE = (
    "random one-component studies on random time blocks (start, length, gaps) whose "
    "constraints use shifts, evaluations and sums over time with literal and "
    "parameter bounds of both signs, compared with an independent interpretation; "
    "metamorphic pairs (sum over a window = sum of the shifts, shift by the block "
    "length = no shift); invalid time bounds must be rejected. Non-trivial: a time "
    "operator applied to something that depends on time in a block of several steps"
)

TIME_OPS = {"shift", "eval", "tsum", "allsum"}


def applied_to_time(spec):
    for m in spec["models"]:
        for c in m["cons"]:
            for e in c["cmp"][1:] if "cmp" in c else [c["expr"]]:
                for n in asts.walk(e):
                    if n[0] in TIME_OPS and gen.structure(n[1], m)[0]:
                        yield n[0]


def run(spec, note):
    problem = study.solve_problem_api(spec)
    ref = study.Ref(spec)
    study.compare_problem(problem, ref)
    ops = set(applied_to_time(spec))
    if ops and ref.T > 1:
        note("+time operator on time dependent operand")
    for op in ops:
        note(f"{op} of time dependent operand")


def profile(**kw):
    base = dict(
        T=(1, 6),
        S=(1, 1),
        models=(1, 1),
        comps=(1, 1),
        cons=(1, 2),
        depth=3,
        scen_ops=False,
        op_weight=5,
        varying=True,
    )
    base.update(kw)
    return gen.specs(**base)


# ------------------------------------------------------------ metamorphic


@st.composite
def window(draw):
    g = gen.G(draw, gen.Profile(T=(1, 6), S=(1, 1), models=(1, 1), comps=(1, 1), cons=(0, 0), objective=False, scen_ops=False))
    spec = g.spec()
    m = spec["models"][0]
    c = g.ctx(m, no_eval=True)
    e = g.lin(2, c)
    return {
        "spec": spec,
        "expr": e,
        "from": g.int(-4, 4),
        "len": g.int(0, 5),
        "op": g.pick(["<=", "="]),
        "turns": g.int(-2, 2),
    }


def run_window(case, note):
    spec, e, a, n = case["spec"], case["expr"], case["from"], case["len"]
    T = len(spec["timesteps"])
    k = case["turns"] * T

    def problem(left):
        m = dict(spec["models"][0])
        m["cons"] = [
            {"name": "k", "binding": False, "cmp": [case["op"], left, ["lit", 3]]}
        ]
        return study.solve_problem_api({**spec, "models": [m]})

    whole = problem(["tsum", e, ["lit", a], ["lit", a + n - 1]])
    parts = ["mul", ["lit", 0], e]
    for i in range(a, a + n):
        parts = ["add", parts, ["shift", e, ["lit", i]]]
    study.compare_to_signature(problem(parts), study.problem_signature(whole))
    study.compare_to_signature(
        problem(["tsum", ["shift", e, ["lit", k]], ["lit", a], ["lit", a + n - 1]]),
        study.problem_signature(whole),
    )
    shifted = problem(["shift", e, ["lit", a]])
    study.compare_to_signature(
        problem(["shift", e, ["lit", a + k]]), study.problem_signature(shifted)
    )
    if n > 0 and T > 1 and gen.structure(e, spec["models"][0])[0]:
        note("+window over a time dependent expression")
    if n > T:
        note("window longer than the block")


# ------------------------------------------------- blocks of weeks and months


@st.composite
def months(draw):
    g = gen.G(draw, gen.Profile())
    return {
        "T": g.pick([300, 336, 365, 504, 672, 744]),
        "start": g.pick([0, 1, 168, 700]),
        "op": g.pick(["allsum", "shift", "eval", "tsum", "prev"]),
        "at": g.pick([0, -1, 1, 24, -24, 167, -168, 299, 335, 400, 743, -700]),
        "len": g.pick([1, 2, 24, 150]),
        "par": g.flag(),
        "where": g.pick(["cons", "cons", "obj"]),
    }


def run_months(case, note):
    T, op, at = case["T"], case["op"], case["at"]
    x = ["mul", ["par", "p"], ["var", "x"]] if case["par"] else ["var", "x"]
    if op == "eval":
        e = ["eval", x, ["lit", at % T]]
    elif op == "shift":
        e = ["shift", x, ["lit", at]]
    elif op == "tsum":
        e = ["eval", ["tsum", x, ["lit", at], ["lit", at + case["len"]]], ["lit", 3]]
    elif op == "prev":
        e = ["sub", x, ["shift", x, ["lit", -1]]]
    else:
        e = ["allsum", x]
    v = {"type": "continuous", "lb": ["lit", 0], "ub": None, "scen": False}
    m = {
        "id": "m",
        "params": [{"name": "p", "time": True, "scen": False, "role": "num"}],
        "vars": [
            {"name": "x", "time": True, **v},
            {"name": "y", "time": False, **v},
        ],
        "ports": [],
        "defs": [],
        "cons": [],
    }
    if case["where"] == "obj":
        m["obj"] = ["allsum", e] if op in ("shift", "prev") else e
    else:
        m["cons"] = [
            {"name": "k", "binding": False, "cmp": ["<=", e, ["var", "y"]]},
        ]
    end = case["start"] + T
    values = [float((7 * t) % 11 - 4 + t / 1024) for t in range(end)]
    spec = {
        "port_types": [],
        "models": [m],
        "comps": [
            {
                "id": "c",
                "model": "m",
                "node": False,
                "data": {"p": {"kind": "time", "values": values}},
            }
        ],
        "conns": [],
        "timesteps": list(range(case["start"], end)),
        "scenarios": 1,
    }
    study.compare_problem(study.solve_problem_api(spec), study.Ref(spec))
    note(f"+{op} in a block of {T} steps")


# ------------------------------------------------------------ invalid bounds


@st.composite
def invalid(draw):
    g = gen.G(draw, gen.Profile())
    kind = g.pick(["lit", "par", "time", "scen", "both", "var"])
    return {
        "kind": kind,
        "value": g.pick([0.5, 1.5, -0.25, 2.999, 1e-3, 1.25]),
        "op": g.pick(["shift", "eval", "from", "to"]),
        "T": g.int(1, 4),
        "wrap": g.pick(["none", "neg", "add", "mul", "div"]),
        # a constant given to a parameter declared to depend on time or scenario
        "flat": g.flag(),
        "where": g.pick(["cmp", "binding", "bounds", "obj", "def"]),
    }


def one(case, kind, value):
    """A study with one operator whose bound is of this kind"""
    T = case["T"]
    bound = {"lit": ["lit", value], "var": ["var", "y"]}.get(kind, ["par", "b"])
    data = {"kind": "const", "values": value}
    if kind in ("time", "scen", "both"):
        data = {"kind": "const", "values": 1}
        if not case["flat"]:
            values = {"time": [1] * T, "scen": [1], "both": [[1]] * T}
            data = {"kind": kind, "values": values[kind]}
    if case["wrap"] == "neg":
        bound = ["neg", bound]
    if case["wrap"] == "add":
        bound = ["add", bound, ["lit", 1]]
    if case["wrap"] == "mul":
        bound = ["mul", ["lit", 1], bound]
    if case["wrap"] == "div":
        bound = ["div", bound, ["lit", 1]]
    x = ["var", "x"]
    e = {
        "shift": ["shift", x, bound],
        "eval": ["eval", x, bound],
        "from": ["tsum", x, bound, ["lit", 2]],
        "to": ["tsum", x, ["lit", -1], bound],
    }[case["op"]]
    v = {"type": "continuous", "lb": None, "ub": None}
    b = {"name": "b", "time": kind in ("time", "both"), "scen": kind in ("scen", "both")}
    m = {
        "id": "m",
        "params": [dict(b, role="num")],
        "vars": [
            {"name": "x", "time": True, "scen": False, **v},
            {"name": "y", "time": False, "scen": False, **v},
        ],
        "ports": [],
        "defs": [],
        "cons": [],
    }
    spec = {
        "port_types": [],
        "models": [m],
        "comps": [{"id": "c", "model": "m", "node": False, "data": {"b": data}}],
        "conns": [],
        "timesteps": list(range(T)),
        "scenarios": 1,
    }
    where = case["where"]
    if where in ("cmp", "binding"):
        m["cons"] = [{"name": "k", "binding": where == "binding", "cmp": ["<=", e, ["lit", 1]]}]
    elif where == "bounds":
        m["cons"] = [{"name": "k", "binding": False, "expr": e, "lb": ["lit", 0], "ub": None}]
    elif where == "obj":
        m["obj"] = ["allsum", ["expec", e]]
    else:
        spec["port_types"] = [{"id": "pt", "fields": ["f"]}]
        m["ports"] = [{"name": "q", "type": "pt"}]
        m["defs"] = [{"port": "q", "field": "f", "expr": e}]
        con = {"name": "k", "binding": True, "cmp": ["<=", ["sumc", "q", "f"], ["lit", 1]]}
        spec["models"].append(
            {
                "id": "n",
                "params": [],
                "vars": [],
                "ports": [{"name": "q", "type": "pt"}],
                "defs": [],
                "cons": [con],
            }
        )
        spec["comps"].append({"id": "d", "model": "n", "node": True, "data": {}})
        spec["conns"] = [["c", "q", "d", "q"]]
    return spec


def run_invalid(case, note):
    kind = case["kind"]
    # the same with a whole number is accepted
    good = one(case, "lit" if kind == "lit" else "par", 1)
    study.compare_problem(study.solve_problem_api(good), study.Ref(good))
    spec = one(case, kind, case["value"])
    rejected(
        lambda: study.solve_problem_api(spec).export_as_lp(),
        f"time bound {case['value']} ({kind}, {case['wrap']}, {case['op']} in {case['where']})",
    )
    note(f"+invalid bound: {kind}")


TESTS = [
    Test("problem", profile, run, 2400, 60000),
    Test("scenarios", lambda: profile(S=(1, 3), scen_ops=True), run, 800, 20000),
    Test(
        "long blocks",
        lambda: profile(large=True, models=(1, 1), cons=(1, 1), depth=2, params=(1, 3)),
        run,
        100,
        6000,
    ),
    Test("months", months, run_months, 40, 1500),
    Test("window", window, run_window, 800, 20000),
    Test("invalid", invalid, run_invalid, 400, 4000),
]
