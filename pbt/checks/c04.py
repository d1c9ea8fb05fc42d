"""Decision variables: index set, bounds, type."""
from hypothesis import strategies as st

from .. import gen, magnitudes, study
from ..runner import Test, Violation, rejected

PROPERTY = "C04"
RULE = (
    "random models whose variables have random dependencies, types and bounds "
    "(numbers or formulas on parameters, some of them inconsistent), instantiated "
    "with random data: either the bounds are inconsistent at one index and the build "
    "is refused, or the problem has exactly one solver variable per index, with the "
    "bounds of this index, its type and a unique name. Non-trivial: a bound that "
    "depends on a parameter, or inconsistent bounds"
)


def profile(**kw):
    base = dict(T=(1, 4), S=(1, 3), models=(1, 2), comps=(1, 3), vars=(1, 4), cons=(0, 0), objective=False)
    base.update(kw)
    return gen.specs(**base)


def run(spec, note):
    ref = study.Ref(spec)
    expected = ref.variables()
    bad = [k for k, v in expected.items() if v[3]]
    if bad:
        rejected(
            lambda: study.solve_problem_api(spec).export_as_lp(),
            f"lower bound over upper bound for {bad[0]}",
        )
        note("+inconsistent bounds rejected")
        return
    if any(v[0] > v[1] for v in expected.values()):
        note("empty boolean domain")
        return
    problem = study.solve_problem_api(spec)
    study.compare_variables(problem, expected)
    names = [v.name() for v in problem.solver.variables()]
    if len(set(names)) != len(names):
        twice = sorted(n for n in set(names) if names.count(n) > 1)
        raise Violation(f"two solver variables with the same name: {twice[:5]}")
    for key, v in study.problem_variables(problem).items():
        comp, var, t, s = key
        parts = [comp, var]
        if t is not None and ref.T > 1:
            parts.append(str(t))
        if s is not None and ref.S > 1:
            parts.append(str(s))
        if any(x not in v.name() for x in parts):
            raise Violation(f"the name {v.name()!r} of {key} does not tell it")
    for m in spec["models"]:
        for v in m["vars"]:
            note(f"type {v['type']}")
            for b in (v["lb"], v["ub"]):
                if b is not None:
                    t, s = gen.structure(b, m)
                    if t:
                        note("bound varies in time")
                    if s:
                        note("bound varies with scenario")
                    if "par" in str(b):
                        note("+bound depends on a parameter")


@st.composite
def invalid(draw):
    """A bound that depends on more than its variable does"""
    g = gen.G(draw, gen.Profile())
    dim = g.pick(["time", "scen"])
    both = g.flag()
    return {
        "dim": dim,
        "other": both,
        "which": g.pick(["lb", "ub"]),
        "T": g.int(2, 3),
        "wrap": g.pick(["par", "neg", "add", "mul"]),
    }


def run_invalid(case, note):
    time, scen = case["dim"] == "time", case["dim"] == "scen"
    n = case["T"]
    p = ["par", "p"]
    bound = {
        "par": p,
        "neg": ["neg", p],
        "add": ["add", ["lit", 1], p],
        "mul": ["mul", p, ["lit", 2]],
    }[case["wrap"]]
    data = (
        {"kind": "time", "values": [10 + i for i in range(n)]}
        if time
        else {"kind": "scen", "values": [10 + i for i in range(n)]}
    )
    spec = {
        "port_types": [],
        "models": [
            {
                "id": "m",
                "params": [{"name": "p", "time": time, "scen": scen, "role": "num"}],
                "vars": [
                    {
                        "name": "x",
                        "time": scen and case["other"],
                        "scen": time and case["other"],
                        "type": "continuous",
                        "lb": bound if case["which"] == "lb" else None,
                        "ub": bound if case["which"] == "ub" else None,
                    }
                ],
                "ports": [],
                "defs": [],
                "cons": [],
            }
        ],
        "comps": [{"id": "c", "model": "m", "node": False, "data": {"p": data}}],
        "conns": [],
        "timesteps": list(range(n)),
        "scenarios": n,
    }
    rejected(
        lambda: study.solve_problem_api(spec).export_as_lp(),
        f"{case['dim']}-dependent bound of a variable which is not",
    )
    note(f"+bound of a constant variable depends on {case['dim']}")


TESTS = [
    Test("magnitudes", magnitudes.cases, magnitudes.check("variables"), 320, 6000),
    Test("consistent", profile, run, 2400, 60000),
    Test("any-bounds", lambda: profile(safe_bounds=False), run, 1600, 40000),
    Test(
        "large", lambda: profile(large=True, models=(1, 1), comps=(1, 2), vars=(1, 2)), run, 80, 4000
    ),
    Test("invalid", invalid, run_invalid, 160, 1000),
]
