"""Objective function."""
import copy

from hypothesis import strategies as st

from .. import gen, magnitudes, study
from ..runner import Test, rejected

PROPERTY = "C06"
RULE = (
    "random studies whose models have operational and investment contributions; the "
    "objective of the built problem is compared, coefficient by coefficient and with "
    "its constant, with the sum over components of an independent interpretation, "
    "weighted by the probability of the risk strategy, for merged, investment and "
    "operational selections; contributions that depend on time or scenario or are "
    "not linear are refused. Non-trivial: at least two components contribute, or "
    "the contribution is invalid"
)


def profile(**kw):
    base = dict(
        T=(1, 3),
        S=(1, 3),
        models=(1, 3),
        comps=(1, 4),
        cons=(0, 1),
        vars=(1, 3),
        depth=3,
        invest=True,
    )
    base.update(kw)
    return gen.specs(**base)


@st.composite
def case(draw, **kw):
    spec = draw(profile(**kw))
    return {
        "spec": spec,
        "prob": draw(st.sampled_from([None, 1, 0.5, 0.25, 0, 0.1, 1 / 3, 0.12345])),
    }


def run(case, note):
    from andromede.simulation.strategy import ExpectedValue

    spec, prob = case["spec"], case["prob"]
    kwargs = {} if prob is None else {"risk_strategy": ExpectedValue(prob)}
    problem = study.solve_problem_api(spec, **kwargs)
    ref = study.Ref(spec)
    by_index = {v.index(): k for k, v in study.problem_variables(problem).items()}
    study.compare_objective(
        problem, by_index, ref.objective(factor=1.0 if prob is None else prob)
    )
    n = sum(
        1
        for c in spec["comps"]
        for k in ("obj", "inv")
        if ref.model_of(c["id"])[k] is not None
    )
    if n >= 2:
        note("+several contributions")
    if prob is not None:
        note("weighted by a probability")


@st.composite
def contexts(draw):
    """Contributions on the variables of their own context"""
    g = gen.G(draw, gen.Profile(T=(1, 2), S=(1, 2), models=(1, 2), comps=(1, 3), cons=(0, 0), vars=(1, 4), objective=False))
    spec = g.spec()
    for m in spec["models"]:
        for v in m["vars"]:
            v["ctx"] = g.pick(["operational", "investment", "coupling"])
        for k, no in (("obj", "investment"), ("inv", "operational")):
            if g.flag():
                sub = dict(m, vars=[v for v in m["vars"] if v["ctx"] != no])
                m[k] = g.objective(sub)
    return {"spec": spec, "which": g.pick(["merged", "investment", "operational"])}


def run_contexts(case, note):
    from andromede.simulation.strategy import (
        InvestmentProblemStrategy,
        MergedProblemStrategy,
        OperationalProblemStrategy,
    )

    spec, which = case["spec"], case["which"]
    strategy = {
        "merged": MergedProblemStrategy,
        "investment": InvestmentProblemStrategy,
        "operational": OperationalProblemStrategy,
    }[which]()
    problem = study.solve_problem_api(spec, build_strategy=strategy)
    ref = study.Ref(spec)

    def keep(ctx):
        return which == "merged" or ctx in (which, "coupling")

    study.compare_variables(problem, ref.variables(keep))
    by_index = {v.index(): k for k, v in study.problem_variables(problem).items()}
    terms = {"merged": ("obj", "inv"), "investment": ("inv",), "operational": ("obj",)}
    study.compare_objective(problem, by_index, ref.objective(terms[which]))
    if any(m[k] is not None for m in spec["models"] for k in terms[which]):
        note(f"+{which} objective")


# ------------------------------------------------------------------ invalid


@st.composite
def invalid(draw):
    g = gen.G(draw, gen.Profile())
    return {
        "kind": g.pick(["time", "scen", "product", "square", "divide", "both"]),
        "where": g.pick(["obj", "inv"]),
        "wrap": g.pick(["none", "allsum", "expec", "add", "neg"]),
        "source": g.pick(["var", "par"]),
    }


def run_invalid(case, note):
    kind, source = case["kind"], case["source"]
    time = kind in ("time", "both")
    scen = kind in ("scen", "both")
    x = ["var", "x"]
    if kind == "product":
        e = ["mul", x, ["var", "y"]]
    elif kind == "square":
        e = ["mul", ["add", x, ["lit", 1]], x]
    elif kind == "divide":
        e = ["div", ["lit", 1], x]
    else:
        e = [source, "x" if source == "var" else "p"]
    wrap = case["wrap"]
    if wrap == "neg":
        e = ["neg", e]
    elif wrap == "add":
        e = ["add", ["var", "y"], e]
    elif wrap == "allsum":
        e = ["allsum", e]
        if kind == "time":
            return  # valid
    elif wrap == "expec":
        e = ["expec", e]
        if kind == "scen":
            return
    b = {"type": "continuous", "lb": None, "ub": None}
    spec = {
        "port_types": [],
        "models": [
            {
                "id": "m",
                "params": [{"name": "p", "time": time, "scen": scen, "role": "num"}],
                "vars": [
                    {"name": "x", "time": time, "scen": scen, **b},
                    {"name": "y", "time": False, "scen": False, **b},
                ],
                "ports": [],
                "defs": [],
                "cons": [],
                case["where"]: e,
            }
        ],
    }
    rejected(lambda: study.build_models(spec), f"objective contribution {e} ({kind})")
    note(f"+invalid contribution: {kind}")


TESTS = [
    Test("magnitudes", magnitudes.cases, magnitudes.check("objective"), 320, 6000),
    Test("sum", case, run, 2000, 50000),
    Test(
        "large",
        lambda: case(large=True, models=(1, 2), comps=(1, 3), vars=(1, 2), cons=(0, 0)),
        run,
        80,
        4000,
    ),
    Test(
        "many terms",
        lambda: case(
            T=(1, 3), S=(1, 2), models=(1, 1), comps=(1, 2), cons=(0, 0), depth=1,
            vars=(3, 8), params=(0, 2), terms=(6, 30),
        ),
        run,
        60,
        4000,
    ),
    Test("contexts", contexts, run_contexts, 1200, 30000),
    Test("invalid", invalid, run_invalid, 240, 1500),
]
