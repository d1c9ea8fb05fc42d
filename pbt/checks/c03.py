"""Scenarios and expectations."""
import copy

from hypothesis import strategies as st

from .. import asts, gen, study
from ..runner import Test

PROPERTY = "C03"
RULE = (
    "random studies with several scenarios, expectations (also nested) and data "
    "whose columns are assigned to scenarios by a random mapping, compared with an "
    "independent interpretation; exchanging two scenarios of the data only exchanges "
    "the variables and rows of these scenarios. Non-trivial: at least two scenarios "
    "and an expectation of, or a row on, something that depends on the scenario"
)


def profile(**kw):
    base = dict(T=(1, 2), S=(1, 4), models=(1, 2), comps=(1, 2), cons=(1, 2), depth=3, maps=True, op_weight=3, varying=True)
    base.update(kw)
    return gen.specs(**base)


def scenario_dependent(spec):
    for m in spec["models"]:
        exprs = []
        for c in m["cons"]:
            exprs += c["cmp"][1:] if "cmp" in c else [c["expr"]]
        if m.get("obj"):
            exprs.append(m["obj"])
        for e in exprs:
            if gen.structure(e, m)[1]:
                yield "row"
            for n in asts.walk(e):
                if n[0] == "expec" and gen.structure(n[1], m)[1]:
                    yield "expectation"
                    if "expec" in asts.ops_of(n[1]):
                        yield "nested expectation"


def run(spec, note):
    problem = study.solve_problem_api(spec)
    ref = study.Ref(spec)
    study.compare_problem(problem, ref)
    kinds = set(scenario_dependent(spec))
    for k in kinds:
        note(("+" if ref.S > 1 else "") + k)
    if any("map" in d for c in spec["comps"] for d in c["data"].values()):
        note("scenario mapping")


@st.composite
def permuted(draw):
    spec = draw(profile(S=(2, 4), maps=False))
    return {"spec": spec, "perm": draw(st.permutations(range(spec["scenarios"])))}


def run_permuted(case, note):
    spec, perm = case["spec"], case["perm"]
    other = copy.deepcopy(spec)
    for c in other["comps"]:
        for d in c["data"].values():
            if d["kind"] == "scen":
                d["values"] = [d["values"][perm[s]] for s in range(len(perm))]
            elif d["kind"] == "both":
                d["values"] = [[r[perm[s]] for s in range(len(perm))] for r in d["values"]]
    # scenario s of `other` is scenario perm[s] of `spec`
    sig = study.problem_signature(study.solve_problem_api(other))

    def key(k):
        return (k[0], k[1], k[2], None if k[3] is None else perm[k[3]])

    expected = {
        "variables": {key(k): v for k, v in sig["variables"].items()},
        "rows": [({key(k): v for k, v in r[0].items()}, *r[1:]) for r in sig["rows"]],
        "objective": (
            {key(k): v for k, v in sig["objective"][0].items()},
            sig["objective"][1],
        ),
    }
    study.compare_to_signature(study.solve_problem_api(spec), expected)
    if sorted(perm) != perm and set(scenario_dependent(spec)):
        note("+scenarios exchanged")


TESTS = [
    Test("problem", profile, run, 2400, 60000),
    Test("deep", lambda: profile(models=(1, 1), comps=(1, 1), T=(1, 3), depth=5), run, 800, 20000),
    Test(
        "many scenarios",
        lambda: profile(large=True, models=(1, 1), comps=(1, 2), cons=(1, 1), depth=2),
        run,
        60,
        4000,
    ),
    Test("permuted", permuted, run_permuted, 600, 15000),
]
