"""A study given by files is the same as given in Python; system resolution."""
import copy

import yaml
from hypothesis import strategies as st

from .. import gen, study
from ..runner import Test, Violation, rejected
from ..scratch import directory

PROPERTY = "C16"
RULE = (
    "random studies written as library, system and series files and read back: the "
    "problem must be the one of the independent interpretation and of the same study "
    "built in Python, whatever the order of the components and connections of the "
    "file and with models spread over several libraries; references to unknown "
    "libraries, models, components, ports and unknown keys are refused. Non-trivial: "
    "at least one constraint and one parameter series or connection, or an invalid file"
)


def profile(**kw):
    base = dict(models=(1, 3), comps=(1, 4), cons=(0, 2), depth=3, port_types=(0, 1))
    base.update(kw)
    return gen.specs(**base)


def interesting(spec):
    return any(m["cons"] for m in spec["models"]) and (
        spec["conns"]
        or any(d["kind"] != "const" for c in spec["comps"] for d in c["data"].values())
    )


@st.composite
def cases(draw, **kw):
    return {"spec": draw(profile(**kw)), "full": draw(st.booleans())}


def run(case, note):
    spec = case["spec"]
    with directory() as path:
        problem = study.solve_problem_yaml(spec, path, full=case["full"])
    study.compare_problem(problem, study.Ref(spec))
    study.compare_to_signature(
        problem, study.problem_signature(study.solve_problem_api(spec))
    )
    if interesting(spec):
        note("+constraints with series or connections")
    if any(c["node"] for c in spec["comps"]):
        note("nodes")


@st.composite
def split(draw):
    spec = draw(profile(models=(2, 3), comps=(2, 4), port_types=(1, 1)))
    n = len(spec["models"])
    return {
        "spec": spec,
        "lib": [draw(st.integers(0, 2)) for _ in range(n)],
        "comps": draw(st.permutations(range(len(spec["comps"])))),
        "conns": draw(st.permutations(range(len(spec["conns"])))),
        "same_ids": draw(st.booleans()),
    }


def run_split(case, note):
    """Models spread over libraries which depend on the one with port types"""
    from andromede.simulation import TimeBlock, build_problem

    spec = case["spec"]
    with directory() as path:
        lib, system = study.yaml_documents(spec, str(path))
        lib, system = yaml.safe_load(lib)["library"], yaml.safe_load(system)["system"]
        where = {m["id"]: f"lib{k}" for m, k in zip(spec["models"], case["lib"])}
        # the same model identifier may be used in several libraries
        rank, alias = {}, {}
        for m in spec["models"]:
            k = where[m["id"]]
            alias[m["id"]] = f"m{rank.get(k, 0)}" if case["same_ids"] else m["id"]
            rank[k] = rank.get(k, 0) + 1
        libs = [{"id": "types", "port-types": lib["port-types"]}]
        for k in range(3):
            libs.append(
                {
                    "id": f"lib{k}",
                    "dependencies": ["types"],
                    "models": [
                        dict(m, id=alias[m["id"]])
                        for m in lib["models"]
                        if where[m["id"]] == f"lib{k}"
                    ],
                }
            )
        for key in ("components", "nodes"):
            for c in system.get(key, []):
                m = c["model"].split(".")[1]
                c["model"] = f"{where[m]}.{alias[m]}"
        order = {spec["comps"][i]["id"]: k for k, i in enumerate(case["comps"])}
        for key in ("components", "nodes"):
            if key in system:
                system[key] = sorted(system[key], key=lambda c: order[c["id"]])
        if "connections" in system:
            system["connections"] = [system["connections"][i] for i in case["conns"]]
        network, db = study.load_system(
            yaml.safe_dump({"system": system}),
            study.load_libraries([yaml.safe_dump({"library": l}) for l in libs]),
            path,
        )
        problem = build_problem(
            network, db, TimeBlock(1, list(spec["timesteps"])), spec["scenarios"]
        )
    study.compare_problem(problem, study.Ref(spec))
    if interesting(spec):
        note("+constraints with series or connections")
    if len(set(where.values())) > 1:
        note("several libraries")


# ------------------------------------------------------------------ invalid


@st.composite
def invalid(draw):
    spec = draw(profile(models=(2, 2), comps=(2, 3), port_types=(1, 1), cons=(0, 0)))
    return {
        "spec": spec,
        "kind": draw(
            st.sampled_from(
                ["library", "model", "no-dot", "component1", "component2", "port1", "port2", "key", "param-key", "no-model", "conn-key", "no-id"]
            )
        ),
        "i": draw(st.integers(0, 5)),
    }


def run_invalid(case, note):
    spec, kind, i = case["spec"], case["kind"], case["i"]
    if kind in ("component1", "component2", "port1", "port2", "conn-key") and not spec["conns"]:
        return
    with directory() as path:
        lib, system = study.yaml_documents(spec, str(path))
        libs = study.load_libraries([lib])
        study.load_system(system, libs, path)
        tree = yaml.safe_load(system)["system"]
        comps = tree.get("components", []) + tree.get("nodes", [])
        c = comps[i % len(comps)]
        if kind == "library":
            c["model"] = "missing." + c["model"].split(".")[1]
        elif kind == "model":
            c["model"] = "lib.missing"
        elif kind == "no-dot":
            c["model"] = c["model"].split(".")[1]
        elif kind == "key":
            c["parameter"] = []
        elif kind == "no-model":
            del c["model"]
        elif kind == "no-id":
            del c["id"]
        elif kind == "param-key":
            c["parameters"] = c["parameters"] + [{"id": "zz", "value": 1, "valeu": 2}]
        elif kind == "conn-key":
            tree["connections"][i % len(tree["connections"])]["port3"] = "q0"
        else:
            tree["connections"][i % len(tree["connections"])][kind] = "missing"
        text = yaml.safe_dump({"system": tree})
        rejected(lambda: study.load_system(text, libs, path), f"invalid system ({kind})")
    note(f"+invalid: {kind}")


@st.composite
def consistency(draw):
    n = draw(st.integers(0, 12))
    return {
        "models": draw(st.lists(st.integers(0, 5), min_size=n, max_size=n)),
        "known": sorted(draw(st.sets(st.integers(0, 5)))),
        "shuffled": draw(st.booleans()),
    }


def run_consistency(case, note):
    """Components whose models are all among the models given, or not"""
    from andromede.model import model
    from andromede.study import create_component
    from andromede.study.resolve_components import consistency_check

    models = {k: model(f"m{k}") for k in range(6)}
    comps = {f"c{i}": create_component(models[k], f"c{i}") for i, k in enumerate(case["models"])}
    if case["shuffled"]:
        comps = dict(reversed(comps.items()))
    known = {f"m{k}": models[k] for k in case["known"]}
    if set(case["models"]) <= set(case["known"]):
        if consistency_check(comps, known) is not True:
            raise Violation("consistent components not accepted")
        note("consistent")
    else:
        rejected(lambda: consistency_check(comps, known), f"models {case['models']} of {case['known']}")
        note("+component with an unknown model")


TESTS = [
    Test("consistency", consistency, run_consistency, 320, 5000),
    Test("files", cases, run, 480, 12000),
    Test(
        "large",
        lambda: cases(large=True, models=(1, 2), comps=(1, 3), cons=(0, 1), depth=2),
        run,
        40,
        2000,
    ),
    Test(
        "many",
        lambda: cases(
            T=(1, 2), S=(1, 1), models=(2, 8), comps=(6, 12), cons=(0, 6), params=(3, 12),
            vars=(1, 8), depth=1, port_types=(1, 4), fields=(1, 5), ports=(1, 4),
        ),
        run,
        40,
        2000,
    ),
    Test("split", split, run_split, 320, 8000),
    Test("invalid", invalid, run_invalid, 320, 5000),
]
