"""Resolution of libraries of models."""
import yaml
from hypothesis import strategies as st

from .. import asts, gen, study
from ..runner import Test, Violation, rejected

PROPERTY = "C15"
RULE = (
    "random sets of libraries with random dependency graphs, given in random order: "
    "every library is resolved once with all its models, whose ports refer to the port "
    "types of the library or of its direct or indirect dependencies, and the result "
    "does not depend on the order; cycles, unknown dependencies, port types out of "
    "reach or defined twice, and models defined twice are refused; models written in "
    "YAML equal the same models built in Python. Non-trivial: at least one dependency, "
    "or an invalid set"
)


@st.composite
def graphs(draw, libraries=6, dependencies=3, types=3, models=2):
    n = draw(st.integers(1, libraries))
    libs = []
    for i in range(n):
        deps = draw(st.lists(st.integers(0, i - 1), max_size=dependencies, unique=True)) if i else []
        libs.append(
            {
                "deps": deps,
                "types": draw(st.integers(0, types)),
                "models": draw(st.integers(0, models)),
                "use": [draw(st.integers(0, 20)) for _ in range(models)],
            }
        )
    perm = draw(st.permutations(range(n)))
    return {
        "libs": libs,
        "order": perm,
        "names": draw(st.permutations(["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"])),
        "preloaded": draw(st.lists(st.integers(0, n - 1), max_size=2, unique=True))
        if draw(st.booleans())
        else [],
    }


def reach(libs, i):
    seen, todo = set(), [i]
    while todo:
        k = todo.pop()
        if k not in seen:
            seen.add(k)
            todo += libs[k]["deps"]
    return seen


def types_of(i, lib):
    fields = [["f0"], ["f1", "g"], [], ["g", "f1", "h", "e", "d"], [], ["h"]]
    return [(f"t{i}_{k}", fields[k]) for k in range(lib["types"])]


def plan(case):
    """Per library: models -> (port type, fields)"""
    libs = case["libs"]
    out = []
    for i, lib in enumerate(libs):
        available = [t for k in sorted(reach(libs, i)) for t in types_of(k, libs[k])]
        models = {}
        for j in range(lib["models"]):
            port = available[lib["use"][j] % len(available)] if available else None
            models[f"m{j}"] = port
        out.append(models)
    return out


def documents(case, mistake=None):
    libs = case["libs"]
    names = case["names"]
    docs = {}
    for i, (lib, models) in enumerate(zip(libs, plan(case))):
        docs[i] = {
            "id": names[i],
            "dependencies": [names[d] for d in lib["deps"]],
            "port-types": [
                {"id": t, "fields": [{"id": f} for f in fs]} for t, fs in types_of(i, lib)
            ],
            "models": [
                {
                    "id": m,
                    "variables": [{"id": "x", "lower-bound": str(10 * i)}],
                    **(
                        {}
                        if port is None
                        else {
                            "ports": [{"id": "q", "type": port[0]}],
                            "port-field-definitions": [
                                {"port": "q", "field": f, "definition": "x"}
                                for f in port[1]
                            ],
                        }
                    ),
                }
                for m, port in models.items()
            ],
        }
    return docs


def text(doc):
    return yaml.safe_dump({"library": doc}, sort_keys=False)


def check_library(case, i, lib, models):
    names = case["names"]
    if lib.id != names[i]:
        raise Violation(f"library {names[i]} resolved as {lib.id}")
    if set(lib.models) != set(models):
        raise Violation(f"library {names[i]}: models {sorted(lib.models)}")
    own = dict(types_of(i, case["libs"][i]))
    for t, fs in own.items():
        if t not in lib.port_types or [f.name for f in lib.port_types[t].fields] != fs:
            raise Violation(f"library {names[i]}: port type {t} lost or changed")
    for m, port in models.items():
        got = lib.models[m]
        if got.id != m or asts.from_expr(got.variables["x"].lower_bound) != ["lit", 10 * i]:
            raise Violation(f"library {names[i]}: wrong model {m}")
        if port is None:
            if got.ports:
                raise Violation(f"library {names[i]}: unexpected ports for {m}")
            continue
        q = got.ports["q"].port_type
        if q.id != port[0] or [f.name for f in q.fields] != port[1]:
            raise Violation(f"library {names[i]}: port of {m} is {q}, expected {port}")
        if {d.field_name for d in got.port_fields_definitions} != set(port[1]):
            raise Violation(f"library {names[i]}: definitions of {m}")


def run(case, note):
    docs = documents(case)
    libs = case["libs"]
    # preloaded libraries: closed under dependencies, as they were resolved before
    pre = set()
    for i in case["preloaded"]:
        pre |= reach(libs, i)
    preloaded = None
    if pre:
        first = study.load_libraries([text(docs[i]) for i in sorted(pre)])
        preloaded = list(first.values())
    rest = [i for i in case["order"] if i not in pre]
    if rest or not preloaded:
        result = study.load_libraries([text(docs[i]) for i in rest], preloaded)
    else:
        result = first
    names = case["names"]
    if set(result) != {names[i] for i in range(len(libs))}:
        raise Violation(f"libraries {sorted(result)}, expected {[names[i] for i in docs]}")
    for i, models in enumerate(plan(case)):
        check_library(case, i, result[names[i]], models)
    if any(l["deps"] for l in libs):
        note("+dependencies")
    if any(len(reach(libs, i)) > 1 + len(l["deps"]) for i, l in enumerate(libs)):
        note("indirect dependencies")
    if pre and rest:
        note("+preloaded libraries")


# ------------------------------------------------------------------ invalid


@st.composite
def invalid(draw):
    case = draw(graphs())
    return {
        "case": case,
        "kind": draw(
            st.sampled_from(
                ["cycle", "unknown-dep", "model-twice", "type-twice", "unreachable", "unknown-type", "unknown-name", "bad-text", "unknown-key", "variable-type", "bad-definition", "no-id"]
            )
        ),
        "i": draw(st.integers(0, 5)),
        "j": draw(st.integers(0, 5)),
    }


def run_invalid(icase, note):
    case, kind = icase["case"], icase["kind"]
    libs = case["libs"]
    docs = documents(case)
    n = len(libs)
    i, j = icase["i"] % n, icase["j"] % n
    names = case["names"]
    extra = {"id": "extra", "variables": [{"id": "x"}]}
    if kind == "cycle":
        # j reaches i: making i depend on j closes a cycle
        j = [k for k in range(n) if i in reach(libs, k)][icase["j"] % len([k for k in range(n) if i in reach(libs, k)])]
        docs[i]["dependencies"] = docs[i]["dependencies"] + [names[j]]
    elif kind == "unknown-dep":
        docs[i]["dependencies"] = docs[i]["dependencies"] + ["missing"]
    elif kind == "model-twice":
        docs[i]["models"] += [extra, dict(extra)]
    elif kind == "type-twice":
        below = sorted(reach(libs, i) - {i})
        t = [x for k in below for x in types_of(k, libs[k])]
        if not t:
            return
        docs[i]["port-types"].append({"id": t[icase["j"] % len(t)][0], "fields": [{"id": "z"}]})
    elif kind == "unreachable":
        others = sorted(set(range(n)) - reach(libs, i))
        t = [x for k in others for x in types_of(k, libs[k])]
        if not t:
            return
        extra["ports"] = [{"id": "q", "type": t[icase["j"] % len(t)][0]}]
        docs[i]["models"].append(extra)
    elif kind == "unknown-type":
        extra["ports"] = [{"id": "q", "type": "missing"}]
        docs[i]["models"].append(extra)
    elif kind == "unknown-name":
        extra["constraints"] = [{"id": "k", "expression": "x + missing <= 1"}]
        docs[i]["models"].append(extra)
    elif kind == "bad-text":
        bad = ["x +", "x <= ", "x ! 1", "(x", "x y", "2x", "x[t+]", "sum(x", "x <= 1 #", "x **2", "$x"]
        where = ["constraints", "objective", "lower-bound"][icase["i"] % 3]
        b = bad[(icase["j"] * 6 + icase["i"]) % len(bad)]
        if where == "constraints":
            extra["constraints"] = [{"id": "k", "expression": b}]
        elif where == "objective":
            extra["objective"] = b
        else:
            extra["variables"] = [{"id": "x", "lower-bound": b}]
        docs[i]["models"].append(extra)
    elif kind == "unknown-key":
        target = [docs[i], extra, extra["variables"][0]][icase["j"] % 3]
        target[["unknown", "lower_boundd", "Models", "time-dependant"][icase["i"] % 4]] = "1"
        docs[i]["models"].append(extra)
    elif kind == "variable-type":
        extra["variables"][0]["variable-type"] = ["float", "int", "Continuous", "bin"][icase["j"] % 4]
        docs[i]["models"].append(extra)
    elif kind == "bad-definition":
        docs[i]["port-types"].append({"id": "newtype", "fields": [{"id": "z"}]})
        extra["ports"] = [{"id": "q", "type": "newtype"}]
        extra["port-field-definitions"] = [
            {"port": ["q", "r"][icase["j"] % 2], "field": "w", "definition": "x"}
        ]
        docs[i]["models"].append(extra)
    elif kind == "no-id":
        target = [docs[i], extra, extra["variables"][0]][icase["j"] % 3]
        docs[i]["models"].append(extra)
        del target["id"]
    rejected(
        lambda: study.load_libraries([text(docs[k]) for k in case["order"]]),
        f"invalid libraries ({kind})",
    )
    note(f"+invalid: {kind}")


# ------------------------------------------------------ models YAML / Python


def run_models(spec, note):
    """The resolved model has the content of its text"""
    lib, _ = study.yaml_documents({**spec, "comps": []}, "")
    got = study.load_libraries([lib])["lib"].models
    expected = study.build_models(spec)
    if list(got) != list(expected):
        raise Violation(f"models {list(got)}")
    vt = {"continuous": "CONTINUOUS", "integer": "INTEGER", "boolean": "BOOLEAN"}
    for m in spec["models"]:
        g = got[m["id"]]
        if list(g.parameters) != [p["name"] for p in m["params"]] or list(
            g.variables
        ) != [v["name"] for v in m["vars"]]:
            raise Violation(f"names of {m['id']}: {list(g.parameters)} {list(g.variables)}")
        for p in m["params"]:
            s = g.parameters[p["name"]].structure
            if (s.time, s.scenario) != (p["time"], p["scen"]):
                raise Violation(f"dependencies of parameter {p}: {s}")
        for v in m["vars"]:
            w = g.variables[v["name"]]
            if (w.structure.time, w.structure.scenario) != (v["time"], v["scen"]):
                raise Violation(f"dependencies of variable {v}: {w.structure}")
            if w.data_type.name != vt[v["type"]]:
                raise Violation(f"type of variable {v}: {w.data_type}")
        if {(p, q.port_type.id) for p, q in g.ports.items()} != {
            (p["name"], p["type"]) for p in m["ports"]
        }:
            raise Violation(f"ports of {m['id']}: {g.ports}")
        if {(d.port_name, d.field_name) for d in g.port_fields_definitions} != {
            (d["port"], d["field"]) for d in m["defs"]
        }:
            raise Violation(f"definitions of {m['id']}")
        if set(g.constraints) != {c["name"] for c in m["cons"] if not c["binding"]} or set(
            g.binding_constraints
        ) != {c["name"] for c in m["cons"] if c["binding"]}:
            raise Violation(f"constraints of {m['id']}")
        if (g.objective_operational_contribution is None) != (m["obj"] is None):
            raise Violation(f"objective of {m['id']}")
        if m["cons"]:
            note("+with constraints")


@st.composite
def defaults(draw):
    return {
        "vars": draw(st.lists(st.tuples(st.sampled_from([None, True, False]), st.sampled_from([None, True, False]), st.sampled_from([None, "continuous", "integer", "binary", "boolean"]), st.sampled_from([None, 0, 3.5, "p", -2, "2 * p"])).map(list), min_size=1, max_size=4)),
        "params": draw(st.lists(st.tuples(st.sampled_from([None, True, False]), st.sampled_from([None, True, False])).map(list), max_size=3)),
        "side": draw(st.sampled_from(["lower-bound", "upper-bound"])),
    }


def run_defaults(case, note):
    def put(d, t, s):
        if t is not None:
            d["time-dependent"] = t
        if s is not None:
            d["scenario-dependent"] = s
        return d

    params = [{"id": "p"}] + [
        put({"id": f"p{i}"}, *p) for i, p in enumerate(case["params"])
    ]
    variables = []
    for i, (t, s, kind, bound) in enumerate(case["vars"]):
        d = put({"id": f"x{i}"}, t, s)
        if kind is not None:
            d["variable-type"] = kind
        if bound is not None:
            d[case["side"]] = bound
        variables.append(d)
    m = study.load_libraries(
        [text({"id": "lib", "models": [{"id": "m", "parameters": params, "variables": variables}]})]
    )["lib"].models["m"]
    for i, (t, s) in enumerate(case["params"]):
        st_ = m.parameters[f"p{i}"].structure
        if (st_.time, st_.scenario) != (bool(t), bool(s)):
            raise Violation(f"parameter {t} {s}: {st_}")
    for i, (t, s, kind, bound) in enumerate(case["vars"]):
        v = m.variables[f"x{i}"]
        if (v.structure.time, v.structure.scenario) != (t is not False, s is not False):
            raise Violation(f"variable {t} {s}: {v.structure}")
        name = {None: "CONTINUOUS", "binary": "BOOLEAN"}.get(kind, (kind or "").upper())
        if v.data_type.name != name:
            raise Violation(f"variable type {kind}: {v.data_type}")
        b = {"lower-bound": v.lower_bound, "upper-bound": v.upper_bound}
        other = [x for k, x in b.items() if k != case["side"]][0]
        if other is not None:
            raise Violation(f"unexpected bound {other}")
        mine = b[case["side"]]
        if bound is None:
            if mine is not None:
                raise Violation(f"unexpected bound {mine}")
        else:

            class E:
                T = S = 1

                def par(self, n, t, s):
                    return 1.25

            want = {"p": 1.25, "2 * p": 2.5}.get(bound, bound)
            if mine is None or asts.value(asts.from_expr(mine), E()) != want:
                raise Violation(f"bound {bound} read as {mine}")
    note("+defaults")


TESTS = [
    Test("graphs", graphs, run, 800, 20000),
    Test("many", lambda: graphs(libraries=10, dependencies=8, types=6, models=9), run, 80, 4000),
    Test("invalid", invalid, run_invalid, 800, 10000),
    Test(
        "models",
        lambda: gen.specs(models=(1, 3), port_types=(0, 2), cons=(0, 3)),
        run_models,
        400,
        10000,
    ),
    Test("defaults", defaults, run_defaults, 320, 6000),
]
