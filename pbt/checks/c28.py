"""Objects of the same name: refused where one would hide the other, kept apart elsewhere."""
import copy

import yaml
from hypothesis import strategies as st

from .. import gen, study
from ..runner import Test, Violation, rejected
from ..scratch import directory

PROPERTY = "C28"
RULE = (
    "random studies in files, in which one object (library, port type, variable, "
    "parameter, constraint, binding constraint, port, port field definition, model, "
    "component, node, value of a parameter) is declared a second time, with the same "
    "or another content, anywhere in its list: they are refused; so are the same "
    "models, networks and libraries made in Python, port types that differ between two dependencies, and "
    "libraries with the identifier of one resolved before. The "
    "same names for objects of different kinds, models, libraries or components are "
    "kept apart: the problem is the one of the independent interpretation. "
    "Non-trivial: a refused one, or a study with constraints"
)


def profile(**kw):
    base = dict(models=(1, 3), comps=(1, 4), cons=(0, 2), depth=2, port_types=(0, 1))
    base.update(kw)
    return gen.specs(**base, rename=False)


KINDS = [
    "component", "node", "component and node", "value", "variable", "parameter",
    "constraint", "binding constraint", "port", "definition", "model", "port type",
    "library", "variable and parameter", "differing port types",
    "preloaded library", "preloaded port types",
]


@st.composite
def duplicates(draw):
    return {
        "kind": draw(st.sampled_from(KINDS)),
        "spec": draw(profile(models=(1, 2), comps=(1, 3), params=(0, 2), port_types=(0, 1))),
        "i": draw(st.integers(0, 7)),
        "at": draw(st.integers(0, 7)),
        "same": draw(st.booleans()),
        "scenarized": draw(st.booleans()),
        "others": draw(st.integers(0, 2)),
        "before": draw(st.booleans()),
    }


OTHERS = [{"id": "between1"}, {"id": "between2"}]


def again(items, case, twice, change, others=()):
    """A second object of the same identifier, somewhere in the list, with others between"""
    i, at = case["i"] % len(items), case["at"] % (len(items) + 1)
    new = []
    if twice:
        new = [copy.deepcopy(items[i])]
        if not case["same"]:
            change(new[0])
    between = [dict(x) for x in others[: case["others"]]]
    if case["before"]:
        at = min(i, at)
        items[at:at] = new + between
    else:
        at = max(i + 1, at)
        items[at:at] = between + new


def run_duplicates(case, note):
    with directory() as path:
        try:
            read(case, path, twice=False)
        except Exception as e:
            raise Violation(f"{case['kind']} declared once: refused, {e!r}")
    with directory() as path:
        rejected(lambda: read(case, path, twice=True), f"{case['kind']} declared twice")
    note(f"+{case['kind']}")


def loaded(document):
    """The library of a document, resolved alone"""
    return study.load_libraries([yaml.safe_dump({"library": document})])[document["id"]]


def read(case, path, twice):
    """Reads a study, in which an object may be declared twice"""
    import io

    import pandas as pd

    from andromede.study.parsing import parse_yaml_components
    from andromede.study.resolve_components import build_network, build_scenarized_data_base, resolve_system

    spec, kind = case["spec"], case["kind"]
    lib, system = study.yaml_documents(spec, str(path))
    lib, system = yaml.safe_load(lib)["library"], yaml.safe_load(system)["system"]
    if "port-types" not in lib:
        lib["port-types"] = []
    libs = [lib]
    preloaded = None
    m = lib["models"][case["at"] % len(lib["models"])]
    comps = system.setdefault("components", [])
    nodes = system.setdefault("nodes", [])
    if kind in ("component", "node"):
        items = comps if kind == "component" else nodes
        if not items:
            other = nodes if kind == "component" else comps
            items.append(other.pop())
        again(items, case, twice, lambda c: c.update(parameters=[]))
    elif kind == "component and node":
        a, b = (comps, nodes) if comps else (nodes, comps)
        if twice:
            b.append(copy.deepcopy(a[case["i"] % len(a)]))
    elif kind == "value":
        c = (comps + nodes)[case["i"] % len(comps + nodes)]
        if not c.get("parameters"):
            c["parameters"] = [{"id": "other", "value": 1.0}]
        again(c["parameters"], case, twice, lambda p: p.update(value=p["value"] + 1 if isinstance(p["value"], (int, float)) else p["value"]))
    elif kind == "variable":
        if not m.get("variables"):
            m["variables"] = [{"id": "new"}]
        again(m["variables"], case, twice, lambda v: v.update({"lower-bound": "-7"}), OTHERS)
    elif kind == "parameter":
        if not m.get("parameters"):
            m["parameters"] = [{"id": "new"}]
        again(m["parameters"], case, twice, lambda p: p.update({"time-dependent": not p.get("time-dependent", False)}), ())
    elif kind in ("constraint", "binding constraint"):
        key = "constraints" if kind == "constraint" else "binding-constraints"
        if not m.get(key):
            m[key] = [{"id": "new", "expression": "1 <= 2"}]
        again(m[key], case, twice, lambda k: k.update({"expression": "3 >= 1", "lower-bound": None, "upper-bound": None}), [{**x, "expression": "1 <= 2"} for x in OTHERS])
    elif kind in ("port", "definition", "port type"):
        if not lib["port-types"]:
            lib["port-types"] = [{"id": "newtype", "fields": [{"id": "f"}]}]
        if kind == "port type":
            again(lib["port-types"], case, twice, lambda t: t["fields"].append({"id": "added"}), [{**x, "fields": [{"id": "f"}]} for x in OTHERS])
        else:
            t = lib["port-types"][0]
            port = {"id": "newport", "type": t["id"]}
            m["ports"] = (m.get("ports") or []) + [port]
            m["port-field-definitions"] = (m.get("port-field-definitions") or []) + [
                {"port": "newport", "field": f["id"], "definition": "1"} for f in t["fields"]
            ]
            if kind == "port":
                again(m["ports"], case, twice, lambda p: None)
            else:
                again(m["port-field-definitions"], case, twice, lambda d: d.update(definition="2"))
    elif kind == "model":
        again(lib["models"], case, twice, lambda x: x.update(objective="1"), OTHERS)
    elif kind == "library":
        again(libs, case, twice, lambda x: x.update(models=x["models"] + [{"id": "added"}]), OTHERS)
    elif kind == "variable and parameter":
        names = m.get("variables") or []
        if not twice:
            pass
        elif case["same"] and names:
            m["parameters"] = (m.get("parameters") or []) + [{"id": names[case["i"] % len(names)]["id"]}]
        else:
            m["variables"] = names + [{"id": "new"}]
            m["parameters"] = (m.get("parameters") or []) + [{"id": "new"}]
    elif kind == "preloaded library":
        # libraries resolved before, one of them with the identifier of a library to resolve
        first = [{**x, "id": f"{x['id']}-before", "port-types": [], "models": []} for x in OTHERS[: case["others"]]]
        if twice:
            first.insert(case["at"] % (len(first) + 1), {"id": lib["id"], "models": [{"id": "m"}] if case["same"] else []})
        preloaded = [loaded(x) for x in first]
    elif kind == "preloaded port types":
        fields = ["f", "g" if twice else "f"]
        if case["same"]:
            fields.reverse()
        preloaded = [
            loaded({"id": f"before{k}", "port-types": [{"id": "shared", "fields": [{"id": f}]}], "models": []})
            for k, f in enumerate(fields)
        ]
        if case["before"] and twice:  # the same library given twice
            preloaded = [preloaded[0]] * 2
    else:
        # the same identifier in two libraries, another one depends on both
        def with_type(i, field):
            return {"id": i, "port-types": [{"id": "shared", "fields": [{"id": field}]}], "models": []}

        libs += [with_type("first", "f"), with_type("second", "g" if twice else "f")]
        deps = [["first", "second"], ["second", "first"]][case["same"]]
        libs.insert(case["at"] % 4, {"id": "third", "dependencies": deps, "models": []})

    libraries = study.load_libraries([yaml.safe_dump({"library": x}) for x in libs], preloaded)
    text = yaml.safe_dump({"system": system})
    if case["scenarized"]:
        parsed = parse_yaml_components(io.StringIO(text))
        build_network(resolve_system(parsed, libraries))
        build_scenarized_data_base(parsed, pd.DataFrame({"name": [], "year": [], "scenario": []}), path)
    else:
        study.load_system(text, libraries, path)


PYTHON_KINDS = ["variables", "parameters", "constraints", "binding_constraints", "ports", "port_fields_definitions"]


@st.composite
def python(draw):
    return {
        "kind": draw(st.sampled_from(PYTHON_KINDS)),
        "n": draw(st.integers(1, 4)),
        "i": draw(st.integers(0, 3)),
        "at": draw(st.integers(0, 4)),
        "other": draw(st.booleans()),
        "iterator": draw(st.booleans()),
    }


def run_python(case, note):
    from andromede.expression import literal, var
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.model import Constraint, ModelPort, PortField, PortType, float_parameter, float_variable, model
    from andromede.model.port import port_field_def

    kind, n = case["kind"], case["n"]
    pt = PortType("t", [PortField(f"o{k}") for k in range(n)])

    def make(k, other):
        name = f"o{k}"
        if kind == "variables":
            return float_variable(name, lower_bound=literal(1 if other else 0))
        if kind == "parameters":
            return float_parameter(name, IndexingStructure(other, False))
        if kind in ("constraints", "binding_constraints"):
            return Constraint(name, var("y") <= literal(1 if other else 2))
        if kind == "ports":
            return ModelPort(pt, name)
        return port_field_def("q", name, literal(1 if other else 2))

    def build(extra):
        items = [make(k, False) for k in range(n)]
        if extra:
            items.insert(case["at"] % (n + 1), make(case["i"] % n, case["other"]))
        given = {"variables": [float_variable("y")], "ports": [ModelPort(pt, "q")]}
        given[kind] = iter(items) if case["iterator"] and kind != "ports" else items
        return model("m", **given)

    kept = getattr(build(False), kind)
    if len(kept) != n:
        raise Violation(f"{n} {kind} with different names, {len(kept)} kept")
    rejected(lambda: build(True), f"two {kind} of the same name")
    note(f"+{kind}")


CONTAINERS = ["node, component", "component, node", "models", "port types"]


@st.composite
def containers(draw):
    return {
        "kind": draw(st.sampled_from(CONTAINERS)),
        "n": draw(st.integers(1, 5)),
        "i": draw(st.integers(0, 4)),
        "other": draw(st.booleans()),
        "late": draw(st.booleans()),
        "iterator": draw(st.booleans()),
    }


def run_containers(case, note):
    """Networks and libraries made in Python"""
    from andromede.expression import literal
    from andromede.model import PortField, PortType, float_variable, model
    from andromede.model.library import library
    from andromede.study import Network, Node, create_component

    kind, n = case["kind"], case["n"]
    i = case["i"] % n

    def some_model(name, bound):
        return model(name, variables=[float_variable("x", lower_bound=literal(bound))])

    first, second = some_model("m", 0), some_model("m", 1)

    def net(extra):
        new = {
            "node, component": ["add_node", "add_component"],
            "component, node": ["add_component", "add_node"],
        }[kind]

        def add(method, name, m):
            c = Node(model=m, id=name) if method == "add_node" else create_component(m, name)
            getattr(network, method)(c)

        network = Network("n")
        for k in range(n):
            add(new[0], f"c{k}", first)
            if extra and k == i and not case["late"]:
                add(new[1], f"c{k}", second if case["other"] else first)
        if extra and case["late"]:
            add(new[1], f"c{i}", second if case["other"] else first)
        return [c.id for c in network.all_components]

    def lib(extra):
        def make(k, other):
            if kind == "models":
                return some_model(f"m{k}", 1 if other else 0)
            return PortType(f"m{k}", [PortField("g" if other else "f")])

        items = [make(k, False) for k in range(n)]
        if extra:
            items.insert(n if case["late"] else i, make(i, case["other"]))
        given = {"port_types": [], "models": []}
        given[kind.replace(" ", "_")] = iter(items) if case["iterator"] else items
        done = library("l", **given)
        return list(done.models if kind == "models" else done.port_types)

    build = lib if kind in ("models", "port types") else net
    kept = build(False)
    wanted = [f"{'m' if build is lib else 'c'}{k}" for k in range(n)]
    if sorted(kept) != wanted:
        raise Violation(f"{kind}: {kept} kept of {wanted}")
    rejected(lambda: build(True), f"two {kind} of the same identifier")
    note(f"+{kind}")


# ------------------------------------------------- same names elsewhere


@st.composite
def shared(draw):
    return {
        "spec": draw(profile(cons=(1, 3))),
        "names": draw(st.lists(st.integers(0, 5), min_size=6, max_size=6)),
        "components": draw(st.booleans()),
    }


def rename(case):
    """Constraints with the names of variables, parameters, ports or models; components
    with the names of models or variables"""
    spec = copy.deepcopy(case["spec"])
    for m in spec["models"]:
        pool = [x["name"] for k in ("vars", "params", "ports") for x in m[k]] + [m["id"]]
        used = {True: set(), False: set()}
        for k, pick in zip(m["cons"], case["names"]):
            # binding constraints and constraints are listed apart
            free = [x for x in pool if x not in used[k["binding"]]]
            if free:
                k["name"] = free[pick % len(free)]
            used[k["binding"]].add(k["name"])
    if case["components"]:
        pool = [m["id"] for m in spec["models"]] + ["x0", "p0", "lib"]
        new = dict(zip([c["id"] for c in spec["comps"]], pool))
        for c in spec["comps"]:
            c["id"] = new[c["id"]]
        for k in spec["conns"]:
            for i, x in enumerate(k):
                if isinstance(x, str) and x in new and i in (0, 2):
                    k[i] = new[x]
    return spec


def run_shared(case, note):
    spec = rename(case)
    with directory() as path:
        problem = study.solve_problem_yaml(spec, path)
    study.compare_problem(problem, study.Ref(spec))
    note("+shared names")
    if spec["conns"]:
        note("connections")


TESTS = [
    Test("duplicates", duplicates, run_duplicates, 560, 9000),
    Test("python", python, run_python, 240, 3000),
    Test("containers", containers, run_containers, 160, 2000),
    Test("shared names", shared, run_shared, 320, 8000),
]
