"""Independence of builds: histories of operations on shared objects."""
import copy

from hypothesis import strategies as st

from .. import asts, gen, other, study, trees
from ..runner import Test, Violation, rejected
from ..scratch import directory

PROPERTY = "C23"
RULE = (
    "random histories on shared models, networks and databases: problems are built for "
    "various blocks, numbers of scenarios and databases, solved, read and exported, "
    "networks are replicated and extended, models replicated, data replaced, results "
    "read again later, components added without their data (refused until it is there), connections added one by one to networks and their replicas, builds in the other border mode between them, other files read at the same place; every problem must be, when it is built and at the end, the "
    "independent interpretation of the objects as they were when it was built. "
    "Non-trivial: at least two builds with another operation between them"
)

SMALL = dict(
    T=(1, 4), S=(1, 3), models=(1, 2), comps=(1, 3), cons=(0, 2), depth=3,
    port_types=(0, 1), gaps=False,
)


@st.composite
def histories(draw):
    g = gen.G(draw, gen.Profile(**SMALL))
    spec = g.spec()
    horizon = spec["timesteps"][-1] + 1
    models = {m["id"]: m for m in spec["models"]}
    # components that may be added later, with their data
    spare = []
    for i in range(2):
        m = models[g.pick(sorted(models))]
        spare.append(
            {
                "id": f"n{i}",
                "model": m["id"],
                "node": g.flag(),
                "data": {q["name"]: g.series(q, horizon, spec["scenarios"]) for q in m["params"]},
                # without its data, the network cannot be built
                "bare": bool(m["params"]) and g.chance(3),
            }
        )
    bases = [{}]
    if g.flag():
        bases.append(
            {
                c["id"]: {
                    q["name"]: g.series(q, horizon, spec["scenarios"])
                    for q in models[c["model"]]["params"]
                }
                for c in spec["comps"] + spare
            }
        )
    ops = []
    nets = 1
    for _ in range(g.int(2, 7)):
        kind = g.pick(
            ["build", "build", "build", "solve", "export", "replicate", "add", "data", "again"]
        )
        if kind == "build":
            n = g.int(1, horizon)
            start = g.int(0, horizon - n)
            ops.append(
                [
                    "build",
                    g.int(0, nets - 1),
                    g.int(0, len(bases) - 1),
                    list(range(start, start + n)),
                    g.int(1, spec["scenarios"]),
                ]
            )
        elif kind == "replicate":
            ops.append(["replicate", g.int(0, nets - 1)])
            nets += 1
        elif kind == "add":
            # fields used without a sum need exactly one connection
            if not spec["conns"] and not spec["port_types"]:
                ops.append(["add", g.int(0, nets - 1), g.int(0, 1), g.flag()])
        elif kind == "data":
            comps = [c for c in spec["comps"] + spare if c["data"]]
            if comps:
                c = g.pick(comps)
                q = g.pick(models[c["model"]]["params"])
                ops.append(
                    [
                        "data",
                        g.int(0, len(bases) - 1),
                        c["id"],
                        q["name"],
                        g.series(q, horizon, spec["scenarios"]),
                    ]
                )
        else:
            ops.append([kind, g.int(0, 5)])
    ops.append(["build", g.int(0, nets - 1), g.int(0, len(bases) - 1), list(range(horizon)), spec["scenarios"]])
    return {"spec": spec, "spare": spare, "bases": bases, "ops": ops}


def run(case, note):
    from andromede.simulation import OutputValues, TimeBlock, build_problem
    from andromede.study import Node, create_component

    spec = case["spec"]
    models = study.build_models(spec)
    networks = [study.build_network_api(spec, models)]
    comps = [list(spec["comps"])]  # per network
    data = []  # per database: component -> parameter -> data
    dbs = []
    for base in case["bases"]:
        values = {
            c["id"]: {} if c.get("bare") else dict(base.get(c["id"], c["data"]))
            for c in spec["comps"] + case["spare"]
        }
        data.append(values)
        dbs.append(
            study.build_database_api(
                {"comps": [{"id": k, "data": v} for k, v in values.items()]}
            )
        )
    problems = []
    between = False
    for op in case["ops"]:
        kind = op[0]
        if kind == "build":
            _, n, b, steps, scenarios = op
            now = dict(
                spec,
                comps=[dict(c, data=dict(data[b][c["id"]])) for c in comps[n]],
                timesteps=steps,
                scenarios=scenarios,
            )
            build = lambda: build_problem(
                networks[n], dbs[b], TimeBlock(len(problems), list(steps)), scenarios
            )
            needed = {m["id"]: {q["name"] for q in m["params"]} for m in spec["models"]}
            if any(needed[c["model"]] - set(c["data"]) for c in now["comps"]):
                rejected(build, "a network with a component without its data")
                note("+refused for lack of data")
                between = True
                continue
            problem = build()
            ref = study.Ref(copy.deepcopy(now))
            study.compare_problem(problem, ref)
            if problems and between:
                note("+builds with operations between")
            if problems:
                note("several builds")
                between = True
            problems.append((problem, ref))
            continue
        between = True
        if kind == "replicate":
            networks.append(networks[op[1]].replicate())
            comps.append(list(comps[op[1]]))
            note("network replicated")
        elif kind == "add":
            _, n, i, fresh = op
            c = case["spare"][i]
            if c["id"] in [x["id"] for x in comps[n]]:
                continue
            model = models[c["model"]]
            if fresh:
                model = model.replicate(id=c["model"] + "_copy")
            if c["node"]:
                networks[n].add_node(Node(model=model, id=c["id"]))
            else:
                networks[n].add_component(create_component(model=model, id=c["id"]))
            comps[n] = comps[n] + [c]
            note("component added")
        elif kind == "data":
            _, b, c, p, value = op
            data[b][c][p] = value
            dbs[b].add_data(c, p, study.build_data(value))
            note("data replaced")
        elif problems:
            problem, ref = problems[op[1] % len(problems)]
            if kind == "solve":
                problem.solver.Solve()
                OutputValues(problem)
                note("solved")
            elif kind == "export":
                if problem.solver.NumVariables():
                    problem.export_as_mps()
                    problem.export_as_lp()
                note("exported")
            else:
                study.compare_problem(problem, ref)
    for k, (problem, ref) in enumerate(problems):
        try:
            study.compare_problem(problem, ref)
        except Violation as e:
            raise Violation(f"problem {k} is not what it was: {e}")


# ------------------------------------------------ connections, one by one


@st.composite
def connected(draw):
    g = gen.G(
        draw,
        gen.Profile(**{**SMALL, "T": (1, 2), "S": (1, 2), "comps": (2, 4), "cons": (1, 2), "port_types": (1, 2), "depth": 2}),
    )
    spec = g.spec()
    nets, ops = 1, []
    for _ in range(g.int(3, 9)):
        kind = g.pick(["build", "build", "connect", "connect", "connect", "replicate", "ignore"])
        n = g.int(0, nets - 1)
        if kind == "replicate":
            nets += 1
        ops.append([kind, n, g.int(0, 20), g.flag()])
    ops.append(["build", g.int(0, nets - 1), 0, False])
    return {"spec": spec, "start": g.int(0, len(spec["conns"])), "ops": ops}


def singly_connected(spec):
    """Every field used alone comes from one connection"""
    models = {m["id"]: m for m in spec["models"]}
    for c in spec["comps"]:
        used = [
            (n[1], n[2])
            for k in models[c["model"]]["cons"]
            for e in (k["cmp"][1:] if "cmp" in k else [k["expr"]])
            for n in asts.walk(e)
            if n[0] == "field"
        ]
        for port, _ in used:
            count = sum(
                ((a, pa) == (c["id"], port)) + ((b, pb) == (c["id"], port))
                for a, pa, b, pb in spec["conns"]
            )
            if count != 1:
                return False
    return True


def run_connected(case, note):
    from andromede.simulation import BlockBorderManagement, TimeBlock, build_problem
    from andromede.study import PortRef

    spec = case["spec"]
    start = spec["conns"][: case["start"]]
    networks = [study.build_network_api(dict(spec, conns=start))]
    conns = [list(start)]
    db = study.build_database_api(spec)
    block = TimeBlock(1, list(spec["timesteps"]))
    problems = []
    for kind, n, i, turn in case["ops"]:
        if kind == "connect":
            if not spec["conns"]:
                continue
            a, pa, b, pb = spec["conns"][i % len(spec["conns"])]
            if turn:
                a, pa, b, pb = b, pb, a, pa
            net = networks[n]
            net.connect(PortRef(net.get_component(a), pa), PortRef(net.get_component(b), pb))
            conns[n].append([a, pa, b, pb])
            note("connection added")
        elif kind == "replicate":
            networks.append(networks[n].replicate())
            conns.append(list(conns[n]))
            if conns[n]:
                note("connected network replicated")
        elif kind == "ignore":
            # another border mode, which may be refused
            try:
                build_problem(
                    networks[n],
                    db,
                    block,
                    spec["scenarios"],
                    border_management=BlockBorderManagement.IGNORE_OUT_OF_FRAME,
                )
            except Exception:
                pass
        else:
            now = dict(spec, conns=list(conns[n]))
            build = lambda: build_problem(networks[n], db, block, spec["scenarios"])
            if not singly_connected(now):
                rejected(build, "a field used alone, not connected once")
                note("+refused for its connections")
                continue
            problem, ref = build(), study.Ref(now)
            study.compare_problem(problem, ref)
            problems.append((problem, ref))
            if conns[n]:
                note("+built with connections")
                if n:
                    note("replica built with connections")
    for problem, ref in problems:
        study.compare_problem(problem, ref)


# ------------------------------------------------------- the same twice


@st.composite
def twice(draw):
    g = gen.G(draw, gen.Profile(**{**SMALL, "comps": (2, 4)}))
    return g.spec()


def run_twice(spec, note):
    """Same study, built from scratch: same problem, names and order included"""

    def text():
        problem = study.solve_problem_api(spec)
        if not problem.solver.NumVariables():
            return ""
        return problem.export_as_lp()

    a, b = text(), text()
    if a != b:
        raise Violation("the same study gives two different problems")
    if a:
        note("+exported twice")


# ------------------------------------------- files written one after another


def redrawn(g, spec):
    """The same study with other data"""
    out = copy.deepcopy(spec)
    horizon = spec["timesteps"][-1] + 1
    models = {m["id"]: m for m in out["models"]}
    for c in out["comps"]:
        c["data"] = {
            q["name"]: g.series(q, horizon, spec["scenarios"])
            for q in models[c["model"]]["params"]
        }
    return out


@st.composite
def rewritten(draw):
    g = gen.G(draw, gen.Profile(**{**SMALL, "params": (1, 3), "cons": (1, 2), "depth": 2}))
    specs = [g.spec()]
    for _ in range(g.int(1, 3)):
        kind = g.pick(["data", "data", "again", "other"])
        if kind == "data":
            specs.append(redrawn(g, specs[-1]))
        elif kind == "again":
            specs.append(specs[0])
        else:
            specs.append(g.spec())
    return {"specs": specs}


def run_rewritten(case, note):
    """Each study is the one of the files as they are when it is read"""
    from andromede.main.main import input_database, input_libs, input_study
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study.resolve_components import build_network

    problems = []
    with directory() as path:
        for spec in case["specs"]:
            lib, system = study.yaml_documents(spec, str(path))
            (path / "lib.yml").write_text(lib, encoding="utf-8")
            (path / "system.yml").write_text(system, encoding="utf-8")
            libs = input_libs([path / "lib.yml"])
            network = build_network(input_study(path / "system.yml", libs))
            db = input_database(path / "system.yml", path)
            problem = build_problem(
                network, db, TimeBlock(1, list(spec["timesteps"])), spec["scenarios"]
            )
            ref = study.Ref(spec)
            study.compare_problem(problem, ref)
            problems.append((problem, ref))
    for problem, ref in problems:
        study.compare_problem(problem, ref)
    if any(d["kind"] != "const" for s in case["specs"] for c in s["comps"] for d in c["data"].values()):
        note("+series rewritten")


# ----------------------------------------------- in another interpreter


@st.composite
def elsewhere(draw):
    kind = draw(st.sampled_from(["api", "files", "tree", "tree"]))
    if kind == "tree":
        g = gen.G(
            draw,
            gen.Profile(
                T=(1, 2), S=(1, 2), models=(1, 2), comps=(1, 3), cons=(0, 0), params=(0, 2),
                vars=(2, 3), depth=2, objective=False, gaps=False, const_vars=True,
            ),
        )
        case = trees.tree(g, max_nodes=4)
    else:
        g = gen.G(draw, gen.Profile(**{**SMALL, "comps": (2, 4), "port_types": (0, 1)}))
        case = g.spec()
    return {"kind": kind, "case": case, "seed": g.pick([1, 2])}


def run_elsewhere(case, note):
    here = other.describe(case["kind"], case["case"])
    there = other.Other.get(case["seed"]).ask(case["kind"], case["case"])
    if there.startswith("error: "):
        raise Violation(f"built here, refused in another interpreter: {there}")
    if here != there:
        raise Violation(
            f"another interpreter gives another problem ({case['kind']}): "
            f"{first_difference(here, there)}"
        )
    note(f"+built in two interpreters: {case['kind']}")


def first_difference(a, b):
    for x, y in zip(a.splitlines(), b.splitlines()):
        if x != y:
            return f"{x[:200]!r} / {y[:200]!r}"
    return "one is longer"


TESTS = [
    Test("histories", histories, run, 1600, 40000),
    Test("connections", connected, run_connected, 800, 20000),
    Test("elsewhere", elsewhere, run_elsewhere, 400, 8000),
    Test("rewritten files", rewritten, run_rewritten, 240, 5000),
    Test("twice", twice, run_twice, 400, 6000),
]
