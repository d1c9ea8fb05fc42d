"""Ports and connections."""
import copy

from hypothesis import strategies as st

from .. import asts, gen, study
from ..runner import Discard, Test, rejected

PROPERTY = "C05"
RULE = (
    "random networks of models with ports, field definitions and constraints that "
    "use fields directly or summed over connections, compared with an independent "
    "interpretation; swapping the ends of connections and reordering connections or "
    "components leaves the problem unchanged; connections of missing ports, of ports "
    "of different types, or with zero or two definitions of a field are refused. "
    "Non-trivial: a constraint uses a port field that receives at least one "
    "connection, or the connection is invalid"
)


def profile(**kw):
    base = dict(
        T=(1, 2),
        S=(1, 2),
        models=(2, 3),
        comps=(2, 5),
        cons=(1, 2),
        vars=(1, 2),
        params=(0, 2),
        depth=2,
        port_types=(1, 2),
        objective=False,
    )
    base.update(kw)
    return gen.specs(**base)


def uses(spec):
    ref = study.Ref(spec)
    for c in spec["comps"]:
        for con in ref.model_of(c["id"])["cons"]:
            for e in con["cmp"][1:] if "cmp" in con else [con["expr"]]:
                for n in asts.walk(e):
                    if n[0] in ("field", "sumc"):
                        yield n[0], len(ref.ends(c["id"], n[1], n[2]))


def run(spec, note):
    problem = study.solve_problem_api(spec)
    study.compare_problem(problem, study.Ref(spec))
    for op, n in set(uses(spec)):
        note(("+" if n else "") + f"{op} of {min(n, 3)}{'+' if n >= 3 else ''} connections")


@st.composite
def reordered(draw):
    spec = draw(profile())
    n = len(spec["conns"])
    return {
        "spec": spec,
        "order": draw(st.permutations(range(n))),
        "swap": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
        "comps": draw(st.permutations(range(len(spec["comps"])))),
    }


def run_reordered(case, note):
    spec = case["spec"]
    other = copy.deepcopy(spec)
    other["conns"] = []
    for i in case["order"]:
        a, p, b, q = spec["conns"][i]
        other["conns"].append([b, q, a, p] if case["swap"][i] else [a, p, b, q])
    other["comps"] = [spec["comps"][i] for i in case["comps"]]
    study.compare_to_signature(
        study.solve_problem_api(other),
        study.problem_signature(study.solve_problem_api(spec)),
    )
    if other != spec and any(n for _, n in uses(spec)):
        note("+reordered connections")


# ------------------------------------------------------------ invalid ones


@st.composite
def invalid(draw):
    g = gen.G(draw, gen.Profile())
    nf = g.int(1, 3)
    kind = g.pick(["type", "two", "none", "missing1", "missing2", "valid", "same type id"])
    return {
        "kind": kind,
        "fields": nf,
        "bad": g.int(0, nf - 1),
        "owner": [g.int(1, 2) for _ in range(nf)],
        "swap": g.flag(),
        "same_fields": g.flag(),
        "nodes": [g.flag(), g.flag()],
    }


def run_invalid(case, note):
    n, bad, kind = case["fields"], case["bad"], case["kind"]
    fields = [f"f{i}" for i in range(n)]
    types = [{"id": "t1", "fields": fields}]
    type2 = "t1"
    if kind == "type":
        type2 = "t2"
        types.append({"id": "t2", "fields": fields if case["same_fields"] else ["g"]})
    if kind == "same type id":  # types of two libraries
        types.append({"id": "t2", "named": "t1", "fields": fields + ["more"] if case["same_fields"] else ["g"]})
        type2 = "t2"
    defs = {1: [], 2: []}
    for i, f in enumerate(fields):
        owners = [case["owner"][i]]
        if i == bad and kind == "two":
            owners = [1, 2]
        if i == bad and kind == "none":
            owners = []
        for o in owners:
            if o == 2 and kind in ("type", "same type id") and not case["same_fields"]:
                continue
            defs[o].append({"port": f"q{o}", "field": f, "expr": ["var", "x"]})
    v = {
        "name": "x",
        "time": False,
        "scen": False,
        "type": "continuous",
        "lb": None,
        "ub": None,
    }
    models = [
        {
            "id": f"m{o}",
            "params": [],
            "vars": [v],
            "ports": [{"name": f"q{o}", "type": "t1" if o == 1 else type2}],
            "defs": defs[o],
            "cons": [],
        }
        for o in (1, 2)
    ]
    conn = ["a", "q1", "b", "q2"]
    if kind == "missing1":
        conn[1] = "q2"
    if kind == "missing2":
        conn[3] = "q1"
    if case["swap"]:
        conn = conn[2:] + conn[:2]
    spec = {
        "port_types": types,
        "models": models,
        "comps": [
            {"id": "a", "model": "m1", "node": case["nodes"][0], "data": {}},
            {"id": "b", "model": "m2", "node": case["nodes"][1], "data": {}},
        ],
        "conns": [conn],
        "timesteps": [0],
        "scenarios": 1,
    }
    if kind == "valid":
        study.compare_problem(study.solve_problem_api(spec), study.Ref(spec))
        note("valid connection")
    else:
        rejected(lambda: study.build_network_api(spec), f"connection ({kind})")
        note(f"+invalid connection: {kind}")


# --------------------------------------------- direct use of a port field


@st.composite
def direct(draw):
    g = gen.G(draw, gen.Profile())
    return {"n": g.int(0, 3), "op": g.pick(["=", "<=", ">="]), "coef": g.pick(gen.NZ)}


def run_direct(case, note):
    """A field used directly has exactly one connection, or there is no problem"""
    n = case["n"]
    v = {
        "name": "x",
        "time": True,
        "scen": False,
        "type": "continuous",
        "lb": None,
        "ub": None,
    }
    spec = {
        "port_types": [{"id": "t", "fields": ["f"]}],
        "models": [
            {
                "id": "user",
                "params": [],
                "vars": [],
                "ports": [{"name": "q", "type": "t"}],
                "defs": [],
                "cons": [
                    {
                        "name": "k",
                        "binding": True,
                        "cmp": [
                            case["op"],
                            ["mul", ["lit", case["coef"]], ["field", "q", "f"]],
                            ["lit", 2],
                        ],
                    }
                ],
            },
            {
                "id": "owner",
                "params": [],
                "vars": [v],
                "ports": [{"name": "q", "type": "t"}],
                "defs": [{"port": "q", "field": "f", "expr": ["var", "x"]}],
                "cons": [],
            },
        ],
        "comps": [{"id": "u", "model": "user", "node": True, "data": {}}]
        + [
            {"id": f"o{i}", "model": "owner", "node": False, "data": {}}
            for i in range(n)
        ],
        "conns": [["u", "q", f"o{i}", "q"] for i in range(n)],
        "timesteps": [0, 1],
        "scenarios": 1,
    }
    if n == 1:
        study.compare_problem(study.solve_problem_api(spec), study.Ref(spec))
    else:
        rejected(
            lambda: study.solve_problem_api(spec).export_as_lp(),
            f"port field with {n} connections used without aggregation",
        )
    note(f"+direct use of {n} connections")


# ----------------------------------------------- components left aside


@st.composite
def aside(draw):
    g = gen.G(draw, gen.Profile(T=(1, 1), S=(1, 1), models=(2, 2), comps=(2, 5), cons=(0, 1), depth=1, port_types=(1, 1)))
    return {"spec": g.spec(), "which": g.int(0, 4), "end": g.flag()}


def run_aside(case, note):
    """A connected component that was not added to the network"""
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study import Network, PortRef

    spec = case["spec"]
    if not spec["conns"]:
        raise Discard()
    k = spec["conns"][case["which"] % len(spec["conns"])]
    left = k[0] if case["end"] else k[2]
    whole = study.build_network_api(spec)
    db = study.build_database_api(spec)

    def build(without):
        network = Network("n")
        for c in whole.nodes:
            if c.id != without:
                network.add_node(c)
        for c in whole.components:
            if c.id != without:
                network.add_component(c)
        for a, pa, b, pb in spec["conns"]:
            network.connect(
                PortRef(whole.get_component(a), pa), PortRef(whole.get_component(b), pb)
            )
        return build_problem(
            network, db, TimeBlock(1, list(spec["timesteps"])), spec["scenarios"]
        )

    study.compare_problem(build(None), study.Ref(spec))
    rejected(lambda: build(left), f"connection to {left}, not in the network")
    note("+connected component left aside")


TESTS = [
    Test("network", profile, run, 1600, 40000),
    Test("timed", lambda: profile(T=(2, 4), S=(1, 1), scen_ops=False), run, 400, 10000),
    Test(
        "many connections",
        lambda: profile(comps=(8, 14), T=(1, 1), S=(1, 1), models=(2, 2), cons=(1, 1), depth=1),
        run,
        40,
        2000,
    ),
    Test(
        "many ports",
        lambda: profile(
            comps=(2, 4), T=(1, 1), S=(1, 1), models=(2, 3), cons=(1, 3), depth=1,
            port_types=(1, 5), fields=(3, 6), ports=(2, 6),
        ),
        run,
        60,
        2000,
    ),
    Test(
        "large",
        lambda: profile(large=True, comps=(2, 3), models=(2, 2), cons=(1, 1), depth=1),
        run,
        40,
        2000,
    ),
    Test("reordered", reordered, run_reordered, 480, 12000),
    Test("invalid", invalid, run_invalid, 400, 4000),
    Test("aside", aside, run_aside, 160, 2000),
    Test("direct", direct, run_direct, 80, 400),
]
