"""Decision trees: probabilities, coupling constraints, isolation."""
import copy

from hypothesis import strategies as st

from .. import gen, trees
from ..runner import Test, Violation, rejected
from .c19 import PROFILE, check_structure, large_trees

PROPERTY = "C20"
RULE = (
    "random histories that create several decision trees at once, add coupling "
    "constraints to their nodes in an interleaved order and build the expansion "
    "problems, some of them twice: each problem must be the independent interpretation "
    "of its own tree only; probabilities are products along the path and trees whose "
    "children do not share the probability of their parent are refused, as are wrong "
    "probabilities and coupling of unknown components or variables. Non-trivial: at "
    "least two nodes or two trees, or an invalid tree"
)


@st.composite
def histories(draw):
    g = gen.G(draw, gen.Profile(**{**PROFILE, "models": (1, 1), "comps": (1, 2), "S": (1, 2), "T": (1, 2)}))
    cases = []
    for i in range(g.int(1, 3)):
        # node names may be the same in all trees
        cases.append(trees.tree(g, max_nodes=4, prefix=g.pick(["n", f"t{i}n"])))
    ops = []
    for i, c in enumerate(cases):
        for k in range(len(c["couplings"])):
            ops.append(["couple", i, k])
    ops = draw(st.permutations(ops)) if ops else []
    ops = list(ops)
    builds = [["build", i] for i in range(len(cases))]
    # builds at any moment, and all of them at the end
    for _ in range(g.int(0, 2)):
        ops.insert(g.int(0, len(ops)), ["build", g.int(0, len(cases) - 1)])
    ops += list(draw(st.permutations(builds)))
    return {"trees": cases, "ops": ops}


@st.composite
def large(draw):
    case = draw(large_trees())
    ops = [["couple", 0, k] for k in range(len(case["couplings"]))]
    return {"trees": [case], "ops": ops + [["build", 0]]}


def run(case, note):
    from andromede.simulation import build_benders_decomposed_problem

    cases = [dict(c, couplings=[]) for c in case["trees"]]
    built = [trees.build_tree(c) for c in case["trees"]]
    for c, nodes in zip(cases, built):
        for i, node in enumerate(nodes):
            wanted = trees.probability(c, i)
            if abs(node.prob - wanted) > 1e-12:
                raise Violation(f"probability {node.prob}, expected {wanted}")
        if not nodes[0].is_leaves_prob_sum_one():
            raise Violation("probabilities of a valid tree found not to sum to one")
        order = [n.id for n in nodes[0].traverse()]
        if sorted(order) != sorted(n["id"] for n in c["nodes"]):
            raise Violation(f"traverse gives {order}")
    builds = 0
    for op in case["ops"]:
        i = op[1]
        if op[0] == "couple":
            k = case["trees"][i]["couplings"][op[2]]
            trees.define_couplings({"couplings": [k]}, built[i])
            cases[i]["couplings"].append(k)
        else:
            benders = build_benders_decomposed_problem(built[i][0], trees.database(cases[i]))
            trees.compare_benders(benders, cases[i])
            check_structure(benders.export_structure(), benders)
            builds += 1
    if len(cases) > 1 or len(built[0]) > 1:
        note("+several nodes or trees")
    if any(c["couplings"] for c in cases):
        note("coupling constraints")
    if sum(bool(c["couplings"]) for c in cases) > 1:
        note("coupling constraints in several trees")
    if builds > len(cases):
        note("built twice")


# ------------------------------------------------------------------ invalid


@st.composite
def invalid(draw):
    g = gen.G(draw, gen.Profile(**{**PROFILE, "models": (1, 1), "comps": (1, 2), "S": (1, 1), "T": (1, 2)}))
    kind = g.pick(["sum", "sum", "sum", "compensated", "low", "high", "par", "chd", "cum_par", "cum", "inc", "same node", "same block"])
    if kind == "compensated":
        case = trees.tree(g, max_nodes=2)
        base = case["nodes"][-1]
        d = g.pick([0.1, 0.25, 0.01])
        case["nodes"] = [
            dict(base, id=f"n{i}", parent=p, prob=q)
            for i, (p, q) in enumerate(
                [(None, 1.0), (0, 0.5), (0, 0.5), (1, 0.5 + d), (1, 0.5), (2, 0.5 - d), (2, 0.5)]
            )
        ]
        case["couplings"] = []
        for c in case["spec"]["comps"]:
            for k, v in c["data"].items():
                if v["kind"] == "tree":
                    c["data"][k] = next(iter(v["nodes"].values()))
    else:
        case = trees.tree(g, max_nodes=5)
    return {
        "tree": case,
        "kind": kind,
        "node": g.int(0, 4),
        "delta": g.pick([0.1, -0.1, 0.3, -0.25, 0.001, -0.001, 1e-6]),
        "wrong": g.pick([1.5, 2.0, 1.0001]),
    }


def run_invalid(case, note):
    from andromede.simulation import build_benders_decomposed_problem
    from andromede.study import create_component

    t, kind = copy.deepcopy(case["tree"]), case["kind"]
    i = case["node"] % len(t["nodes"])
    n = t["nodes"][i]
    if kind == "compensated":
        nodes = trees.build_tree(t)
        if nodes[0].is_leaves_prob_sum_one():
            raise Violation(f"{[x['prob'] for x in t['nodes']]} found valid")
        rejected(
            lambda: build_benders_decomposed_problem(nodes[0], trees.database(t)),
            "a tree whose children do not share the probability of their parent",
        )
        note("+compensated probabilities")
        return
    if kind == "sum":
        if n["parent"] is None:
            n["prob"] = 1.0 - abs(case["delta"])
            root = trees.build_tree(t)[0]
            if root.is_leaves_prob_sum_one():
                raise Violation(f"probability {n['prob']} of the root found valid")
            rejected(
                lambda: build_benders_decomposed_problem(root, trees.database(t)),
                "a root whose probability is not one",
            )
            note("+probability of the root")
            return
        p = n["prob"] + case["delta"]
        if not 0 <= p <= 1:
            p = n["prob"] - case["delta"]
        if not 0 <= p <= 1 or trees.probability(t, n["parent"]) == 0:
            return
        n["prob"] = p
        nodes = trees.build_tree(t)
        if nodes[0].is_leaves_prob_sum_one():
            raise Violation(f"{[x['prob'] for x in t['nodes']]} found to sum to one")
        rejected(
            lambda: build_benders_decomposed_problem(nodes[0], trees.database(t)),
            "a tree whose probabilities do not sum to one",
        )
        note("+probabilities do not sum to one")
        return
    if kind in ("low", "high"):
        n["prob"] = case["wrong"] if kind == "high" else -case["wrong"] + 1.0
        rejected(lambda: trees.build_tree(t), f"probability {n['prob']}")
        note("+probability out of range")
        return
    if kind in ("same node", "same block"):
        if kind == "same block":
            n["blocks"] = n["blocks"] + [[n["blocks"][0][0], n["blocks"][-1][1]]]
        elif i == 0:
            return
        else:
            n["id"] = t["nodes"][case["wrong"] == 2.0 and i - 1 or 0]["id"]
        t["couplings"] = []
        rejected(
            lambda: build_benders_decomposed_problem(
                trees.build_tree(t)[0], trees.database(t)
            ),
            f"a tree with the {kind} twice",
        )
        note(f"+{kind} twice")
        return
    nodes = trees.build_tree(t)
    node = nodes[i]
    parent = node.parent if node.parent is not None else node
    comp = t["spec"]["comps"][0]["id"]
    if comp not in n["comps"] or comp not in [c.id for c in parent.network.all_components]:
        return
    good = t["spec"]["models"][0]["vars"][0]["name"]
    other = t["spec"]["models"][0]["vars"][1]["name"]
    args = {
        "par": parent.network.get_component(comp),
        "cum_par": good,
        "chd": node.network.get_component(comp),
        "cum": good,
        "inc": other,
    }
    if kind in ("par", "chd"):
        if kind == "par" and node.parent is None:
            return
        args[kind] = create_component(model=args[kind].model, id="elsewhere")
    else:
        args[kind] = "missing"
    rejected(
        lambda: node.define_coupling_constraint(
            args["par"], args["cum_par"], args["chd"], args["cum"], args["inc"]
        ),
        f"coupling with wrong {kind}",
    )
    # nothing is left behind by the refusal
    benders = build_benders_decomposed_problem(nodes[0], trees.database(t))
    trees.compare_benders(benders, dict(t, couplings=[]))
    note(f"+coupling with wrong {kind}")


TESTS = [
    Test("histories", histories, run, 800, 20000),
    Test("large trees", large, run, 60, 4000),
    Test("invalid", invalid, run_invalid, 800, 12000),
]
