"""Consistency between the data and the models."""
import copy

from hypothesis import strategies as st

from .. import gen, study
from ..runner import Test, rejected

PROPERTY = "C14"
RULE = (
    "random studies in which one parameter of one component or node has no data, or "
    "data that depend on time or scenario although the parameter does not: building "
    "the problem must fail, whether or not the parameter is used; without the mistake "
    "it must succeed with the right values. Non-trivial: the data are inconsistent, or "
    "a parameter has data simpler than allowed"
)


@st.composite
def cases(draw):
    spec = draw(
        gen.specs(params=(1, 3), cons=(0, 1), depth=2, T=(1, 2), S=(1, 2), models=(1, 2), comps=(1, 3))
    )
    pars = [
        (i, q["name"])
        for i, c in enumerate(spec["comps"])
        for m in spec["models"]
        if m["id"] == c["model"]
        for q in m["params"]
    ]
    i, name = draw(st.sampled_from(pars))
    return {
        "spec": spec,
        "comp": i,
        "param": name,
        "kind": draw(st.sampled_from(["missing", "time", "scen", "both", "tree-missing", "tree"])),
    }


def run(case, note):
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study import DataBase
    from andromede.study.data import ConstantData, TreeData

    spec = copy.deepcopy(case["spec"])
    comp = spec["comps"][case["comp"]]
    model = [m for m in spec["models"] if m["id"] == comp["model"]][0]
    par = [q for q in model["params"] if q["name"] == case["param"]][0]
    kind = case["kind"]
    S, horizon = spec["scenarios"], spec["timesteps"][-1] + 1
    bad = {
        "time": {"kind": "time", "values": [1] * horizon},
        "scen": {"kind": "scen", "values": [1] * S},
        "both": {"kind": "both", "values": [[1] * S] * horizon},
    }

    db = DataBase()
    for c in spec["comps"]:
        for name, data in c["data"].items():
            if c is comp and name == case["param"]:
                if kind in ("missing", "tree-missing"):
                    continue
                if kind in bad:
                    data = bad[kind]
                    comp["data"][name] = data
                elif kind == "tree":
                    # one node of the tree is inconsistent
                    k = [b for b in bad if not fits(b, par)]
                    if k:
                        db.add_data(
                            c["id"],
                            name,
                            TreeData(
                                {
                                    "a": ConstantData(1),
                                    "": ConstantData(1),
                                    "b": study.build_data(bad[k[0]]),
                                }
                            ),
                        )
                        continue
            db.add_data(c["id"], name, study.build_data(data))
    network = study.build_network_api(spec)

    def build():
        return build_problem(network, db, TimeBlock(1, list(spec["timesteps"])), S)

    if kind in ("missing", "tree-missing"):
        ok = False
    elif kind == "tree":
        ok = all(fits(b, par) for b in bad)
    else:
        ok = fits(kind, par)
    where = "node" if comp["node"] else "component"
    if ok:
        if kind != "tree" and par["role"] not in ("int", "nz"):
            ref = study.Ref(spec)
            if not any(v[3] or v[0] > v[1] for v in ref.variables().values()):
                study.compare_problem(build(), ref)
        note("consistent data" if kind == "both" else "+data simpler than allowed")
    else:
        rejected(
            lambda: build().export_as_lp(),
            f"{kind} data for {where} parameter {par}",
        )
        note(f"+{where}: {kind} data rejected")


def fits(kind, par):
    return {
        "time": par["time"],
        "scen": par["scen"],
        "both": par["time"] and par["scen"],
    }[kind]


TESTS = [Test("mistakes", cases, run, 1600, 40000)]
