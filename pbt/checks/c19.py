"""Benders decomposition: master, subproblems, exported files."""
import json
import math
import os
import re

from hypothesis import strategies as st

from .. import gen, study, trees
from ..runner import Test, Violation
from ..scratch import directory
from ..study import close

PROPERTY = "C19"
RULE = (
    "random studies whose models have investment, operational and coupling parts, on "
    "random decision trees with several time blocks; the master and every subproblem "
    "are compared, variable by variable, row by row and coefficient by coefficient, "
    "with an independent interpretation; every exported file (structure, problems, "
    "options) is read back and compared with the problems. Non-trivial: a candidate "
    "appears in the master and in a subproblem"
)

PROFILE = dict(
    T=(1, 4), S=(1, 3), models=(1, 2), comps=(1, 3), cons=(0, 0), params=(0, 3),
    vars=(2, 4), depth=2, objective=False, gaps=False, const_vars=True,
)


@st.composite
def cases(draw, **kw):
    g = gen.G(draw, gen.Profile(**{**PROFILE, "port_types": (0, 1), **kw}))
    prefix = {"prefix": "n" * g.int(30, 60)} if g.chance(5) else {}
    case = trees.tree(g, max_nodes=draw(st.sampled_from([1, 3, 4])), **prefix)
    case["files"] = {
        "debug": g.flag(),
        "solver": g.pick(["XPRESS", "COIN", "CBC"]),
        "log": g.int(0, 3),
        "structure": g.pick(["structure.txt", "my_structure.txt"]),
    }
    return case


@st.composite
def large_trees(draw):
    """Many nodes or many time blocks, deep or wide; small models"""
    g = gen.G(
        draw,
        gen.Profile(
            **{**PROFILE, "T": (1, 2), "S": (1, 2), "models": (1, 1), "comps": (1, 1),
               "params": (0, 2), "vars": (2, 3), "depth": 1}
        ),
    )
    if g.flag():
        return trees.tree(g, min_nodes=5, max_nodes=9, max_blocks=2)
    return trees.tree(g, max_nodes=2, max_blocks=8)


def read_structure(text):
    out = {}
    for line in text.splitlines():
        words = line.split()
        if len(words) != 3:
            raise Violation(f"structure line {line!r}")
        if words[1] in out.setdefault(words[0], {}):
            raise Violation(f"{words[1]} twice in the structure of {words[0]}")
        out[words[0]][words[1]] = int(words[2])
    return out


def check_structure(text, benders):
    """Candidates: columns of the master; the same variables in the subproblems"""
    got = read_structure(text)
    problems = [benders.master] + benders.subproblems
    columns = {
        p.name: {v.name(): v.index() for v in p.solver.variables()} for p in problems
    }
    candidates = columns["master"] if "master" in columns else columns[benders.master.name]
    for i, p in enumerate(problems):
        name = "master" if i == 0 else p.name
        wanted = {k: c for k, c in columns[p.name].items() if k in candidates}
        if got.get(name, {}) != wanted:
            raise Violation(f"structure of {name}: {got.get(name)}, expected {wanted}")
    if set(got) - {p.name for p in problems}:
        raise Violation(f"structure of unknown problems {set(got)}")


def rounded(lb, ub, integer):
    if integer:
        lb = lb if abs(lb) > 1e20 else math.ceil(lb - 1e-9)
        ub = ub if abs(ub) > 1e20 else math.floor(ub + 1e-9)
    return lb, ub


def check_mps(text, problem):
    """The file states the same problem (numbers are written with 6 digits)"""
    from ortools.linear_solver.python import model_builder

    model = model_builder.ModelBuilder()
    if not model.import_from_mps_string(text):
        raise Violation(f"unreadable MPS file for {problem.name}:\n{text[:2000]}")

    def near(a, b, scale=1.0):
        return close(a, b, 3e-5 * scale)

    variables = {v.name(): v for v in problem.solver.variables()}
    used = {}
    columns = set(mps_columns(text))
    for v in model.get_variables():
        if v.name not in variables:
            raise Violation(f"unknown column {v.name}")
        used[v.index] = v.name
        w = variables[v.name]
        # the exporter may round the bounds of integer variables
        lb, ub = rounded(w.lb(), w.ub(), w.integer())
        file_lb, file_ub = rounded(v.lower_bound, v.upper_bound, w.integer())
        if not near(file_lb, lb) or not near(file_ub, ub):
            raise Violation(
                f"{v.name}: bounds [{v.lower_bound}, {v.upper_bound}] in the file, "
                f"[{w.lb()}, {w.ub()}] in the problem"
            )
        if v.name in columns and bool(v.is_integral) != bool(w.integer()):
            raise Violation(f"{v.name}: integer={v.is_integral} in the file")
        if not near(v.objective_coefficient, problem.solver.Objective().GetCoefficient(w)):
            raise Violation(f"{v.name}: objective coefficient {v.objective_coefficient}")
    rows = {}
    for k in model.get_linear_constraints():
        rows[k.name] = (
            k.lower_bound,
            k.upper_bound,
            {
                used[i]: c
                for i, c in zip(
                    model.helper.constraint_var_indices(k.index),
                    model.helper.constraint_coefficients(k.index),
                )
            },
        )
    for c in problem.solver.constraints():
        name = c.name()
        if name not in rows:
            raise Violation(f"row {name} not in the file")
        lb, ub, terms = rows[name]
        span = 1 + sum(abs(x) for x in (c.lb(), c.ub()) if abs(x) < 1e20)
        if not near(lb, c.lb(), span) or not near(ub, c.ub(), span):
            raise Violation(f"row {name}: [{lb}, {ub}] in the file, [{c.lb()}, {c.ub()}]")
        for n, v in variables.items():
            if not near(terms.get(n, 0.0), c.GetCoefficient(v)):
                raise Violation(f"row {name}, column {n}: {terms.get(n, 0.0)}")
    if len(rows) != problem.solver.NumConstraints():
        raise Violation(f"rows {sorted(rows)} in the file")
    if not near(model.helper.objective_offset(), problem.solver.Objective().offset()):
        raise Violation("objective offset")


def mps_columns(text):
    out = []
    inside = False
    for line in text.splitlines():
        if not line.startswith(" "):
            inside = line.strip() == "COLUMNS"
            continue
        words = line.split()
        if inside and "'MARKER'" not in words and words[0] not in out:
            out.append(words[0])
    return out


def build(case, **kw):
    from andromede.simulation import build_benders_decomposed_problem

    nodes = trees.build_tree(case)
    trees.define_couplings(case, nodes)
    return build_benders_decomposed_problem(nodes[0], trees.database(case), **kw)


def notes(case, benders, note):
    candidates = {v.name() for v in benders.master.solver.variables()}
    if any(
        v.name() in candidates for p in benders.subproblems for v in p.solver.variables()
    ):
        note("+candidate in master and subproblem")
    if len(case["nodes"]) > 1:
        note("several tree nodes")
    if case["couplings"]:
        note("coupling constraints")
    if any(v.integer() for v in benders.master.solver.variables()):
        note("integer variable in master")


def run(case, note):
    benders = build(case)
    trees.compare_benders(benders, case)
    check_structure(benders.export_structure(), benders)
    notes(case, benders, note)


def run_files(case, note):
    import pathlib

    f = case["files"]
    benders = build(case, struct_filename=f["structure"])
    with directory() as path:
        benders.emplacement = pathlib.Path(path) / "outputs" / "lp"
        benders.initialise(solver_name=f["solver"], log_level=f["log"], is_debug=f["debug"])
        names = sorted(os.listdir(benders.emplacement))
        problems = {p.name: p for p in [benders.master] + benders.subproblems}
        wanted = {f"{n}.mps" for n in problems} | {"options.json", f["structure"]}
        if f["debug"]:
            wanted |= {f"{n}.lp" for n in problems}
        if set(names) != wanted:
            raise Violation(f"files {names}, expected {sorted(wanted)}")

        def read(name):
            return (benders.emplacement / name).read_text()

        check_structure(read(f["structure"]), benders)
        columns = {}
        for n, p in problems.items():
            text = read(f"{n}.mps")
            check_mps(text, p)
            columns[n] = mps_columns(text)
        structure = read_structure(read(f["structure"]))
        for n, p in problems.items():
            order = [v.name() for v in p.solver.variables()]
            # the exporter moves integer columns first and drops empty ones
            # (known finding), the index is the column in the other cases
            if columns[n] == order:
                for name, index in structure.get(n, {}).items():
                    if columns[n][index] != name:
                        raise Violation(f"{n}: column {index} is {columns[n][index]}, not {name}")
        options = json.loads(read("options.json"))
        for key, value in {
            "MASTER_NAME": benders.master.name,
            "STRUCTURE_FILE": f["structure"],
            "SOLVER_NAME": f["solver"],
            "LOG_LEVEL": f["log"],
            "JSON_FILE": "expansion/out.json",
            "LAST_ITERATION_JSON_FILE": "expansion/last_iteration.json",
            "INPUTROOT": ".",
        }.items():
            if options.get(key) != value:
                raise Violation(f"option {key} is {options.get(key)!r}, expected {value!r}")
        if f["debug"]:
            for n, p in problems.items():
                text = read(f"{n}.lp")
                if "Minimize" not in text and "minimize" not in text.lower():
                    raise Violation(f"{n}.lp does not minimise")
                # other names are changed by the exporter
                plain = all(
                    re.fullmatch(r"[A-Za-z_]\w*", x.name(), re.ASCII)
                    for x in p.solver.constraints() + p.solver.variables()
                )
                for c in p.solver.constraints() if plain else []:
                    if c.name() not in text and not (
                        abs(c.lb()) > 1e20 and abs(c.ub()) > 1e20
                    ):
                        raise Violation(f"row {c.name()} not in {n}.lp")
        # the solution file is read back
        result = benders.emplacement / "expansion"
        result.mkdir()
        content = {"solution": {"overall_cost": 12.5, "values": {"a": 1.0}}, "run_duration": 1}
        (result / "out.json").write_text(json.dumps(content))
        benders.read_solution()
        if benders.solution is None or benders.solution.data != content:
            raise Violation("the solution file is not read")
    notes(case, benders, note)


@st.composite
def runs(draw):
    case = draw(cases(port_types=(0, 0), comps=(1, 1), models=(1, 1)))
    case["run"] = {
        "merge": draw(st.booleans()),
        "code": draw(st.sampled_from([0, 0, 1, 3])),
        "cost": draw(st.sampled_from([0.0, 12.5, -3.0])),
        "missing": draw(st.sampled_from([False, False, False, True])),
    }
    return case


def run_runs(case, note):
    """The external solver gets the files, its result and exit code come back"""
    import contextlib
    import io
    import pathlib

    from andromede.simulation.output_values import (
        BendersDecomposedSolution,
        BendersMergedSolution,
    )

    r = case["run"]
    benders = build(case)
    with directory() as path:
        path = pathlib.Path(path).resolve()
        (path / "bin").mkdir()
        content = {"solution": {"overall_cost": r["cost"], "values": {}}}
        (path / "result.json").write_text(json.dumps(content))
        for name in ("benders", "merge_mps"):
            script = path / "bin" / name
            script.write_text(
                "#!/bin/sh\n"
                f"echo {name} \"$@\" > {path}/called\n"
                f"pwd -P >> {path}/called\n"
                "ls >> " + f"{path}/called\n"
                "mkdir -p expansion\n"
                f"cp {path}/result.json expansion/out.json\n"
                f"exit {r['code']}\n"
            )
            if not r["missing"]:
                script.chmod(0o755)
            else:
                script.unlink()
        before = os.getcwd()
        os.chdir(path)
        try:
            with contextlib.redirect_stdout(open(os.devnull, "w")):
                done = benders.run(should_merge=r["merge"])
            if pathlib.Path(os.getcwd()).resolve() != path:
                raise Violation(f"working directory left at {os.getcwd()}")
        finally:
            os.chdir(before)
        if r["missing"]:
            note("no solver")
            if benders.solution is not None:
                raise Violation("a solution without solver")
            return
        called = (path / "called").read_text().split()
        wanted = ["merge_mps" if r["merge"] else "benders", "options.json"]
        if called[:2] != wanted or called[2] != str(path / "outputs" / "lp"):
            raise Violation(f"solver called as {called[:3]}, expected {wanted}")
        files = {"options.json", "structure.txt", "master.mps"}
        files |= {f"{p.name}.mps" for p in benders.subproblems}
        # a single master keeps the name of its node
        files = (files - {"master.mps"}) | {f"{benders.master.name}.mps"}
        if not files <= set(called[3:]):
            raise Violation(f"solver started with files {called[3:]}")
        if done != (r["code"] == 0):
            raise Violation(f"run says {done}, exit code was {r['code']}")
        if r["code"] != 0:
            if benders.solution is not None:
                raise Violation("a solution although the solver failed")
            note("+solver failed")
            return
        kind = BendersMergedSolution if r["merge"] else BendersDecomposedSolution
        if type(benders.solution) is not kind or benders.solution.data != content:
            raise Violation(f"solution {benders.solution!r}")
        note("+solution read")


def run_columns(case, note):
    """Finding: index of the structure file = column of the exported file"""
    benders = build(case)
    structure = read_structure(benders.export_structure())
    for p in [benders.master] + benders.subproblems:
        columns = mps_columns(p.export_as_mps())
        for name, index in structure.get(p.name, {}).items():
            if index >= len(columns) or columns[index] != name:
                raise Violation(f"{p.name}: column {index} of the file is not {name}")


@st.composite
def optima(draw):
    g = gen.G(
        draw,
        gen.Profile(**{**PROFILE, "T": (1, 3), "S": (1, 2), "int_vars": False, "comps": (1, 2)}),
    )
    case = trees.tree(g, max_nodes=3)
    for m in case["spec"]["models"]:
        for v in m["vars"]:
            if v["lb"] is None:
                v["lb"] = ["lit", g.pick([0, -2])] if v["ub"] is None else ["sub", v["ub"], ["lit", 6]]
            if v["ub"] is None:
                v["ub"] = ["add", v["lb"], ["lit", g.pick([8, 3.5])]]
    return case


def run_optima(case, note):
    """Merging the exported problems on candidate names gives the optimum of the
    extensive form of the tree, written to the solver independently."""
    import ortools.linear_solver.pywraplp as lp

    benders = build(case)
    structure = read_structure(benders.export_structure())
    merged = lp.Solver.CreateSolver("GLOP")
    shared = {}
    for p in [benders.master] + benders.subproblems:
        columns = p.solver.variables()
        mine = {}
        linked = {i: n for n, i in structure.get(p.name, {}).items()}
        for v in columns:
            i = v.index()
            if i in linked:
                if linked[i] not in shared:
                    shared[linked[i]] = merged.NumVar(v.lb(), v.ub(), linked[i])
                mine[i] = shared[linked[i]]
            else:
                mine[i] = merged.NumVar(v.lb(), v.ub(), f"{p.name}/{v.name()}")
        for c in p.solver.constraints():
            row = merged.Constraint(c.lb(), c.ub())
            for v in columns:
                k = c.GetCoefficient(v)
                if k:
                    row.SetCoefficient(mine[v.index()], k)
        obj = merged.Objective()
        for v in columns:
            k = p.solver.Objective().GetCoefficient(v)
            obj.SetCoefficient(mine[v.index()], obj.GetCoefficient(mine[v.index()]) + k)
        obj.SetOffset(obj.offset() + p.solver.Objective().offset())
    ref = lp.Solver.CreateSolver("GLOP")
    m = trees.master_reference(case)
    cols = {n: ref.NumVar(v[0], v[1], n) for n, v in m["variables"].items()}
    coef = {}
    const = m["objective"][1]
    for n, k in m["objective"][0].items():
        coef[n] = coef.get(n, 0.0) + k
    rows = list(m["rows"])
    for name, (r, weight, node) in trees.subproblem_references(case).items():
        models = r.vars

        def label(key):
            v = models[r.comps[key[0]]["model"]][key[1]]
            if v["ctx"] == "coupling":
                return f"{node}_{key[0]}_{key[1]}"
            return f"{name}/{key}"

        for key, v in r.variables(trees.operate).items():
            if label(key) not in cols:
                cols[label(key)] = ref.NumVar(v[0], v[1], "")
        for terms, lb, ub, what in r.rows(trees.operate):
            rows.append(({label(k): x for k, x in terms.items()}, lb, ub, what))
        terms, c = r.objective(("obj",), weight)
        const += c
        for k, x in terms.items():
            coef[label(k)] = coef.get(label(k), 0.0) + x
    for terms, lb, ub, _ in rows:
        row = ref.Constraint(lb, ub)
        for k, x in terms.items():
            row.SetCoefficient(cols[k], x)
    for k, x in coef.items():
        ref.Objective().SetCoefficient(cols[k], x)
    ref.Objective().SetOffset(const)
    a, b = merged.Solve(), ref.Solve()
    if b not in (lp.Solver.OPTIMAL, lp.Solver.INFEASIBLE) or a not in (
        lp.Solver.OPTIMAL,
        lp.Solver.INFEASIBLE,
    ):
        return
    if a != b:
        raise Violation(f"merged problem: status {a}, expected {b}")
    if a == lp.Solver.OPTIMAL:
        x, y = merged.Objective().Value(), ref.Objective().Value()
        if abs(x - y) > 1e-5 * (1 + abs(x) + abs(y)):
            raise Violation(f"merged optimum {x}, expected {y}")
        notes(case, benders, note)


TESTS = [
    Test("problems", cases, run, 1600, 40000),
    Test("large trees", large_trees, run, 60, 4000),
    Test("files", lambda: cases(port_types=(0, 0)), run_files, 480, 12000),
    Test("run", runs, run_runs, 160, 2000),
    Test("optimum", optima, run_optima, 800, 20000),
]
FINDING_TESTS = [Test("columns", cases, run_columns, 0, 0)]
