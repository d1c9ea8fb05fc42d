"""Running the expansion solvers: what is started, and whose solution is read."""
import json
import os
import pathlib
import shutil
import tempfile

from hypothesis import strategies as st

from ..runner import Test, Violation

PROPERTY = "C29"
RULE = (
    "random histories of runs of one or two expansion problems, which share a directory "
    "or not, with stand-ins for the two solvers that record how they are started and "
    "end as the case says (any exit code, killed, result written or not, program "
    "missing or not executable); after each run its answer, the solution read, the "
    "files the solver found and the current directory are compared with what the "
    "stand-in did. Non-trivial: several runs, one of which has no result of its own"
)
ASSUMPTIONS = ["the solvers are stand-ins: only how they are called and read is decided"]
NUMBERS = [0, 1, -2.5, 1e6, 123.456789, 1e-7]


@st.composite
def histories(draw):
    def pick(xs):
        return draw(st.sampled_from(xs))

    problems = []
    for i in range(draw(st.integers(1, 2))):
        problems.append(
            {
                "nodes": draw(st.integers(1, 3)),
                "blocks": draw(st.integers(1, 2)),
                "directory": pick([None, None, "work", "a b/lp", "absolute"]),
                "output": pick(["expansion", "expansion", "results"]),
                "structure": pick(["structure.txt", "s.txt"]),
            }
        )
    runs = []
    for _ in range(draw(st.integers(1, 5))):
        runs.append(
            {
                "problem": draw(st.integers(0, len(problems) - 1)),
                "merge": pick([None, False, True, True]),
                "solver": pick([None, "XPRESS", "COIN", "CBC"]),
                "log": pick([None, 0, 1, 3]),
                "debug": pick([None, False, True]),
                "program": pick(["there"] * 6 + ["missing", "not executable"]),
                "code": pick([0] * 5 + [1, 2, 255, "killed"]),
                "written": pick([True, True, True, False]),
                "values": {f"x{k}": pick(NUMBERS) for k in range(draw(st.integers(0, 3)))},
                "costs": [pick(NUMBERS) for _ in range(3)],
                "iteration": draw(st.integers(0, 9)),
            }
        )
    return {"problems": problems, "runs": runs}


def build(spec, path):
    """A small expansion problem"""
    from andromede.expression import literal, param, var
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.model import Constraint, ProblemContext, float_parameter, float_variable, model
    from andromede.simulation import TimeBlock, build_benders_decomposed_problem
    from andromede.simulation.decision_tree import DecisionTreeNode, InterDecisionTimeScenarioConfig
    from andromede.study import ConstantData, DataBase, Network, create_component

    constant = IndexingStructure(False, False)
    unit = model(
        id="unit",
        parameters=[float_parameter("cost", constant)],
        variables=[
            float_variable("g", lower_bound=literal(0)),
            float_variable(
                "p", lower_bound=literal(0), upper_bound=literal(10),
                structure=constant, context=ProblemContext.COUPLING,
            ),
        ],
        constraints=[
            Constraint("limit", var("g") <= var("p")),
            Constraint("need", var("g") >= literal(1)),
        ],
        objective_operational_contribution=(param("cost") * var("g")).time_sum().expec(),
        objective_investment_contribution=literal(3) * var("p"),
    )
    network = Network("n")
    network.add_component(create_component(model=unit, id="c"))
    database = DataBase()
    database.add_data("c", "cost", ConstantData(2.0))
    blocks = [TimeBlock(b + 1, [b]) for b in range(spec["blocks"])]
    config = InterDecisionTimeScenarioConfig(blocks, 1)
    root = DecisionTreeNode("n0", config, network)
    for i in range(1, spec["nodes"]):
        DecisionTreeNode(
            f"n{i}", config, network, parent=root, prob=1 / (spec["nodes"] - 1)
        )
    problem = build_benders_decomposed_problem(
        root, database, struct_filename=spec["structure"]
    )
    if spec["directory"] == "absolute":
        problem.emplacement = path / "elsewhere" / "lp"
    elif spec["directory"]:
        problem.emplacement = pathlib.Path(spec["directory"])
    problem.output_path = pathlib.Path(spec["output"])
    return problem


def stand_in(path, run, output, record):
    """Writes the two solvers, both of which would record a call"""
    shutil.rmtree(path / "bin", ignore_errors=True)
    if run["program"] == "missing":
        return
    (path / "bin").mkdir()
    for name in ("benders", "merge_mps"):
        lines = [
            "#!/bin/sh",
            f"{{ echo {name}; echo $#; echo \"$1\"; pwd -P; }} >> '{record}'",
            f"cp options.json '{record}.options'",
            f"ls > '{record}.files'",
        ]
        if run["written"]:
            lines += [f"mkdir -p '{output}'", f"cp '{record}.result' '{output}/out.json'"]
        lines.append("kill -9 $$" if run["code"] == "killed" else f"exit {run['code']}")
        file = path / "bin" / name
        file.write_text("\n".join(lines) + "\n")
        file.chmod(0o755 if run["program"] == "there" else 0o644)


def content(run):
    overall, investment, operational = run["costs"]
    return {
        "run_duration": 1.5,
        "solution": {
            "overall_cost": overall,
            "investment_cost": investment,
            "operational_cost": operational,
            "values": run["values"],
            "problem_status": "OPTIMAL",
            "optimality_gap": 0.5,
            "relative_gap": 0.25,
            "stopping_criterion": "absolute gap",
            "lb": 1.0,
            "ub": 2.0,
            "iteration": run["iteration"],
        },
    }


def run_history(case, note):
    from andromede.simulation.output_values import (
        BendersDecomposedSolution,
        BendersMergedSolution,
    )

    before = os.getcwd()
    # programs are executed there: not a file system that may forbid it
    path = pathlib.Path(tempfile.mkdtemp(prefix="verif-case-")).resolve()
    start = path / "start"
    start.mkdir()
    record = path / "record"
    try:
        os.chdir(start)
        problems = [build(p, path) for p in case["problems"]]
        without = 0
        for i, run in enumerate(case["runs"]):
            what = f"run {i}"
            spec = case["problems"][run["problem"]]
            problem = problems[run["problem"]]
            for suffix in ("", ".options", ".files"):
                pathlib.Path(f"{record}{suffix}").unlink(missing_ok=True)
            pathlib.Path(f"{record}.result").write_text(json.dumps(content(run)))
            stand_in(start, run, spec["output"], record)
            kw = {
                k: run[v]
                for k, v in (
                    ("solver_name", "solver"),
                    ("log_level", "log"),
                    ("should_merge", "merge"),
                    ("show_debug", "debug"),
                )
                if run[v] is not None
            }
            error = None
            answer = None
            try:
                answer = problem.run(**kw)
            except OSError as e:
                error = e
            if os.getcwd() != str(start):
                raise Violation(f"{what}: the current directory is now {os.getcwd()}")
            calls = record.read_text().splitlines() if record.exists() else []
            own = run["program"] == "there" and run["written"]
            if not own or run["code"] != 0:
                without += 1
            solution = problem.solution
            if run["program"] != "there":
                if calls:
                    raise Violation(f"{what}: {calls} although the program cannot be run")
                if run["program"] == "not executable" and answer:
                    raise Violation(f"{what}: success with a program that cannot be run")
                if run["program"] == "missing" and error:
                    raise error
            else:
                if error:
                    raise error
                place = start / problem.emplacement
                wanted = [
                    "merge_mps" if run["merge"] else "benders", "1", "options.json",
                    str(place.resolve()),
                ]
                if calls != wanted:
                    raise Violation(f"{what}: started {calls}, expected {wanted}")
                if bool(answer) != (run["code"] == 0):
                    raise Violation(f"{what}: {answer}, the solver ended with {run['code']}")
                options = json.loads(pathlib.Path(f"{record}.options").read_text())
                for key, value in {
                    "SOLVER_NAME": run["solver"] or "XPRESS",
                    "LOG_LEVEL": run["log"] or 0,
                    "MASTER_NAME": problem.master.name,
                    "STRUCTURE_FILE": spec["structure"],
                    "JSON_FILE": f"{spec['output']}/out.json",
                }.items():
                    if options.get(key) != value:
                        raise Violation(f"{what}: option {key} is {options.get(key)!r}")
                files = pathlib.Path(f"{record}.files").read_text().splitlines()
                names = [problem.master.name] + [p.name for p in problem.subproblems]
                needed = {f"{n}.mps" for n in names} | {spec["structure"]}
                if run["debug"]:
                    needed |= {f"{n}.lp" for n in names}
                if needed - set(files):
                    raise Violation(f"{what}: the solver had no {needed - set(files)}")
                (place / f"{problem.master.name}.mps").unlink()
            if solution is None:
                if own and run["code"] == 0:
                    raise Violation(f"{what}: the solution is not read")
                continue
            if not own:
                raise Violation(f"{what} gave no solution, but there is one: {solution}")
            kind = BendersMergedSolution if run["merge"] else BendersDecomposedSolution
            if type(solution) is not kind:
                raise Violation(f"{what}: {type(solution).__name__}, expected {kind.__name__}")
            data = content(run)["solution"]
            got = {
                "overall_cost": solution.overall_cost,
                "investment_cost": solution.investment_cost,
                "operational_cost": solution.operational_cost,
                "values": solution.candidates,
            }
            for k, v in got.items():
                if v != data[k]:
                    raise Violation(f"{what}: {k} is {v}, the solver wrote {data[k]}")
        if len(case["runs"]) > 1 and without:
            note("+several runs, one without result")
        if len({bool(r["merge"]) for r in case["runs"]}) > 1:
            note("merged and decomposed runs")
        if len({r["problem"] for r in case["runs"]}) > 1:
            note("runs of two problems")
    finally:
        os.chdir(before)
        shutil.rmtree(path, ignore_errors=True)


TESTS = [Test("runs", histories, run_history, 1500, 30000)]
