"""Other interpreters, whose sets and hashes are ordered in another way.

    Other(seed).ask(kind, case) -> text of the problems built there

A child of the worker that asks; it ends with it (end of its input)."""
import json
import os
import subprocess
import sys
import tempfile
from typing import Any, Dict


def describe(kind: str, case: Dict[str, Any]) -> str:
    """Everything that is written for a study: names and order included"""
    from . import study, trees

    if kind == "tree":
        nodes = trees.build_tree(case)
        trees.define_couplings(case, nodes)
        from andromede.simulation.benders_decomposed import (
            build_benders_decomposed_problem,
        )

        b = build_benders_decomposed_problem(nodes[0], trees.database(case))
        parts = [b.export_structure()]
        problems = [b.master] + b.subproblems
    elif kind == "files":
        with tempfile.TemporaryDirectory() as d:
            from pathlib import Path

            problems = [study.solve_problem_yaml(case, Path(d))]
        parts = []
    else:
        problems = [study.solve_problem_api(case)]
        parts = []
    for p in problems:
        parts.append(p.name)
        parts.append(",".join(v.name() for v in p.solver.variables()))
        parts.append(",".join(c.name() for c in p.solver.constraints()))
        if p.solver.NumVariables():
            parts.append(p.export_as_lp())
    return "\n".join(parts)


class Other:
    children: Dict[int, "Other"] = {}

    @classmethod
    def get(cls, seed: int) -> "Other":
        if seed not in cls.children or cls.children[seed].child.poll() is not None:
            cls.children[seed] = cls(seed)
        return cls.children[seed]

    def __init__(self, seed: int) -> None:
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        env["PYTHONPATH"] = os.pathsep.join(p for p in sys.path if p)
        self.child = subprocess.Popen(
            [sys.executable, "-B", "-W", "ignore", "-m", "pbt.other"],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            text=True,
            env=env,
        )

    def ask(self, kind: str, case: Dict[str, Any]) -> str:
        self.child.stdin.write(json.dumps([kind, case]) + "\n")
        self.child.stdin.flush()
        while True:
            line = self.child.stdout.readline()
            if not line:
                raise RuntimeError("the other interpreter ended")
            if line.startswith("ANSWER "):
                break
        answer = json.loads(line[7:])
        if "error" in answer:
            return "error: " + answer["error"]
        return answer["text"]


def main() -> None:
    for line in sys.stdin:
        kind, case = json.loads(line)
        try:
            answer = {"text": describe(kind, case)}
        except Exception as e:
            answer = {"error": type(e).__name__}
        print("ANSWER " + json.dumps(answer), flush=True)


if __name__ == "__main__":
    main()
