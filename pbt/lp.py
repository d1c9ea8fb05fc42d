"""
Small linear (or mixed integer) problems written by hand, and their comparison
with the problems built by the code: same optimum for the cost and for random
other directions, so same feasible set as far as these can tell, however the
constraints are written.
"""
from typing import Any, Dict, List, Optional, Tuple

from .runner import Violation
from .study import problem_variables

INF = float("inf")
BOX = 1000.0
TOL = 1e-5


class Lin(dict):
    """Linear expression: key -> coefficient, None -> constant"""

    def __add__(self, other: Any) -> "Lin":
        out = Lin(self)
        for k, v in lin(other).items():
            out[k] = out.get(k, 0.0) + v
        return out

    __radd__ = __add__

    def __mul__(self, c: float) -> "Lin":
        return Lin({k: v * c for k, v in self.items()})

    __rmul__ = __mul__

    def __truediv__(self, c: float) -> "Lin":
        return self * (1.0 / c)

    def __neg__(self) -> "Lin":
        return self * -1.0

    def __sub__(self, other: Any) -> "Lin":
        return self + (-lin(other))

    def __rsub__(self, other: Any) -> "Lin":
        return lin(other) + (-self)


def lin(x: Any) -> Lin:
    return x if isinstance(x, Lin) else Lin({None: float(x)})


class Problem:
    def __init__(self) -> None:
        self.vars: Dict[Tuple, List[Any]] = {}
        self.rows: List[Tuple[Lin, float, float]] = []
        self.cost = Lin()

    def var(self, key: Tuple, lb: float = -INF, ub: float = INF, integer: bool = False) -> Lin:
        assert key not in self.vars
        self.vars[key] = [lb, ub, integer]
        return Lin({key: 1.0})

    def leq(self, a: Any, b: Any) -> None:
        self.rows.append((lin(a) - lin(b), -INF, 0.0))

    def eq(self, a: Any, b: Any) -> None:
        self.rows.append((lin(a) - lin(b), 0.0, 0.0))

    def solver(self) -> Tuple[Any, Dict[Tuple, Any]]:
        import ortools.linear_solver.pywraplp as lp

        s = lp.Solver.CreateSolver("SCIP")
        made = {}
        for key, (lb, ub, integer) in self.vars.items():
            name = "_".join(map(str, key))
            made[key] = (s.IntVar if integer else s.NumVar)(lb, ub, name)
        for terms, lb, ub in self.rows:
            c = terms.get(None, 0.0)
            row = s.Constraint(lb - c, ub - c)
            for k, v in terms.items():
                if k is not None:
                    row.SetCoefficient(made[k], v)
        for k, v in self.cost.items():
            if k is None:
                s.Objective().SetOffset(v)
            else:
                s.Objective().SetCoefficient(made[k], v)
        s.Objective().SetMinimization()
        return s, made


def solve(solver: Any) -> Tuple[int, Optional[float]]:
    import ortools.linear_solver.pywraplp as lp

    params = lp.MPSolverParameters()
    params.SetDoubleParam(lp.MPSolverParameters.RELATIVE_MIP_GAP, 0.0)
    status = solver.Solve(params)
    if status == lp.Solver.OPTIMAL:
        return status, solver.Objective().Value()
    return status, None


def box(variables: Dict[Tuple, Any]) -> None:
    for v in variables.values():
        v.SetBounds(max(v.lb(), -BOX), min(v.ub(), BOX))


def direction(seed: int, keys: List[Tuple]) -> Dict[Tuple, float]:
    out = {}
    x = seed * 2654435761 % 2**32
    for k in keys:
        x = (x * 1103515245 + 12345) % 2**31
        out[k] = [0, 1, -1, 0, 2, -3, 0, 1][(x >> 16) % 8]
    return out


def compare(problem: Any, mine: Problem, seeds: List[int], note: Any) -> None:
    """problem: OptimizationProblem of the code"""
    theirs = problem_variables(problem)
    if set(theirs) != set(mine.vars):
        missing = sorted(map(str, set(mine.vars) - set(theirs)))[:5]
        extra = sorted(map(str, set(theirs) - set(mine.vars)))[:5]
        raise Violation(f"variables: missing {missing}, unexpected {extra}")
    for key, v in theirs.items():
        if bool(v.integer()) != bool(mine.vars[key][2]):
            raise Violation(f"variable {key}: integer={v.integer()}")
    for key in mine.vars:
        mine.vars[key][0] = max(mine.vars[key][0], -BOX)
        mine.vars[key][1] = min(mine.vars[key][1], BOX)
    box(theirs)
    solver, made = mine.solver()
    keys = sorted(mine.vars, key=str)
    feasible = None
    for i, seed in enumerate([None] + list(seeds)):
        what = "cost"
        if seed is not None:
            d = direction(seed, keys)
            what = f"direction {seed}"
            for s, vs in ((solver, made), (problem.solver, theirs)):
                s.Objective().Clear()
                for k, c in d.items():
                    if c:
                        s.Objective().SetCoefficient(vs[k], c)
                s.Objective().SetMinimization()
        a, x = solve(solver)
        b, y = solve(problem.solver)
        if a not in (0, 2) or b not in (0, 2):
            note(f"status {a} {b}")
            continue
        if a != b:
            # borderline cases are told apart by the point of the feasible one
            raise Violation(f"{what}: status {b}, expected {a}")
        if x is not None:
            feasible = True
            if abs(x - y) > TOL * (1 + abs(x) + abs(y)):
                raise Violation(f"{what}: optimum {y}, expected {x}")
        else:
            break
    note("+feasible" if feasible else "infeasible")
