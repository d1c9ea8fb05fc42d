"""Solving a study: status, optimum and output values."""
import math

from hypothesis import strategies as st

from .. import gen, study
from ..runner import Test, Violation

PROPERTY = "C17"
RULE = (
    "random studies with bounded variables are built and solved; the same study, "
    "interpreted independently, is written to a solver directly. Both must agree on "
    "feasibility and optimal cost, and the output values must be, for every component, "
    "variable, time step and scenario, a point within the bounds, integer where "
    "required, satisfying every constraint, whose cost is the optimal one; their "
    "shape is the documented one. Non-trivial: a feasible study with a constraint "
    "and an objective on several variables"
)
ASSUMPTIONS = ["the linear solvers bundled with OR-Tools are right within 1e-5"]

TOL = 1e-5


@st.composite
def cases(draw, ints=True, **kw):
    base = dict(
        T=(1, 4), S=(1, 3), models=(1, 2), comps=(1, 3), cons=(0, 2), depth=2,
        int_vars=ints, port_types=(0, 1),
    )
    base.update(kw)
    g = gen.G(draw, gen.Profile(**base))
    spec = g.spec()
    for m in spec["models"]:
        for v in m["vars"]:
            if v["type"] == "boolean":
                continue
            # bounded problems: solvers agree on the status
            if v["lb"] is None:
                v["lb"] = ["lit", g.pick([0, -2, -10])] if v["ub"] is None else ["sub", v["ub"], ["lit", 6]]
            if v["ub"] is None:
                v["ub"] = ["add", v["lb"], ["lit", g.pick([8, 3.5, 20])]]
        if m["obj"] is None and m["vars"]:
            terms = None
            for v in m["vars"]:
                e = ["mul", ["lit", g.pick([1, -1, 3, 0.5, -2])], ["var", v["name"]]]
                if v["time"]:
                    e = ["allsum", e]
                if v["scen"]:
                    e = ["expec", e]
                terms = e if terms is None else ["add", terms, e]
            m["obj"] = terms
        for k in m["cons"]:
            if "cmp" in k and k["cmp"][0] == "=" and not g.chance(4):
                k["cmp"][0] = g.pick(["<=", ">="])
    if not g.chance(4):
        widen(spec)
    return spec


def widen(spec):
    """Constraints moved so that the middle of the bounds satisfies most of them"""
    ref = study.Ref(spec)
    x = {}
    for key, (lb, ub, integer, _) in ref.variables().items():
        x[key] = (lb + ub) / 2
        if integer:
            x[key] = float(math.floor(x[key]))

    def at(e, comp, t, s):
        terms, const = ref.lin(e, comp, t, s)
        return const + sum(v * x[k] for k, v in terms.items())

    for m in spec["models"]:
        where = [
            (c["id"], t, s)
            for c in spec["comps"]
            if c["model"] == m["id"]
            for t in range(ref.T)
            for s in range(ref.S)
        ]
        for k in m["cons"]:
            if "cmp" in k:
                op, left, right = k["cmp"]
                gaps = [at(left, *w) - at(right, *w) for w in where]
                if op == "<=" and max(gaps) > 0:
                    k["cmp"][2] = ["add", right, ["lit", math.ceil(max(gaps))]]
                if op == ">=" and min(gaps) < 0:
                    k["cmp"][2] = ["sub", right, ["lit", math.ceil(-min(gaps))]]
            else:
                for name, sign in (("lb", 1), ("ub", -1)):
                    if k[name] is not None:
                        gap = max(sign * (at(k[name], *w) - at(k["expr"], *w)) for w in where)
                        if gap > 0:
                            k[name] = ["sub" if sign > 0 else "add", k[name], ["lit", math.ceil(gap)]]


def exact():
    import ortools.linear_solver.pywraplp as lp

    parameters = lp.MPSolverParameters()
    parameters.SetDoubleParam(parameters.RELATIVE_MIP_GAP, 0.0)
    return parameters


def reference_solve(ref, solver_id):
    import ortools.linear_solver.pywraplp as lp

    solver = lp.Solver.CreateSolver(solver_id)
    variables = {}
    for key, (lb, ub, integer, _) in ref.variables().items():
        name = "_".join(map(str, key))
        variables[key] = (solver.IntVar if integer else solver.NumVar)(lb, ub, name)
    for terms, lb, ub, name in ref.rows():
        row = solver.Constraint(lb, ub)
        for k, v in terms.items():
            row.SetCoefficient(variables[k], v)
    terms, const = ref.objective()
    for k, v in terms.items():
        solver.Objective().SetCoefficient(variables[k], v)
    solver.Objective().SetOffset(const)
    solver.Objective().SetMinimization()
    status = solver.Solve(exact())
    return solver, status, {k: v.solution_value() for k, v in variables.items()}


def near(a, b, scale=0.0):
    return abs(a - b) <= TOL * (1 + abs(a) + abs(b) + scale)


def output_point(outputs, ref):
    """Values of all variables, read through the outputs."""
    point = {}
    names = {}
    for key in ref.variables():
        names.setdefault(key[:2], []).append(key[2:])
    for (comp, name), idx in names.items():
        value = outputs.component(comp).var(name).value
        v = ref.vars[ref.comps[comp]["model"]][name]
        nt = ref.T if v["time"] else 1
        ns = ref.S if v["scen"] else 1

        def number(x):
            if isinstance(x, bool) or not isinstance(x, (int, float)):
                raise Violation(f"{comp}.{name}: {value!r} for {nt} time steps, {ns} scenarios")
            return float(x)

        def sized(x, n):
            if not isinstance(x, list) or len(x) != n:
                raise Violation(f"{comp}.{name}: {value!r} for {nt} time steps, {ns} scenarios")
            return x

        if nt == 1 and ns == 1:
            table = [[number(value)]]
        elif nt == 1:
            table = [[number(x)] for x in sized(value, ns)]
        else:
            table = [[number(x) for x in sized(r, nt)] for r in sized(value, ns)]
        for t, s in idx:
            point[(comp, name, t, s)] = table[s or 0][t or 0]
    return point


def evaluate(terms, const, point):
    return const + sum(v * point[k] for k, v in terms.items())


def check_point(point, ref):
    for key, (lb, ub, integer, _) in ref.variables().items():
        x = point[key]
        if not math.isfinite(x):
            raise Violation(f"variable {key} has value {x}")
        if x < lb - TOL * (1 + abs(lb)) or x > ub + TOL * (1 + abs(ub)):
            raise Violation(f"variable {key} = {x} out of [{lb}, {ub}]")
        if integer and abs(x - round(x)) > TOL:
            raise Violation(f"integer variable {key} = {x}")
    for terms, lb, ub, name in ref.rows():
        x = evaluate(terms, 0.0, point)
        scale = sum(abs(v * point[k]) for k, v in terms.items())
        if x < lb - TOL * (1 + abs(lb) + scale) or x > ub + TOL * (1 + abs(ub) + scale):
            raise Violation(f"constraint {name} not satisfied: {lb} <= {x} <= {ub}")


def run_with(solver_id):
    def run(spec, note):
        from andromede.simulation import OutputValues

        ref = study.Ref(spec)
        if any(lb > ub for lb, ub, _, _ in ref.variables().values()):
            return
        problem = study.solve_problem_api(spec, solver_id=solver_id)
        solver, expected, values = reference_solve(ref, solver_id)
        status = problem.solver.Solve(exact())
        if expected not in (solver.OPTIMAL, solver.INFEASIBLE):
            note(f"reference status {expected}")
            return
        if status != expected:
            if expected == solver.OPTIMAL:
                check_point(values, ref)  # truly feasible
            raise Violation(f"status {status}, expected {expected}")
        if status != solver.OPTIMAL:
            note("infeasible")
            return
        best = solver.Objective().Value()
        if not near(problem.solver.Objective().Value(), best):
            raise Violation(
                f"optimal cost {problem.solver.Objective().Value()}, expected {best}"
            )
        outputs = OutputValues(problem)
        point = output_point(outputs, ref)
        check_point(point, ref)
        terms, const = ref.objective()
        cost = evaluate(terms, const, point)
        scale = sum(abs(v * point[k]) for k, v in terms.items())
        if not near(cost, best, scale):
            raise Violation(f"the output values cost {cost}, the optimum is {best}")
        # a second reading, and values given by hand, are equal to the first one
        again = OutputValues(problem)
        if not (again == outputs and again.is_close(outputs)):
            raise Violation("two readings of the same problem differ")
        mine = OutputValues()
        for comp, name, _, _ in ref.variables():
            mine.component(comp).var(name).value = outputs.component(comp).var(name).value
        if not (mine == outputs and outputs == mine and mine.is_close(outputs)):
            raise Violation("the outputs differ from the same values given by hand")
        if ref.rows() and len(terms) > 1:
            note("+feasible with constraints and objective")
        if ref.T > 1 and ref.S > 1:
            note("several time steps and scenarios")

    return run


TESTS = [
    Test("mip", cases, run_with("SCIP"), 1200, 30000),
    Test("lp", lambda: cases(ints=False), run_with("GLOP"), 1600, 40000),
    Test(
        "large",
        lambda: cases(
            ints=False, large=True, models=(1, 2), comps=(1, 2), cons=(0, 1), vars=(1, 2), depth=1
        ),
        run_with("GLOP"),
        60,
        3000,
    ),
]
