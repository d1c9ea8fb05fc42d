"""The command line: from files to the optimal cost."""
import contextlib
import io
import os
import re
import sys

import yaml
from hypothesis import strategies as st

from .. import gen, study
from ..runner import Test, Violation
from ..scratch import directory
from . import c17

PROPERTY = "C24"
RULE = (
    "random studies written to files (one or several libraries, models of the same "
    "name in several of them, series, nodes and components) and solved by the command "
    "line, as a study directory or with separate options (relative or absolute paths, files "
    "in one or several directories, other series of the same names elsewhere), duration and number of "
    "scenarios given or left out; the printed status and cost are those of the "
    "independently interpreted study. Faulty command lines and studies end with an "
    "error and print no cost. Non-trivial: a feasible study with an objective on a "
    "variable, or a faulty one"
)
ASSUMPTIONS = ["the linear solvers bundled with OR-Tools are right within 1e-5"]


# names of the files of models
NAMES = ["{n}-{id}.yml", "_{id}.yml", "{id}.yaml", "models of {id} v1.{n}.yml", "{id}.YML", "Zé_{n}.yml"]


@st.composite
def cases(draw, **kw):
    spec = draw(c17.cases(gaps=False, **kw))
    T = len(spec["timesteps"])
    spec["timesteps"] = list(range(T))
    n = draw(st.integers(1, 3))
    return {
        "spec": spec,
        "lib_of": [draw(st.integers(0, n - 1)) for _ in spec["models"]],
        "order": draw(st.permutations(range(n + 1))),
        "same_names": draw(st.booleans()),
        "study": draw(st.booleans()),
        "defaults": draw(st.booleans()),
        "apart": draw(st.booleans()),
        "relative": draw(st.booleans()),
        "decoys": draw(st.booleans()),
        "names": draw(st.sampled_from(range(len(NAMES)))),
    }


def documents(case, path):
    """Libraries (id -> document) and system, series written under path"""
    spec = case["spec"]
    lib, system = study.yaml_documents(spec, str(path))
    lib, system = yaml.safe_load(lib)["library"], yaml.safe_load(system)["system"]
    base = {"id": "base", "port-types": lib["port-types"], "models": []}
    libs = {"base": base}
    where = {}
    for m, i in zip(lib["models"], case["lib_of"]):
        doc = libs.setdefault(
            f"lib{i}", {"id": f"lib{i}", "dependencies": ["base"], "models": []}
        )
        name = m["id"]
        if case["same_names"]:
            m["id"] = f"m{len(doc['models'])}"
        where[name] = f"{doc['id']}.{m['id']}"
        doc["models"].append(m)
    for key in ("nodes", "components"):
        for c in system.get(key, []):
            c["model"] = where[c["model"].split(".")[1]]
    return libs, system


def write(case, path, libs, system, extra=()):
    """Writes the files, returns the arguments of the command line"""
    root = path / "study"
    models = root / "input" / "models"
    models.mkdir(parents=True, exist_ok=True)
    files = []
    docs = [libs[k] for k in sorted(libs)] + list(extra)
    for i, doc in enumerate(docs):
        file = models / NAMES[case.get("names", 0)].format(n=9 - i, id=doc["id"])
        if file.exists():  # a library given twice
            file = models / f"again {i}.yml"
        file.write_text(yaml.safe_dump({"library": doc}, sort_keys=False))
        files.append(str(file))
    comp = root / "input" / "components" / "components.yml"
    comp.write_text(yaml.safe_dump({"system": system}, sort_keys=False))
    series = root / "input" / "components" / "series"
    if case["relative"]:
        shown = lambda p: os.path.relpath(p)
    else:
        shown = str
    if case["study"]:
        return ["--study", shown(root)]
    if case["apart"]:
        # every file in a directory of its own, series elsewhere
        for i, f in enumerate(files):
            target = path / f"dir{i}" / "lib.yml"
            target.parent.mkdir(exist_ok=True)
            os.rename(f, target)
            files[i] = str(target)
        target = path / "system" / "components.txt"
        target.parent.mkdir(exist_ok=True)
        os.rename(comp, target)
        comp = target
        os.rename(series, path / "series")
        old, series = series, path / "series"
        if case["decoys"]:
            # series of the same names, elsewhere
            for d in (old, comp.parent, comp.parent / "series"):
                d.mkdir(exist_ok=True)
                for f in series.iterdir():
                    (d / f.name).write_text(re.sub(r"[0-9]+", "7", f.read_text()))
    files = [shown(f) for f in files]
    comp, series = shown(comp), shown(series)
    order = [i for i in case["order"] if i < len(files)]
    files = [files[i] for i in order] + files[len(case["order"]):]
    return ["--models", *files, "--component", str(comp), "--timeseries", str(series)]


def period(case):
    T, S = len(case["spec"]["timesteps"]), case["spec"]["scenarios"]
    args = []
    if T != 1 or not case["defaults"]:
        args += ["--duration", str(T)]
    if S != 1 or not case["defaults"]:
        args += ["--scenario", str(S)]
    return args


def command(args):
    """Exit code or exception, and what was printed"""
    from andromede.main.main import main_cli

    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["andromede", *args]
    failure = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            main_cli()
    except SystemExit as e:
        failure = e if e.code not in (0, None) else None
    except Exception as e:
        failure = e
    finally:
        sys.argv = old
    return failure, out.getvalue()


def printed(text):
    status = re.search(r"status\s*:\s*(\S+)", text)
    cost = re.search(r"cost\s*:\s*(\S+)", text)
    if not status or not cost:
        raise Violation(f"no status or no cost in {text!r}")
    return int(status.group(1)), float(cost.group(1))


def series_directory(path):
    series = path / "study" / "input" / "components" / "series"
    series.mkdir(parents=True)
    return series


def run(case, note):
    spec = case["spec"]
    ref = study.Ref(spec)
    with directory() as path:
        libs, system = documents(case, series_directory(path))
        args = write(case, path, libs, system)
        failure, text = command(args + period(case))
    inconsistent = any(v[3] for v in ref.variables().values())
    if inconsistent:
        if failure is None:
            raise Violation("a study with lower bounds above upper bounds is accepted")
        note("inconsistent bounds")
        return
    if failure is not None:
        raise Violation(f"refused: {failure!r}")
    solver, expected, _ = c17.reference_solve(ref, "SCIP")
    if expected not in (solver.OPTIMAL, solver.INFEASIBLE):
        note(f"reference status {expected}")
        return
    status, cost = printed(text)
    if (status == 0) != (expected == 0):
        raise Violation(f"status {status}, expected {expected}")
    if status != 0:
        note("infeasible")
        return
    wanted = solver.Objective().Value()
    # the command line solves with the default relative gap, 1e-4
    gap = 2e-4 * abs(wanted) if any(v[2] for v in ref.variables().values()) else 0.0
    if not c17.near(cost, wanted, gap / c17.TOL):
        raise Violation(f"cost {cost}, expected {wanted}")
    if len(libs) > 2:
        note("several libraries")
    note("study directory" if case["study"] else "separate options")
    if ref.objective()[0]:
        note("+feasible with a cost")


FAULTS = [
    "study and models", "study and component", "study and timeseries", "no component",
    "no models", "nothing", "same library twice", "unknown model", "unknown library",
    "missing parameter", "missing series", "unknown connection", "duration not a number",
    "no such file",
]


@st.composite
def faulty(draw):
    case = draw(cases(comps=(1, 2), params=(1, 3)))
    case["fault"] = draw(st.sampled_from(FAULTS))
    case["pick"] = draw(st.integers(0, 5))
    if case["fault"].startswith("study"):
        case["study"] = True
    elif case["fault"].startswith("no ") and case["fault"] != "no such file":
        case["study"] = False
    return case


def run_faulty(case, note):
    fault, k = case["fault"], case["pick"]
    with directory() as path:
        series = series_directory(path)
        libs, system = documents(case, series)
        comps = system.get("nodes", []) + system.get("components", [])
        with_params = [c for c in comps if c["parameters"]]
        extra = []
        if fault == "same library twice":
            extra = [dict(libs[sorted(libs)[k % len(libs)]])]
        elif fault == "unknown model":
            comps[k % len(comps)]["model"] = "base.m0"
        elif fault == "unknown library":
            comps[k % len(comps)]["model"] = "nowhere.m0"
        elif fault == "missing parameter":
            if not with_params:
                return
            c = with_params[k % len(with_params)]
            c["parameters"] = c["parameters"][1:]
        elif fault == "missing series":
            files = sorted(series.iterdir())
            if not files:
                return
            files[k % len(files)].unlink()
        elif fault == "unknown connection":
            system.setdefault("connections", []).append(
                {"component1": comps[0]["id"], "port1": "q0", "component2": "ghost", "port2": "q0"}
            )
        args = write(case, path, libs, system, extra) + period(case)
        i = args.index
        if fault == "study and models":
            args += ["--models", str(min((path / "study" / "input" / "models").iterdir()))]
        elif fault == "study and component":
            args += ["--component", str(path / "study" / "input" / "components" / "components.yml")]
        elif fault == "study and timeseries":
            args += ["--timeseries", str(series)]
        elif fault == "no component":
            args = args[: i("--component")] + args[i("--timeseries") :]
        elif fault == "no models":
            args = args[i("--component") :]
        elif fault == "nothing":
            args = period(case)
        elif fault == "duration not a number":
            args += ["--duration", "two"]
        elif fault == "no such file":
            for file in ("study/input/components/components.yml", "system/components.txt"):
                (path / file).unlink(missing_ok=True)
        failure, text = command(args)
    if failure is None:
        raise Violation(f"{fault}: accepted, printed {text!r}")
    if re.search(r"cost\s*:", text):
        raise Violation(f"{fault}: a cost is printed, {text!r}")
    note(f"+{fault}")


TESTS = [
    Test("studies", cases, run, 560, 16000),
    Test("faults", faulty, run_faulty, 240, 6000),
]
