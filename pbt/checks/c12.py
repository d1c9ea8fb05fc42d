"""Data series files."""
import io

import yaml
from hypothesis import strategies as st

from ..runner import Test, Violation, rejected
from ..scratch import directory

PROPERTY = "C12"
RULE = (
    "random series (shape, magnitudes, number formats, separators, blank lines) "
    "written to files and read through a system file; every (time, scenario) lookup "
    "must give the number of its row and column; constants are given everywhere; "
    "files of the wrong shape or missing, texts for constants, numbers for series and "
    "lookups outside of the series are errors. Non-trivial: series of at least two "
    "values, or an invalid one"
)
NUMBERS = st.one_of(
    st.integers(-10**6, 10**6).map(lambda i: (float(i), str(i))),
    st.floats(-1e9, 1e9, allow_nan=False, allow_subnormal=False).map(
        lambda f: (f, repr(f))
    ),
    st.floats(-1e5, 1e5, allow_nan=False).map(lambda f: (float(f"{f:.3f}"), f"{f:.3f}")),
    st.floats(-1e12, 1e12, allow_nan=False, allow_subnormal=False).map(
        lambda f: (float(f"{f:.6e}"), f"{f:.6e}")
    ),
)


@st.composite
def files(draw):
    kind = draw(st.sampled_from(["both", "time", "scen"]))
    n = draw(st.integers(1, 6)) if kind != "scen" else 1
    m = draw(st.integers(1, 5)) if kind != "time" else 1
    rows = [[list(draw(NUMBERS)) for _ in range(m)] for _ in range(n)]
    return {
        "kind": kind,
        "rows": rows,
        "sep": draw(st.sampled_from(["\t", " ", "  ", " \t"])),
        "end": draw(st.booleans()),
        "node": draw(st.booleans()),
        "name": draw(st.sampled_from(["ts", "my-series", "ts_1", "load.fr"])),
    }


def system(case, value, **kw):
    param = {"id": "p", "value": value}
    if "time" in kw:
        param["time-dependent"] = kw["time"]
    if "scen" in kw:
        param["scenario-dependent"] = kw["scen"]
    key = "nodes" if case.get("node") else "components"
    return yaml.safe_dump(
        {"system": {key: [{"id": "c", "model": "lib.m", "parameters": [param]}]}}
    )


def load(text, path):
    from andromede.study.parsing import parse_yaml_components
    from andromede.study.resolve_components import build_data_base

    return build_data_base(parse_yaml_components(io.StringIO(text)), path)


def value(db, t, s):
    from andromede.study.data import ComponentParameterIndex

    a = db.get_data("c", "p").get_value(t, s)
    if t is not None and s is not None:
        b = db.get_value(ComponentParameterIndex("c", "p"), t, s)
        if a != b:
            raise Violation(f"{a} and {b} for the same data")
    return a


def write(path, name, rows, sep="\t", end=True):
    text = "\n".join(sep.join(r) for r in rows) + ("\n" if end else "")
    (path / f"{name}.txt").write_text(text)


def run(case, note):
    kind, rows = case["kind"], case["rows"]
    n, m = len(rows), len(rows[0])
    with directory() as path:
        write(path, case["name"], [[c[1] for c in r] for r in rows], case["sep"], case["end"])
        text = system(
            case, case["name"], time=kind != "scen", scen=kind != "time"
        )
        db = load(text, path)
        for t in range(n if kind != "scen" else 3):
            for s in range(m if kind != "time" else 3):
                expected = rows[t if kind != "scen" else 0][s if kind != "time" else 0][0]
                got = value(
                    db,
                    t if kind != "scen" or s % 2 else None,
                    s if kind != "time" or t % 2 else None,
                )
                if not abs(got - expected) <= 1e-12 * abs(expected):
                    raise Violation(f"value at t={t} s={s}: {got}, expected {expected}")
        if kind != "scen":
            rejected(lambda: value(db, n, 0), f"timestep {n} of {n}")
            for t in (-1, -n):
                rejected(lambda: value(db, t, 0), f"timestep {t} of {n}")
            rejected(lambda: value(db, None, 0), "series read without timestep")
        if kind != "time":
            rejected(lambda: value(db, 0, m), f"scenario {m} of {m}")
            for s in (-1, -m):
                rejected(lambda: value(db, 0, s), f"scenario {s} of {m}")
            rejected(lambda: value(db, 0, None), "series read without scenario")
    note(("+" if n * m > 1 else "") + f"series {kind}")
    if n > 1 and m > 1:
        note("+table")


@st.composite
def constants(draw):
    v = draw(
        st.one_of(
            st.integers(-10**9, 10**9),
            st.floats(-1e12, 1e12, allow_nan=False, allow_subnormal=False),
        )
    )
    return {
        "value": v,
        "t": draw(st.sampled_from([None, 0, 1, 100])),
        "s": draw(st.sampled_from([None, 0, 1, 100])),
        "node": draw(st.booleans()),
        "flags": draw(st.booleans()),
    }


def run_constant(case, note):
    kw = {"time": False, "scen": False} if case["flags"] else {}
    got = value(load(system(case, case["value"], **kw), None), case["t"], case["s"])
    if got != case["value"]:
        raise Violation(f"constant {case['value']} read as {got}")
    note("+constant")


@st.composite
def invalid(draw):
    kind = draw(
        st.sampled_from(
            ["columns", "lines", "missing", "text-constant", "number-series", "no-dir", "text-cell", "hole", "wide"]
        )
    )
    return {
        "kind": kind,
        "node": draw(st.booleans()),
        "n": draw(st.integers(2, 4)),
        "time": draw(st.booleans()),
        "value": draw(st.sampled_from([0, 1, 2.5, -1])),
        "cell": draw(st.sampled_from(["abc", "1,5", "1;2", "12abc", "1e", "--1", "0x", "1.2.3", "1,000", "1/2", "50%", "#"])),
    }


def run_invalid(case, note):
    kind, n = case["kind"], case["n"]
    with directory() as path:
        rows = [["1"] * n] * n
        what = f"{kind}"
        if kind == "columns":  # several columns for a series in time
            write(path, "ts", rows)
            text = system(case, "ts", time=True, scen=False)
        elif kind == "lines":  # several lines for a scenario series
            write(path, "ts", rows)
            text = system(case, "ts", time=False, scen=True)
        elif kind == "missing":
            write(path, "other", rows)
            text = system(case, "ts", time=True, scen=True)
        elif kind == "text-constant":
            write(path, "ts", [["1"]])
            text = system(case, "ts", time=False, scen=False)
        elif kind == "number-series":
            text = system(case, case["value"], time=case["time"], scen=not case["time"])
        elif kind == "text-cell":
            rows = [["1"] * n for _ in range(n)]
            rows[0][0] = case.get("cell", "abc")
            write(path, "ts", rows)
            text = system(case, "ts", time=True, scen=True)
        elif kind == "hole":  # a line shorter than the first one
            rows = [["1"] * n for _ in range(n)]
            rows[-1].pop()
            write(path, "ts", rows)
            text = system(case, "ts", time=True, scen=True)
        elif kind == "wide":  # a line longer than the first one
            rows = [["1"] * n for _ in range(n)]
            rows[1 + len(case.get("cell", "")) % (n - 1)].append("1")
            write(path, "ts", rows)
            text = system(case, "ts", time=True, scen=True)
        else:
            text = system(case, "ts", time=True, scen=True)
        rejected(
            lambda: value(load(text, None if kind == "no-dir" else path), 0, 0), what
        )
    note(f"+invalid: {kind}")


def long_files():
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["both", "time", "scen"]),
            "n": st.sampled_from([100, 8736, 8760, 8784, 8785, 9000, 20000]),
            "m": st.sampled_from([1, 2, 30]),
            "seed": st.integers(0, 1000),
            "node": st.booleans(),
        }
    )


def run_long(case, note):
    """A year of hours and more"""
    n, m, seed = case["n"], case["m"] if case["kind"] == "both" else 1, case["seed"]
    scenarios = case["kind"] == "scen"
    if scenarios:  # many scenarios, no time
        n, m = 1, min(n, 1000) - case["m"]

    def cell(t, s):
        return ((t * 31 + s * 17 + seed) % 10007) / 8

    with directory() as path:
        write(path, "ts", [[str(cell(t, s)) for s in range(m)] for t in range(n)])
        db = load(
            system(case, "ts", time=not scenarios, scen=case["kind"] != "time"), path
        )
        for t in {0, 1, 167, 168, n // 2, 8735, 8759, 8760, 8783, 8784, n - 2, n - 1} & set(range(n)):
            for s in range(m) if scenarios else {0, m // 2, m - 1}:
                got = value(db, t, s)
                if got != cell(t, s):
                    raise Violation(f"value at t={t} s={s}: {got}, expected {cell(t, s)}")
        if scenarios:
            rejected(lambda: value(db, 0, m), f"scenario {m} of {m}")
        else:
            rejected(lambda: value(db, n, 0), f"timestep {n} of {n}")
    note("+long series")


TESTS = [
    Test("long", long_files, run_long, 24, 300),
    Test("files", files, run, 1200, 30000),
    Test("constants", constants, run_constant, 240, 4000),
    Test("invalid", invalid, run_invalid, 240, 2000),
]
