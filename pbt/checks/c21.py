"""Thermal clusters: data computed for the unit commitment model."""
import math

from hypothesis import strategies as st

from .. import antares
from ..runner import Test, Violation
from ..scratch import directory

PROPERTY = "C21"
RULE = (
    "random Antares studies with one to three thermal clusters (random capacity, units, "
    "modulation and availability series, several scenarios, random length and period) "
    "are converted; the five computed series, read from the files, are compared with "
    "independent formulas at every hour and scenario. Non-trivial: the number of "
    "available units changes along time"
)


@st.composite
def matrix(draw, n, cols, unit, top):
    if draw(st.booleans()):
        seed = [draw(st.integers(0, 9)) for _ in range(3)]
        return antares.scaled(n, cols, seed, unit, top)
    return [
        [unit * draw(st.integers(0, top)) for _ in range(cols)] for _ in range(n)
    ]


@st.composite
def cases(draw, long=False):
    if long:
        n = draw(st.sampled_from([168, 169, 335, 336, 340, 504, 700]))
        period = draw(st.sampled_from([None, 168, 24, 1000]))
    else:
        n = draw(st.integers(2, 26))
        period = draw(st.sampled_from([2, 3, 4, 5, 7, 8, 12, 24, 30, 168, None]))
    clusters = []
    for i in range(draw(st.integers(1, 3))):
        cols = draw(st.integers(1, 3))
        nominal = draw(st.sampled_from([0.5, 1.0, 2.0, 2.5, 4.0, 100.0, 3.0]))
        units = draw(st.integers(1, 6))
        top = max(4, int(nominal * units / 0.25) + 3)
        if long:
            seed = [draw(st.integers(0, 9)) for _ in range(6)]
            modulation = antares.scaled(n, 4, seed[:3], 0.125, 8)
            series = antares.scaled(n, cols, seed[3:], 0.25, top)
        else:
            modulation = draw(matrix(n, 4, 0.125, 8))
            series = draw(matrix(n, cols, 0.25, top))
        if draw(st.integers(0, 2)) == 0:
            # just above or below a whole number of units
            k = draw(st.integers(0, 2))
            e = [0.0, 2.0**-10, -(2.0**-10)]
            series = [
                [max(0.0, round(v / nominal) * nominal + e[(5 * t + s + t // 3 + k) % 3]) for s, v in enumerate(row)]
                for t, row in enumerate(series)
            ]
        clusters.append(
            {
                "name": f"plant {i}" if draw(st.booleans()) else f"plant{i}",
                "props": {
                    "unit_count": units,
                    "nominal_capacity": nominal,
                    "min_stable_power": draw(st.sampled_from([0.0, 0.5, 1.0])),
                },
                "modulation": modulation,
                "series": series,
            }
        )
    where = [draw(st.integers(0, 1)) for _ in clusters]
    return {
        "study": {
            "areas": [
                {"id": f"area{k}", "thermals": [c for c, w in zip(clusters, where) if w == k]}
                for k in range(2)
            ]
        },
        "period": period,
        "folder": draw(st.sampled_from(antares.FOLDERS)),
    }


def expected(cluster, period):
    units = cluster["props"]["unit_count"]
    nominal = cluster["props"]["nominal_capacity"]
    series = cluster["series"]
    n, cols = len(series), len(series[0])
    p_min = [
        [min(cluster["modulation"][t][3] * units * nominal, series[t][s]) for s in range(cols)]
        for t in range(n)
    ]
    nb_max = [[math.ceil(series[t][s] / nominal) for s in range(cols)] for t in range(n)]
    nb_min = [[math.ceil(p_min[t][s] / nominal) for s in range(cols)] for t in range(n)]

    def before(t):
        start = t - t % period
        previous = t - 1 if t > start else start + period - 1
        return min(previous, n - 1)

    forward = [
        [max(0, nb_max[before(t)][s] - nb_max[t][s]) for s in range(cols)] for t in range(n)
    ]
    backward = [
        [max(0, nb_max[t][s] - nb_max[before(t)][s]) for s in range(cols)] for t in range(n)
    ]
    return {
        "p_min_cluster": p_min,
        "nb_units_min": nb_min,
        "nb_units_max": nb_max,
        "nb_units_max_variation_forward": forward,
        "nb_units_max_variation_backward": backward,
        "p_max_cluster": series,
    }


def compare(parameters, cluster, period, note):
    for name, wanted in expected(cluster, period).items():
        p = parameters[name]
        if not (p.time_dependent and p.scenario_dependent):
            raise Violation(f"{name} is not time and scenario dependent")
        got = antares.read_matrix(p.value)
        if [len(r) for r in got] != [len(r) for r in wanted]:
            raise Violation(
                f"{name}: {len(got)} rows of {sorted({len(r) for r in got})} columns, "
                f"expected {len(wanted)} of {len(wanted[0])}"
            )
        for t, row in enumerate(wanted):
            for s, x in enumerate(row):
                if abs(got[t][s] - x) > 1e-6:
                    raise Violation(
                        f"{name} of {cluster['name']} at hour {t}, scenario {s}: "
                        f"{got[t][s]}, expected {x} (period {period})"
                    )
        if name == "nb_units_max_variation_forward" and any(any(r) for r in wanted):
            note("+varying number of units")


def run(case, note):
    with directory(case.get("folder", "")) as path:
        study = antares.create(case["study"], path)
        kw = {} if case["period"] is None else {"period": case["period"]}
        system = antares.convert(study, **kw)
        period = case["period"] or 168
        found = {}
        for c in system.components:
            if c.model.endswith(".thermal"):
                found[c.id] = {p.id: p for p in c.parameters}
        clusters = {c["name"]: c for a in case["study"]["areas"] for c in a["thermals"]}
        if sorted(found) != sorted(clusters):
            raise Violation(f"thermal components {sorted(found)}, expected {sorted(clusters)}")
        for name, cluster in clusters.items():
            compare(found[name], cluster, period, note)
        n = len(next(iter(clusters.values()))["series"])
        if n > period:
            note("several periods")
        if n % period:
            note("incomplete last period")


TESTS = [
    Test("clusters", cases, run, 320, 8000),
    Test("weeks", lambda: cases(long=True), run, 80, 1600),
]
