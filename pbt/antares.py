"""Antares studies for the converter: description (JSON) -> study on disk."""
import contextlib
import io
import logging
import os
import pathlib
from typing import Any, Dict, List

import numpy as np


def quiet() -> logging.Logger:
    logger = logging.getLogger("verif")
    logger.addHandler(logging.NullHandler())
    logger.propagate = False
    return logger


def frame(values: Any) -> Any:
    import pandas as pd

    return pd.DataFrame(values)


HOURS = 8760
# where studies lie
FOLDERS = ["", "", "series.txt", "two words", "study.txt.d/x", "input/thermal", "été", "50%"]


def year(rows: List[Any]) -> List[Any]:
    """A pattern repeated until the end of the year (what links require)."""
    return [rows[t % len(rows)] for t in range(HOURS)]


def create(case: Dict[str, Any], path: pathlib.Path) -> Any:
    """
    case = {"areas": [{"id", "ens", "spill", "load": matrix|None, "wind", "solar",
                "thermals": [{"name", "props": {}, "modulation", "series"}],
                "renewables": [{"name", "props": {}}],
                "storages": [{"name", "props": {}}]}],
            "links": [[from, to, {"direct": m, "indirect": m, "parameters": m}]],
            "constraints": [{"name", "terms": [[kind, a, b, weight]]}]}
    """
    from antares.craft.model.area import AreaProperties
    from antares.craft.model.binding_constraint import (
        ClusterData,
        ConstraintTerm,
        LinkData,
    )
    from antares.craft.model.renewable import RenewableClusterProperties
    from antares.craft.model.st_storage import STStorageProperties
    from antares.craft.model.study import create_study_local
    from antares.craft.model.thermal import ThermalClusterProperties

    with contextlib.redirect_stdout(io.StringIO()):
        study = create_study_local("study", "880", path)
    for a in case["areas"]:
        area = study.create_area(
            a["id"],
            properties=AreaProperties(
                energy_cost_unsupplied=a.get("ens", 1.0),
                energy_cost_spilled=a.get("spill", 0.0),
            ),
        )
        for kind in ("load", "wind", "solar"):
            if a.get(kind) is not None:
                getattr(area, f"set_{kind}")(frame(a[kind]))
        for t in a.get("thermals", []):
            area.create_thermal_cluster(
                t["name"],
                ThermalClusterProperties(**t["props"]),
                modulation=frame(t["modulation"]) if t.get("modulation") else None,
                series=frame(t["series"]) if t.get("series") else None,
            )
        for r in a.get("renewables", []):
            area.create_renewable_cluster(
                r["name"],
                RenewableClusterProperties(**r["props"]),
                series=frame(r["series"]) if r.get("series") else None,
            )
        for s in a.get("storages", []):
            area.create_st_storage(s["name"], properties=STStorageProperties(**s["props"]))
    for src, dst, data in case.get("links", []):
        link = study.create_link(area_from=src, area_to=dst)
        if data.get("direct"):
            link.set_capacity_direct(frame(year(data["direct"])))
        if data.get("indirect"):
            link.set_capacity_indirect(frame(year(data["indirect"])))
        if data.get("parameters"):
            link.set_parameters(frame(year(data["parameters"])))
    for k in case.get("constraints", []):
        terms = []
        for kind, x, y, weight in k["terms"]:
            data = LinkData(x, y) if kind == "link" else ClusterData(x, y)
            terms.append(ConstraintTerm(data=data, weight=weight))
        study.create_binding_constraint(name=k["name"], terms=terms)
    return study


def convert(study: Any, **kw: Any) -> Any:
    from andromede.input_converter.src.converter import AntaresStudyConverter

    with contextlib.redirect_stdout(io.StringIO()):
        return AntaresStudyConverter(study, quiet(), **kw).convert_study_to_input_study()


def read_matrix(path: str) -> List[List[float]]:
    """The numbers of a series file named without its extension."""
    with open(path + ".txt") as f:
        return [[float(x) for x in line.split()] for line in f if line.strip()]


def scaled(n: int, cols: int, seed: List[int], unit: float, top: int) -> List[List[float]]:
    """Deterministic matrix of multiples of a unit, in 0..top units"""
    a, b, c = seed
    return [
        [unit * ((a * t * t + b * t + c * (s + 1) * (t % 5 + 1)) % (top + 1)) for s in range(cols)]
        for t in range(n)
    ]
