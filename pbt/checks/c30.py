"""The command line of the converter of Antares studies."""
import contextlib
import io
import logging
import os
import runpy
import sys
import warnings

from hypothesis import strategies as st

from .. import antares
from ..runner import Test, Violation
from ..scratch import directory
from . import c22

PROPERTY = "C30"
RULE = (
    "random Antares studies written to disk and converted by the command line of the "
    "converter, the directories of the study and of the output being given as options, "
    "in the configuration file, in both (options win) or, for the output, not at all; "
    "relative or absolute, next to other studies and older results. The file is written "
    "in the expected place only, and its content is the one the independent description "
    "of the conversion gives. Faulty command lines end with an error and write nothing. "
    "Non-trivial: an output directory is given, or a faulty command line"
)
ASSUMPTIONS = c22.ASSUMPTIONS

FAULTS = [
    "no configuration", "no study", "study is a file", "not a study", "no output",
    "output is a file", "unknown option", "study in configuration",
]


@st.composite
def cases(draw):
    def pick(xs):
        return draw(st.sampled_from(xs))

    return {
        "study": draw(c22.cases(batteries=draw(st.booleans()))),
        "input": pick(["option", "option", "config", "both"]),
        "output": pick([None, "option", "option", "config", "both"]),
        "relative": draw(st.booleans()),
        "long": draw(st.booleans()),
        "order": draw(st.booleans()),
        "older": draw(st.booleans()),
        "section": draw(st.booleans()),
        "name": pick(["out", "my results", "é.d", "50% %(x)s"]),
        "log": pick(["a.log", "journal", "b.txt"]),
    }


@st.composite
def mistakes(draw):
    return {**draw(cases()), "fault": draw(st.sampled_from(FAULTS))}


def command(args):
    """Exception that ended the command line, if any"""
    root = logging.getLogger()
    handlers, level, old = list(root.handlers), root.level, sys.argv
    sys.argv = ["main", *args]
    failure = None
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(
            io.StringIO()
        ), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_module(
                "andromede.input_converter.src.main", run_name="__main__", alter_sys=False
            )
    except SystemExit as e:
        failure = e if e.code not in (0, None) else None
    except Exception as e:
        failure = e
    finally:
        sys.argv = old
        for h in list(root.handlers):
            if h not in handlers:
                root.removeHandler(h)
                h.close()
        root.setLevel(level)
    return failure


def prepare(case, path):
    """Directories and arguments of the command line"""
    fault = case.get("fault")
    antares.create(case["study"], path)
    root, out, decoy = path / "study", path / case["name"], path / "elsewhere"
    out.mkdir()
    decoy.mkdir()
    if case["older"]:
        for d in (root, out):
            (d / "output.yaml").write_text("older: result\n" * 2000)

    def shown(p):
        return os.path.relpath(p) if case["relative"] else str(p)

    given, target = root, out
    if fault == "no study":
        given = path / "nowhere"
    elif fault == "study is a file":
        given = root / "study.antares"
    elif fault == "not a study":
        given = decoy
    elif fault == "no output":
        target = path / "nowhere"
    elif fault == "output is a file":
        target = path / "file"
        target.write_text("")
    by_input = "option" if fault in ("no study", "study is a file", "not a study") else case["input"]
    by_output = "option" if fault in ("no output", "output is a file") else case["output"]
    if fault == "study in configuration":
        by_input, given = "config", path / "nowhere"
    lines = []
    if by_input != "option":
        lines.append(f"study_path = {shown(given if by_input == 'config' else decoy)}")
    elif case["section"]:
        lines.append("study_path =")
    if by_output in ("config", "both"):
        lines.append(f"output_path = {shown(target if by_output == 'config' else decoy)}")
    elif case["section"]:
        lines.append("output_path =")
    if lines or case["section"]:
        lines.insert(0, "[study]")
    config = path / "my config.ini"
    config.write_text("\n".join(lines) + "\n")
    if fault == "no configuration":
        config = path / "other.ini"
    names = (
        ["--conf", "--logging", "--study_path", "--output_path"]
        if case["long"]
        else ["-c", "-l", "-i", "-o"]
    )
    pairs = [[names[0], shown(config)], [names[1], shown(path / case["log"])]]
    if by_input in ("option", "both"):
        pairs.append([names[2], shown(given)])
    if by_output in ("option", "both"):
        pairs.append([names[3], shown(target)])
    if fault == "unknown option":
        pairs.append(["--unknown", "1"])
    if case["order"]:
        pairs.reverse()
    wanted = (root if by_output is None else target) / "output.yaml"
    return root, wanted, [x for p in pairs for x in p]


def contents(path):
    return {p: p.read_text() for p in path.rglob("*.yaml") if p.is_file()}


def run(case, note):
    from andromede.study.parsing import parse_yaml_components

    with directory(case["study"].get("folder", "")) as path:
        path = path.resolve()
        root, wanted, args = prepare(case, path)
        before = contents(path)
        failure = command(args)
        if failure is not None:
            raise Violation(f"{args} refused: {failure!r}")
        after = contents(path)
        changed = {p for p in after if after[p] != before.get(p)} | (set(before) - set(after))
        if changed != {wanted}:
            raise Violation(
                f"{args}: written {sorted(map(str, changed))}, expected {wanted}"
            )
        with wanted.open() as f:
            system = parse_yaml_components(f)
        c22.check_system(system, case["study"], root)
    if case["output"]:
        note("+output directory given")
    note(f"study given by {case['input']}")


def run_mistakes(case, note):
    with directory() as path:
        path = path.resolve()
        _, _, args = prepare(case, path)
        before = contents(path)
        failure = command(args)
        if failure is None:
            raise Violation(f"{args} accepted ({case['fault']})")
        if contents(path) != before:
            raise Violation(f"{args} refused, but a file is written ({case['fault']})")
    note("+" + case["fault"])


TESTS = [
    Test("conversions", cases, run, 250, 5000),
    Test("mistakes", mistakes, run_mistakes, 120, 2000),
]
