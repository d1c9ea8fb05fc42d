"""
Property-based testing runner.

A check module (pbt/checks/cNN.py) defines:
    PROPERTY = "CNN"
    RULE     = text: how cases are made, what makes one non-trivial
    TESTS    = [Test(...), ...]
    ASSUMPTIONS = [...]   (optional)

Each Test draws JSON-serialisable cases from a Hypothesis strategy and hands
them to `run(case, note)`, which raises Violation (or lets an exception of the
code under test escape) when the property is broken.

Cases are searched in parallel worker processes (shards), each with a seed
derived from VERIF_SEED only.  A failing case is shrunk by Hypothesis, written
to replays/<property>-<test>.json, and can be replayed without Hypothesis:

    check.py CNN --replay replays/CNN-test.json
"""
import dataclasses
import hashlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from typing import Any, Callable, Dict, List, Optional

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
REPO_SRC = os.path.join(REPO, "src")
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
HARNESS_ERROR = 3
CASE_LIMIT_S = int(os.environ.get("VERIF_CASE_LIMIT_S", "120"))


class Violation(AssertionError):
    """The property does not hold on this case."""


class Discard(Exception):
    """Case outside of the property's domain (counted as trivial)."""


def rejected(action: Callable[[], Any], what: str) -> None:
    """The action must end with an error."""
    try:
        result = action()
    except Violation:
        raise
    except Exception as e:
        here = os.path.dirname(os.path.abspath(__file__))
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if all(f.startswith(here) for f in files) and not isinstance(e, TypeError):
            raise  # the harness is wrong: nothing was called
        return
    raise Violation(f"{what} was accepted (result: {str(result)[:200]})")


QUICK = 3  # how many times the numbers given below


@dataclasses.dataclass
class Test:
    name: str
    strategy: Callable[[], Any]  # -> hypothesis strategy of JSON-able cases
    run: Callable[[Any, Callable[[str], None]], None]
    quick: int  # cases over all shards; QUICK times as many are run
    thorough: int

    def __post_init__(self) -> None:
        self.quick *= QUICK


class Labels:
    def __init__(self) -> None:
        self.nontrivial = False
        self.labels: List[str] = []

    def __call__(self, label: str) -> None:
        if label.startswith("+"):
            self.nontrivial = True
            label = label[1:]
        self.labels.append(label)


def _touches_repo(exc: BaseException) -> bool:
    tb = exc.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO_SRC):
            return True
        tb = tb.tb_next
    return False


def classify(exc: BaseException) -> Optional[str]:
    """Violation message, or None when the harness itself is at fault."""
    if isinstance(exc, Violation):
        return f"{exc}"
    missing = isinstance(exc, (TypeError, AttributeError)) and "NoneType" in str(exc)
    if (
        isinstance(exc, (LookupError, ArithmeticError, ValueError, FileNotFoundError)) or missing
    ) and not _touches_repo(exc):
        # the code under test returned something the oracle cannot make sense of
        return f"uninterpretable result, {type(exc).__name__}: {exc}"
    if _touches_repo(exc):
        tb = traceback.extract_tb(exc.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO_SRC)][-1]
        return (
            f"unexpected {type(exc).__name__}: {exc} "
            f"(at {os.path.relpath(where.filename, REPO)}:{where.lineno})"
        )
    return None


def run_case(test: Test, case: Any) -> Labels:
    """A case that does not end within the limit breaks the property."""
    labels = Labels()

    def too_long(*_: Any) -> None:
        raise Violation(f"no answer within {CASE_LIMIT_S} s")

    signal.signal(signal.SIGALRM, too_long)
    signal.alarm(CASE_LIMIT_S)
    try:
        test.run(case, labels)
    finally:
        signal.alarm(0)
    return labels


def load_known() -> List[Dict[str, Any]]:
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


# ---------------------------------------------------------------- worker


def worker(module: Any, shard: int, shards: int, tier: str, seed: int, out: str) -> int:
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 60
    budget = float(os.environ.get("VERIF_BUDGET_S", "400" if tier == "quick" else "20000"))
    # a Hypothesis run of bounded length keeps its own statistics small
    chunk_size = 400 if tier == "quick" else 1000
    start = time.time()
    result: Dict[str, Any] = {"tests": {}, "failure": None, "error": None}
    for test in module.TESTS:
        total = test.quick if tier == "quick" else test.thorough
        n = (total + shards - 1) // shards
        stats: Dict[str, Any] = {
            "evaluations": 0,
            "nontrivial": [],
            "labels": {},
            "samples": [],
            "skipped_budget": 0,
        }
        result["tests"][test.name] = stats
        seen = set()
        failing: Dict[str, Any] = {}
        harness: Dict[str, Any] = {}

        def body(case: Any) -> None:
            if time.time() - start > budget:
                stats["skipped_budget"] += 1
                return
            if not failing:
                stats["evaluations"] += 1
            try:
                labels = run_case(test, case)
            except Discard:
                return
            except BaseException as e:
                if type(e).__module__.startswith("hypothesis") or isinstance(
                    e, (KeyboardInterrupt, SystemExit)
                ):
                    raise
                message = classify(e)
                if message is None:
                    harness["case"] = case
                    harness["trace"] = traceback.format_exc()
                    raise
                if not failing:
                    failing["first_case"] = case
                failing["case"] = case
                failing["message"] = message
                failing["trace"] = traceback.format_exc()
                raise Violation(message) from None
            if failing:
                return
            for label in set(labels.labels):
                stats["labels"][label] = stats["labels"].get(label, 0) + 1
            if labels.nontrivial:
                digest = hashlib.sha1(
                    json.dumps(case, sort_keys=True).encode()
                ).hexdigest()[:16]
                if digest not in seen:
                    seen.add(digest)
                    stats["nontrivial"].append(digest)
                    if len(stats["samples"]) < 2 and len(json.dumps(case)) < 4000:
                        stats["samples"].append(case)

        done = 0
        chunk = 0
        while done < n and not failing and time.time() - start <= budget:
            size = min(chunk_size, n - done)
            test_seed = int(
                hashlib.sha1(
                    f"{module.PROPERTY}/{test.name}/{seed}/{shard}/{chunk}".encode()
                ).hexdigest()[:12],
                16,
            )

            def prop(case: Any) -> None:
                body(case)

            prop = hypothesis.seed(test_seed)(
                settings(
                    max_examples=size,
                    database=None,
                    deadline=None,
                    report_multiple_bugs=False,
                    print_blob=False,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=[
                        HealthCheck.too_slow,
                        HealthCheck.data_too_large,
                        HealthCheck.large_base_example,
                    ],
                )(hypothesis.given(test.strategy())(prop))
            )
            try:
                prop()
            except BaseException:
                if not failing:
                    result["error"] = harness.get("trace") or traceback.format_exc()
                    result["error_case"] = harness.get("case")
                    break
            done += size
            chunk += 1
        if failing:
            result["failure"] = {
                "test": test.name,
                "shard": shard,
                "size": len(json.dumps(failing["case"])),
                **failing,
            }
            break
        if result["error"]:
            break
    with open(out, "w") as f:
        json.dump(result, f)
    return 0


# ---------------------------------------------------------------- driver


def replay(module: Any, path: str) -> int:
    with open(path) as f:
        data = json.load(f)
    tests = list(module.TESTS) + list(getattr(module, "FINDING_TESTS", []))
    test = {t.name: t for t in tests}[data["test"]]
    try:
        run_case(test, data["case"])
    except Discard:
        pass
    except Exception as e:
        message = classify(e)
        if message is None:
            traceback.print_exc()
            return HARNESS_ERROR
        traceback.print_exc()
        print(message)
        print(f"VIOLATION property={module.PROPERTY} replay={path}")
        return 1
    print(f"replay of {path}: property holds")
    return 0


def report_known(module: Any) -> int:
    """Known findings still reproduce?  Returns how many do."""
    count = 0
    tests = {t.name: t for t in module.TESTS}
    extra = {t.name: t for t in getattr(module, "FINDING_TESTS", [])}
    tests.update(extra)
    for finding in load_known():
        if finding["property"] != module.PROPERTY:
            continue
        try:
            run_case(tests[finding["test"]], finding["case"])
        except Discard:
            continue
        except Exception as e:
            if classify(e) is None:
                raise
            count += 1
            print(
                f"KNOWN-FINDING: property={module.PROPERTY} {finding['what']}",
                flush=True,
            )
    return count


def drive(module: Any, tier: str, seed: int) -> int:
    start = time.time()
    known = report_known(module)
    shards = SHARDS
    tmp = tempfile.mkdtemp(prefix="verif-")
    procs = []
    try:
        for shard in range(shards):
            out = os.path.join(tmp, f"{shard}.json")
            log = open(os.path.join(tmp, f"{shard}.log"), "w")
            procs.append(
                (
                    subprocess.Popen(
                        [
                            sys.executable,
                            "-B",
                            os.path.join(VERIF, "check.py"),
                            module.PROPERTY,
                            "--tier",
                            tier,
                            "--worker",
                            f"{shard}/{shards}",
                            "--seed",
                            str(seed),
                            "--out",
                            out,
                        ],
                        stdout=log,
                        stderr=subprocess.STDOUT,
                    ),
                    out,
                    log,
                )
            )
        results = []
        crashed = []
        pending = list(enumerate(procs))
        failed_at: Optional[float] = None
        while pending:
            time.sleep(0.1)
            still = []
            for shard, (p, out, log) in pending:
                rc = p.poll()
                if rc is None:
                    still.append((shard, (p, out, log)))
                    continue
                log.close()
                if os.path.exists(out):
                    with open(out) as f:
                        results.append(json.load(f))
                    if results[-1]["failure"] and failed_at is None:
                        failed_at = time.time()
                else:
                    with open(log.name) as f:
                        crashed.append((shard, rc, f.read()[-3000:]))
            pending = still
            # one shard found and shrunk a failure: leave the others a moment
            if failed_at is not None and time.time() - failed_at > 20:
                for shard, (p, out, log) in pending:
                    p.kill()
                    p.wait()
                    log.close()
                pending = []
        failures = [r["failure"] for r in results if r["failure"]]
        errors = [r for r in results if r["error"]]
        evaluations = sum(
            s["evaluations"] for r in results for s in r["tests"].values()
        )
        distinct = set()
        labels: Dict[str, int] = {}
        samples: List[Any] = []
        skipped = 0
        per_test: Dict[str, Dict[str, int]] = {}
        for r in results:
            for name, s in r["tests"].items():
                d = per_test.setdefault(name, {"evaluations": 0, "nontrivial": 0})
                d["evaluations"] += s["evaluations"]
                skipped += s["skipped_budget"]
                for h in s["nontrivial"]:
                    if (name, h) not in distinct:
                        distinct.add((name, h))
                        d["nontrivial"] += 1
                for k, v in s["labels"].items():
                    key = f"{name}: {k}"
                    labels[key] = labels.get(key, 0) + v
        for name in per_test:
            for r in results:
                got = r["tests"].get(name, {}).get("samples")
                if got:
                    samples.append({"test": name, "case": got[0]})
                    break
        evidence = {
            "property": module.PROPERTY,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(distinct),
                "rule": module.RULE,
                "samples": samples,
                "per_test": per_test,
                "classification": dict(sorted(labels.items())),
                "skipped_by_time_budget": skipped,
                "shards": shards,
                "known_findings_reproduced": known,
            },
            "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
            "wall_s": round(time.time() - start, 2),
            "violations": 1 if failures else 0,
        }
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(
            os.path.join(OUT, "evidence", f"{module.PROPERTY}.json"), "w"
        ) as f:
            json.dump(evidence, f, indent=1)
        if failures:
            best = min(failures, key=lambda f: (f["size"], f["shard"]))
            os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
            path = os.path.join(
                OUT, "replays", f"{module.PROPERTY}-{best['test']}.json"
            )
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": module.PROPERTY,
                        "test": best["test"],
                        "message": best["message"],
                        "case": best["case"],
                        "first_case": best["first_case"],
                        "seed": seed,
                    },
                    f,
                    indent=1,
                )
            print(best["trace"])
            print(f"{module.PROPERTY}/{best['test']}: {best['message']}")
            print(f"minimal case: {json.dumps(best['case'])[:3000]}")
            print(f"VIOLATION property={module.PROPERTY} replay={path}", flush=True)
            return 1
        if errors or crashed:
            for r in errors[:1]:
                print(r["error"], file=sys.stderr)
                print(json.dumps(r.get("error_case"))[:3000], file=sys.stderr)
            for shard, rc, text in crashed:
                print(f"shard {shard} exited with {rc}:\n{text}", file=sys.stderr)
            return HARNESS_ERROR
        print(
            f"{module.PROPERTY}: held on {evaluations} cases "
            f"({len(distinct)} distinct non-trivial) in {time.time()-start:.1f} s"
        )
        return 0
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        for name in os.listdir(tmp):
            os.unlink(os.path.join(tmp, name))
        os.rmdir(tmp)
