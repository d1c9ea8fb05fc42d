#!/opt/venv/bin/python -B
"""Entry point of every check: check.py CNN [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))


def main() -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument("property", nargs="?")
    parser.add_argument("--setup", action="store_true")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    parser.add_argument("--replay")
    parser.add_argument("--worker")
    parser.add_argument("--out")
    args = parser.parse_args()

    env = {
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "MPLBACKEND": "Agg",
        "TZ": "UTC",
    }
    python = "/opt/venv/bin/python"
    if any(os.environ.get(k) != v for k, v in env.items()) or (
        sys.prefix != "/opt/venv" and os.path.exists(python)
    ):
        os.environ.update(env)
        os.execv(python, [python, "-B"] + sys.argv)

    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.join(repo, "src"))
    sys.path.append(os.path.join(VERIF, "vendor"))
    import warnings

    warnings.simplefilter("ignore")

    from pbt import runner

    import andromede

    if not os.path.abspath(andromede.__file__).startswith(repo):
        print(f"wrong code under test: {andromede.__file__}", file=sys.stderr)
        return runner.HARNESS_ERROR

    if args.setup:
        import hypothesis

        print(f"andromede from {andromede.__file__}, hypothesis {hypothesis.__version__}")
        return 0

    module = importlib.import_module(f"pbt.checks.{args.property.lower()}")
    seed = int(args.seed)
    if args.replay:
        return runner.replay(module, args.replay)
    if args.worker:
        shard, shards = (int(x) for x in args.worker.split("/"))
        return runner.worker(module, shard, shards, args.tier, seed, args.out)
    return runner.drive(module, args.tier, seed)


if __name__ == "__main__":
    sys.exit(main())
