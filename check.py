"""usage: check.py PID [--tier quick|thorough] [--replay FILE] [--facet NAME]"""
import argparse
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--facet", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    pid = a.pid
    if a.replay:
        with open(a.replay) as f:
            pid = json.load(f)["property"]
    if pid == "P36":
        os.environ["VT_PLOTLY"] = "1"
    try:
        from vt import core
        if a.replay:
            return core.replay(a.replay)
        return core.run_property(a.pid, a.tier, a.seed, workers=a.workers,
                                 scale=a.scale, only=a.facet)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
