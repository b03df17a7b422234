#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--sub NAME ...]"""
import argparse
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or sys.executable != "/opt/venv/bin/python":
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    a = ap.parse_args()
    from pbt import runner
    if a.replay:
        v = runner.replay(a.property, a.replay)
        if v is None:
            print("does not reproduce")
            return 0
        print(v)
        print(f"VIOLATION property={a.property} replay={a.replay}")
        return 1
    return runner.main(a.property, a.tier, a.seed, a.budget, a.sub)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
