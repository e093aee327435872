#!/usr/bin/env python3
"""Entry point of every check:  python3 check.py C01 [--tier quick|thorough] [--replay FILE]"""
import os
import sys

VENV = "/opt/venv/bin/python"
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
HERE = os.path.dirname(os.path.abspath(__file__))
FIXED = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
}


def bootstrap():
    want = os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv")
    if want or any(os.environ.get(k) != v for k, v in FIXED.items()):
        os.environ.update(FIXED)
        exe = VENV if os.path.exists(VENV) else sys.executable
        os.execv(exe, [exe] + [os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, HERE)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append(TOOLS)
        import hypothesis  # noqa: F401


def main():
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--out")
    ap.add_argument("--stop")
    ap.add_argument("--cap", type=float)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    # the code under test and its solvers write on fd 1: keep it for our own lines only
    real = os.fdopen(os.dup(1), "w", buffering=1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    sys.stdout = open(os.devnull, "w")
    if a.selftest:
        from vlib import selftest

        return selftest.main(real)
    from vlib import runner

    if a.worker is None and a.replay is None:
        # the parent does not import the code under test
        from vlib.registry import load_light

        return runner.run(load_light(a.property), a.tier, a.seed, real)
    from vlib.registry import load

    prop = load(a.property)
    if a.replay:
        res = runner.replay(prop, a.replay)
        if res.violations:
            for m in res.violations[:10]:
                print("  " + m, file=real)
            print("VIOLATION property=%s replay=%s" % (a.property, a.replay), file=real)
            return 1
        print("OK property=%s replay=%s" % (a.property, a.replay), file=real)
        return 0
    # distinct, reproducible stream per worker
    seed = a.seed * 1000003 + a.worker * 7919 + sum(map(ord, a.property))
    return runner.worker(prop, a.worker, seed, a.cases, a.out, a.stop, a.cap)


if __name__ == "__main__":
    bootstrap()
    sys.exit(main())
