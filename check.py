#!/opt/venv/bin/python
"""
check.py PROPERTY [--tier quick|thorough] [--only H1,H2] [-v]    decide one property
check.py --replay FILE                                            rerun a counterexample
check.py --selftest                                               check the machinery itself
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if sys.executable != PY and os.path.exists(PY) and not os.environ.get("SYMX_REEXEC"):
    os.environ["SYMX_REEXEC"] = "1"
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ["PYTHONHASHSEED"] = os.environ.get("PYTHONHASHSEED", "0")
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")

import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import warnings  # noqa: E402

warnings.filterwarnings("ignore")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    import symx  # noqa: F401
    from symx import run

    if a.selftest:
        from symx import selftest

        return selftest.main()

    if a.replay:
        info = json.load(open(a.replay))
        mod = importlib.import_module("props." + info["property"])
        h = [h for h in mod.HARNESSES if h.name == info["harness"]][0]
        out = run._concrete(h, info["tier"], info["values"], info["choices"], 1.0)
        for f in out["failures"]:
            print("FAILS: " + f)
        print(out["skipped"] or "")
        return 1 if out["failures"] else 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("props." + a.prop)
    only = a.only.split(",") if a.only else None
    return run.run_property(a.prop, mod.HARNESSES, a.tier, seed, a.v, only,
                            {"assumptions": getattr(mod, "ASSUMPTIONS", [])})


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
