#!/opt/venv/bin/python
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONWARNINGS": "ignore",
}
if os.environ.get("MC_CHILD") != "1":
    env = dict(os.environ, MC_CHILD="1", **ENV)
    env.pop("PYTHONPATH", None)
    py = "/opt/venv/bin/python"
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)


def main():
    import argparse
    import importlib

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import numpy, scipy.sparse, sklearn.ensemble, sklearn.pipeline  # noqa

    # never trust bytecode caches of the code under test: compile the working
    # tree's source (third-party modules were imported with their caches above)
    sys.pycache_prefix = "/nonexistent/verif-no-pycache"
    import pure_sklearn

    assert pure_sklearn.__file__.startswith(REPO + "/"), pure_sklearn.__file__
    from mc import engine

    mod = importlib.import_module("mc.props." + a.prop.lower())
    sc = mod.scenarios(tier)
    if a.only:
        sc = [s for s in sc if a.only in s[0]]
    if a.replay:
        import json

        v = json.load(open(a.replay))
        return engine.replay(a.prop, mod.scenarios(v.get("tier", tier)), a.replay)
    return engine.run_check(
        a.prop, sc, tier, seed,
        assumptions=getattr(mod, "ASSUMPTIONS", ()),
        bounds=getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {})),
        workers=a.workers or getattr(mod, "WORKERS", None),
    )


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:  # 1 is reserved for violations
        import traceback

        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
