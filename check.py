#!/opt/venv/bin/python
"""check.py <property> [quick|thorough]   decide one property
check.py --replay FILE                    re-run the one case of a violation"""
import os, sys

sys.dont_write_bytecode = True
os.environ["MPLBACKEND"] = "Agg"
os.environ["OMP_NUM_THREADS"] = os.environ["OPENBLAS_NUM_THREADS"] = "1"
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc import core  # noqa: E402

if sys.argv[1] == "--replay":
    import importlib, json

    r = json.load(open(sys.argv[2]))
    mod = importlib.import_module(f"mc.props.{r['property'].lower()}")
    from mc import env

    env.load()
    msg = core.run_case(mod, r["family"], r["case"], core.Coverage())
    print(msg or "the case holds")
    sys.exit(1 if msg else 0)
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
sys.exit(core.main(sys.argv[1], tier))
