#!/opt/venv/bin/python
"""check.py <property id> [--replay FILE] [--thorough]   (environment: VERIF_SEED, VERIF_TIER)"""
import os
import sys

ENV = {"MPLBACKEND": "Agg", "MPLCONFIGDIR": os.environ.get("MPLCONFIGDIR", "/tmp/dst-mpl"), "OPENBLAS_NUM_THREADS": "1",
       "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"}
need = {k: v for k, v in ENV.items() if os.environ.get(k) != v}
if "PYTHONHASHSEED" not in os.environ:
    need["PYTHONHASHSEED"] = "0"
if need:
    os.environ.update(need)
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    import importlib
    pid = sys.argv[1]
    from dst import seams
    seams.install()
    from dst import runner
    check = importlib.import_module(f"dst.checks.{pid.lower()}")
    return runner.main(check, sys.argv[2:])


if __name__ == "__main__":
    sys.exit(main())
