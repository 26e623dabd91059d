#!/opt/venv/bin/python
"""Entry point of every check: run.py <property id> [quick|thorough] | run.py --replay FILE"""
import glob
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("PYTHONHASHSEED", "0")
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
os.chdir(HERE)


def main(argv):
    from vsym import runner

    for f in sorted(glob.glob(os.path.join(HERE, "checks", "*.py"))):
        importlib.import_module("checks." + os.path.basename(f)[:-3])
    if argv[0] == "--replay":
        return runner.replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return runner.main(prop, tier, seed, argv[2] if len(argv) > 2 else None)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
