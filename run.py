"""python3-vt run.py PROP [quick|thorough]   |   run.py replay FILE"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    # own randomness comes from VERIF_SEED alone
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from acv.runner import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
