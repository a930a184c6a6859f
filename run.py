"""Entry point: run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

from sim import boot, core  # noqa: E402

if __name__ == "__main__":
    boot.boot()
    check = importlib.import_module("checks." + sys.argv[1].lower())
    sys.exit(core.main(check, sys.argv[2:]))
