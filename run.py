#!/opt/venv/bin/python
""" usage: run.py <property> [--replay FILE | --kind KIND --index N] """
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core

if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        # nothing to build: make sure that the code under test and the native libraries load
        core.setup_environment()
        import fasttext, numpy, sklearn, xgboost  # noqa
        import pure_fasttext, pure_sklearn  # noqa

        print("ok")
        sys.exit(0)
    sys.exit(core.main(sys.argv[1:]))
