"""Interpreter set-up: code under test first, Hypothesis appended last.

The code under test lives in /repo/src and its dependencies in the interpreter
that runs us (/opt/venv).  Hypothesis, jsonschema, ... are taken from the
read-only tooling venv, *appended* to sys.path so that they can never shadow a
dependency of vss-tools.
"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup():
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != src]
    sys.path.insert(0, src)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    os.environ["COLUMNS"] = "80"
    os.environ.pop("LINES", None)
    for k in list(os.environ):
        if k.upper().startswith("VSS_TOOLS"):
            del os.environ[k]
    # numeric libs are not needed; keep thread counts low
    os.environ.setdefault("OMP_NUM_THREADS", "1")
