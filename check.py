#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("VV_STARTED") != "1":
    os.environ.update(PYTHONHASHSEED="0", VV_STARTED="1", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", LC_ALL="C.UTF-8")
    for k in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"):
        os.environ.pop(k, None)
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    os.execv(py, [py] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vv.env import setup  # noqa: E402

setup()
from vv.engine import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
