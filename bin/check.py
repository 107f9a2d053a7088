import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if p not in sys.path:
        sys.path.append(p)          # appended: numpy stays the one of /opt/venv
from symx import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
