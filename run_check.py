#!/opt/venv/bin/python
"""Decides one property:  run_check.py P01 [--tier quick|thorough]   or   run_check.py --replay FILE

Exit 0: held on everything explored.  Exit 1 and "VIOLATION property=<id> replay=<path>": broken."""
import os
import sys

ENV = {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "OPENBLAS_CORETYPE": "Nehalem",
       "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
PY = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in ENV.items()) and os.path.exists(PY):
    os.environ.update(ENV)
    os.execv(PY, [PY, "-W", "ignore"] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))

import plan     # noqa: E402

if __name__ == "__main__":
    sys.exit(plan.main(sys.argv[1:]))
