#!/opt/venv/bin/python
"""Entry point of every check: see sim/runner.py."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = {"PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "0"),
       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "TZ": "UTC",
       "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1"}

if __name__ == "__main__":
    if any(os.environ.get(k) != v for k, v in ENV.items()) or \
            os.path.realpath(sys.executable) != os.path.realpath(PY) or \
            sys.prefix == sys.base_prefix:
        os.environ.update(ENV)
        os.environ.pop("PYTHONPATH", None)
        os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, HERE)
    from sim import runner
    sys.exit(runner.main(sys.argv[1:]))
