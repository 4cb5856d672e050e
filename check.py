#!/opt/venv/bin/python
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONHASHSEED", "0")
if __name__ == "__main__":
    if sys.argv[1:] == ["--selftest"]:
        from sx import core
        z3 = core.z3
        s = z3.Solver()
        x = z3.Real("x")
        s.add(x * x == 2, x > 0)
        assert s.check() == z3.sat
        s.add(x > 2)
        assert s.check() == z3.unsat
        print("z3", z3.get_version_string(), "ok")
        sys.exit(0)
from sx import driver
sys.modules.setdefault("sxh", driver)
if __name__ == "__main__":
    rc = driver.main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
