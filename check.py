#!/opt/gfft/venv/bin/python
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current working tree."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/lib", HERE + "/checks"]
sys.dont_write_bytecode = True
import vt
if __name__ == "__main__":
    pid = sys.argv[1]
    if pid == "--setup":
        vt.setup()
        sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else vt.TIER
    sys.exit(vt.main(pid, tier, importlib.import_module(pid.lower()).run))
