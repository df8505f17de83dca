#!/opt/veriftools/pyvenv/bin/python
import sys, os
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "engine"), os.path.join(here, "specs")]
sys.setrecursionlimit(20000)
import runner
import catalog
if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else None
    if tier:
        os.environ["VERIF_TIER"] = tier
    sys.exit(runner.check(catalog.get(pid), tier))
