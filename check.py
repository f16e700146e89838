#!/usr/bin/env python3
"""check.py PID [--replay FILE]: decide one property on /repo's current tree. Exit 0 held, 1 violated, 2 machinery error."""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen"))
import vf


def replay(path):
    r = json.load(open(path))
    drv = vf.build(r["ops"])
    work = os.path.join(vf.VERIF, ".work", "replay-%d" % os.getpid())
    os.makedirs(work)
    res = vf.drive(drv, [r["case"]], work)
    print("recorded now: " + json.dumps(res[0]))
    print("recorded then: " + json.dumps(r["recorded"]))
    print("specification: " + r["specification"])
    return 0


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(sys.argv[3])
    mod = importlib.import_module("p" + pid[1:])
    return mod.run()


if __name__ == "__main__":
    try:
        rc = main()
    except vf.ModelError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
