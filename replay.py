#!/usr/bin/env python3
"""replay.py FILE: rebuild the harness of a reported violation natively from /repo and run the recorded input."""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
def main():
    v = {}
    for line in open(sys.argv[1]):
        k, _, r = line.rstrip("\n").partition(" "); v.setdefault(k, r)
    src = os.path.join(check.HERE, "harness", v["property"] + ".cpp")
    d = tempfile.mkdtemp(prefix="vrep_")
    try:
        n = check.Native(d, src, check.parse(src)["flags"])
        for b in ("asan", "plain"):
            e = n.build(b)
            if e: print(e); return 2
        rep, desc = n.one(v["job"], v["arg"], v["input"], True)
        print("REPRODUCED" if rep else "NOT REPRODUCED", desc); return 1 if rep else 0
    finally: shutil.rmtree(d, ignore_errors=True)
sys.exit(main())
