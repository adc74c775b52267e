#!/usr/bin/env python3-vt
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from vc.check import Check
def main():
    pid = sys.argv[1]
    c = Check(pid, sys.argv[2] if len(sys.argv) > 2 else None)
    try:
        importlib.import_module("props." + pid.lower()).run(c)
    except BaseException as e:
        traceback.print_exc()
        c.trouble.append("check error: %s: %s" % (type(e).__name__, str(e)[:300]))
    sys.exit(c.finish())
main()
