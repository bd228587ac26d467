#!/usr/bin/env python3
"""Builds everything once and parses the specifications, to see that the sandbox can run the checks."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
from vlib import *
scr = Scratch()
try:
    build_server(scr)
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".tla"):
            p = subprocess.run(["java", "-Dfile.encoding=UTF-8", "-cp", JARS, "tla2sany.SANY", f], cwd=SPEC, capture_output=True)
            if p.returncode:
                sys.exit("SANY rejects %s:\n%s" % (f, p.stdout.decode()[-1500:]))
finally:
    scr.close()
print("setup ok")
