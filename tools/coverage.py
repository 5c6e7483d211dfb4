#!/usr/bin/env python3
"""Lists the actions of the models that TLC never takes (vacuity check of the models).
usage: tools/coverage.py [NAME...]   (configuration names; default: all quick ones)"""
import concurrent.futures as cf
import os
import re
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine  # noqa: E402
import plans   # noqa: E402

ms = {}
for i in range(1, 28):
    for tier in ("quick",):
        for m in plans.models("C%02d" % i, tier):
            ms[m["cfg"][:-4]] = m["module"]


def run(name):
    meta = tempfile.mkdtemp()
    p = subprocess.run(engine.java("4g", 1) + ["-metadir", meta, "-workers", "1", "-noGenerateSpecTE", "-coverage", "1", "-config", name + ".cfg", ms[name]],
                       cwd=engine.SPEC, stdout=subprocess.PIPE, text=True)
    subprocess.run(["rm", "-rf", meta])
    last = {}
    for m in re.finditer(r"^<(\w+) line (\d+).*? of module (\w+)(?: \([\d ]+\))?>: (\d+):(\d+)", p.stdout, re.M):
        last[(m.group(3), m.group(1), m.group(2))] = (int(m.group(4)), int(m.group(5)))
    zero = [k for k, v in last.items() if v[1] == 0]
    return name, p.returncode, len(last), zero


with cf.ThreadPoolExecutor(3) as ex:
    for name, rc, n, zero in ex.map(run, sys.argv[1:] or sorted(ms)):
        print(name, "rc=%d" % rc, "%d actions" % n, "never taken: " + ", ".join("%s:%s" % (z[1], z[2]) for z in zero) if zero else "all taken", flush=True)
