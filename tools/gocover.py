#!/usr/bin/env python3
"""Which statements of the library the generated histories execute.
usage: tools/gocover.py [PROP...]   prints the blocks of /repo never executed"""
import os
import random
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine  # noqa: E402
import plans   # noqa: E402

props = sys.argv[1:] or ["C%02d" % i for i in range(1, 28)]
ctx = engine.Ctx("C01", "quick", 1)
cov = os.path.join(ctx.work, "cov")
os.makedirs(cov)
os.environ["GOCOVERDIR"] = cov
src = os.path.join(ctx.work, "csrc")
shutil.copytree(os.path.join(engine.VERIF, "driver"), src)
with open(os.path.join(src, "go.sum"), "a") as f:
    f.write(open("/repo/go.sum").read())
subprocess.run(["go", "build", "-cover", "-coverpkg=./...,github.com/cloudprivacylabs/lpg/v2", "-o", ctx.driver, "."], cwd=src, env=engine.goenv(), check=True)
for p in props:
    ss = plans.scripts(p, "quick", random.Random("%s/1" % p))
    for i, s in enumerate(ss):
        s["id"] = i + 1
    for part in engine.chunks(ss, 4):
        engine.drive(ctx, part, timeout="60s")
txt = os.path.join(ctx.work, "cov.txt")
subprocess.run(["go", "tool", "covdata", "textfmt", "-i=" + cov, "-o=" + txt], env=engine.goenv(), check=True)
seen = {}
for line in open(txt):
    if line.startswith("mode"):
        continue
    loc, n, k = line.rsplit(" ", 2)
    f = loc.split("/")[-1]
    if "cloudprivacylabs" not in loc:
        continue
    seen[f] = (int(n), seen.get(f, (0, 0))[1] + int(k))
tot = sum(n for n, k in seen.values())
print("statements %d, executed %d" % (tot, sum(n for n, k in seen.values() if k)))
for f in sorted(f for f, (n, k) in seen.items() if not k):
    name, span = f.split(":")
    a, b = [int(float(x)) for x in span.split(",")]
    lines = open("/repo/" + name).read().split("\n")[a - 1:b]
    print("%s: %s" % (f, " | ".join(x.strip() for x in lines)[:140]))
ctx.close()
