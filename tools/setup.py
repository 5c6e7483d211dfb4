#!/usr/bin/env python3
"""warm the Go build cache and check that the tools are there; everything the
checks need is built again by each of them"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import engine
ctx = engine.Ctx("setup", "quick", 1)
try:
    engine.build_driver(ctx)
    traces, crashes = engine.drive(ctx, [{"id": 1, "ev": [{"ops": [{"op": "ng", "g": 1}], "obs": [{"q": "snap", "g": 1}]}]}])
    ctx.prop = "C01"
    m, n, e = engine.validate(ctx, traces)
    assert not crashes and not m and not e and n == 1, (crashes, m, n, e)
    print("setup ok")
finally:
    ctx.close()
