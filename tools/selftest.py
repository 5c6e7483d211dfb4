#!/usr/bin/env python3
"""Is the specification sensitive to what is recorded? Takes traces recorded from the real
code, falsifies one recorded answer or outcome of each, and counts how many TLC rejects.
usage: tools/selftest.py [-n TRACES] [Cxx...]"""
import argparse
import collections
import copy
import json
import os
import random
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
import engine  # noqa: E402
import plans   # noqa: E402


def falsify(x, r):
    """another value of the same shape"""
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + r.choice([-1, 1])
    if isinstance(x, str):
        return {"ok": "panic", "panic": "ok"}.get(x, x + "x")
    if isinstance(x, list):
        if not x:
            return None
        c = r.random()
        i = r.randrange(len(x))
        if c < 0.35:
            return x[:i] + x[i + 1:]
        if c < 0.5:
            return x + [x[i]]
        y = falsify(x[i], r)
        return None if y is None else x[:i] + [y] + x[i + 1:]
    if isinstance(x, dict):
        if not x:
            return None
        k = r.choice(sorted(x))
        if r.random() < 0.3:
            return {a: b for a, b in x.items() if a != k}
        y = falsify(x[k], r)
        return None if y is None else dict(x, **{k: y})
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=600)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("props", nargs="*")
    a = ap.parse_args()
    for prop in a.props or ["C%02d" % i for i in range(1, 28)]:
        ctx = engine.Ctx(prop, "quick", 1)
        try:
            ctx.maxerrors = 1000
            engine.build_driver(ctx)
            r = random.Random(prop)
            scripts = plans.scripts(prop, "quick", r)
            r.shuffle(scripts)
            scripts = scripts[:a.n]
            traces, _ = engine.drive(ctx, scripts)
            bad, what = [], []
            for s, t in zip(scripts, traces):
                t = json.loads(t)
                if len(t["ev"]) != len(s["ev"]):
                    continue
                e = r.randrange(len(t["ev"]))
                cand = []
                for kind in ("ops", "obs"):
                    for j, (x, y) in enumerate(zip(s["ev"][e][kind], t["ev"][e][kind])):
                        for f in y:
                            if f not in x or x[f] != y[f]:
                                cand.append((kind, j, f))
                # every query of the event equally likely
                r.shuffle(cand)
                for kind, j, f in cand:
                    o = t["ev"][e][kind][j]
                    y = falsify(o[f], r)
                    if y is None:
                        continue
                    t2 = copy.deepcopy(t)
                    t2["ev"] = t2["ev"][:e + 1]
                    t2["ev"][e][kind][j][f] = y
                    bad.append(json.dumps(t2) + "\n")
                    what.append((o.get("op") or o.get("q"), f, o[f], y))
                    break
            rejected = set()
            with engine.cf.ThreadPoolExecutor(8) as ex:
                def one(k):
                    try:
                        m, _, errs = engine.validate(ctx, [bad[k]] if len(bad) < 8 else [bad[i] for i in range(k, len(bad), 8)])
                    except engine.Infra as err:
                        return k, None, str(err)
                    return k, {x[0] for x in m} | {x[0] for x in errs}, None
                for k, got, err in ex.map(one, range(8)):
                    if got is None:
                        print(prop, "slice", k, err[:300])
                        continue
                    rejected |= {k + 8 * i for i in got}
            tab = collections.defaultdict(lambda: [0, 0])
            for i, w in enumerate(what):
                tab[w[0] + "." + w[1]][0] += i in rejected
                tab[w[0] + "." + w[1]][1] += 1
            n = sum(v[0] for v in tab.values())
            print(prop, "%d of %d falsified traces rejected;" % (n, len(bad)), "accepted:",
                  " ".join("%s %d/%d" % (k, v[1] - v[0], v[1]) for k, v in sorted(tab.items()) if v[0] < v[1]), flush=True)
            if a.v:
                for i, w in enumerate(what):
                    if i not in rejected:
                        print("   ", w[0], w[1], str(w[2])[:200], "->", str(w[3])[:200])
        finally:
            ctx.close()


main()
