#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]"""
import argparse
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import engine
import gen
import plans
from engine import Ctx, Infra

VERIF = engine.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.jsonl")


def findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                f = json.loads(line)
                if f.get("property") == prop:
                    out.append(f)
    return out


def replay_file(ctx, script, trace, what):
    os.makedirs(engine.REPLAYS, exist_ok=True)
    path = os.path.join(engine.REPLAYS, "%s-%s-%d.json" % (ctx.prop, ctx.tier, ctx.seed))
    with open(path, "w") as f:
        json.dump({"property": ctx.prop, "what": what, "script": script, "trace": trace}, f, indent=1)
    return path


def describe(trace, ev, kind, j):
    e = trace["ev"][ev - 1]
    return json.dumps(e["ops" if kind == "op" else "obs"][j - 1])[:1500]


def shrink(ctx, script, budget=25.0):
    """drop events, operations and observations while the mismatch remains"""
    t0 = time.time()

    def fails(s):
        try:
            tr, cr = engine.drive(ctx, [s])
            if cr:
                return None
            m, _, errs = engine.validate(ctx, tr)
        except Infra:
            return None
        return (tr[0], m[0]) if m else None
    best = fails(script)
    if not best:
        return script, None
    cur = script
    cur = dict(cur, ev=cur["ev"][:best[1][1]])
    last = cur["ev"][-1]
    if best[1][2] == "obs":
        # only the failing observation, in one go
        evs = [dict(ops=e["ops"], obs=[]) for e in cur["ev"][:-1]] + [dict(ops=last["ops"], obs=[last["obs"][best[1][3] - 1]])]
        r = fails(dict(cur, ev=evs))
        if r:
            cur, best = dict(cur, ev=evs), r
    while time.time() - t0 < budget:
        changed = False
        ops = [(i, j) for i, e in enumerate(cur["ev"]) for j in range(len(e["ops"]))]
        n = max(1, len(ops) // 4)
        while n >= 1 and time.time() - t0 < budget:
            k = len(ops)
            while k > 0 and time.time() - t0 < budget:
                drop = set(ops[max(0, k - n):k])
                evs = [dict(ops=[o for j, o in enumerate(e["ops"]) if (i, j) not in drop], obs=e["obs"]) for i, e in enumerate(cur["ev"])]
                r = fails(dict(cur, ev=evs))
                if r:
                    cur, best, changed = dict(cur, ev=evs), r, True
                    ops = [(i, j) for i, e in enumerate(cur["ev"]) for j in range(len(e["ops"]))]
                    k = min(k, len(ops))
                else:
                    k -= n
            n //= 2
        if not changed:
            break
    return cur, best


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--no-models", action="store_true")
    ap.add_argument("--shrink", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    ctx = Ctx(a.prop, tier, a.seed)
    try:
        return run(ctx, a)
    except Infra as e:
        print("CHECK-ERROR property=%s: %s" % (a.prop, e))
        return 2
    finally:
        ctx.close()


def run(ctx, a):
    engine.build_driver(ctx)
    if a.replay:
        s = json.load(open(a.replay))["script"]
        res = engine.run_all(ctx, [s])
        return report(ctx, a, res, 1)
    rnd = random.Random("%s/%d" % (ctx.prop, ctx.seed))
    scripts = []
    if not a.no_models:
        scripts += engine.run_models(ctx, plans.models(ctx.prop, ctx.tier), rnd)
    generated = len(scripts)
    extra = plans.scripts(ctx.prop, ctx.tier, rnd)
    if a.scale != 1.0:
        extra = extra[:int(len(extra) * a.scale)]
    scripts += extra
    odd = random.Random("names/%s/%d" % (ctx.prop, ctx.seed))
    scripts = [gen.rename(s, odd) if odd.random() < float(os.environ.get("ODD","0.15")) else s for s in scripts]
    for i, s in enumerate(scripts):
        s["id"] = i + 1
    res = engine.run_all(ctx, scripts)
    res["from_model"] = generated
    return report(ctx, a, res, len(scripts))


def report(ctx, a, res, total):
    bad = []          # (script, trace, what)
    for s, what in res["crashes"]:
        bad.append((s, None, "the code under test did not survive: " + what))
    for s, t, what in res["errors"]:
        bad.append((s, json.loads(t), "recorded values are outside the specification: " + what[:600]))
    for s, t, ev, kind, j in res["mism"]:
        tr = json.loads(t)
        bad.append((s, tr, "event %d, %s %d: %s" % (ev, "operation" if kind == "op" else "observation", j, describe(tr, ev, kind, j))))
    known = findings(ctx.prop)
    unknown = []
    hit = {}
    for b in bad:
        for f in known:
            if f["match"] in b[2]:
                hit[f["id"]] = f
                break
        else:
            unknown.append(b)
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, f["what"]))
    evidence(ctx, res, total, len(unknown))
    if unknown:
        s, tr, what = unknown[0]
        print("%d of %d histories are not allowed by the specification; first: %s" % (len(unknown), total, what))
        if a.shrink and tr is not None:
            s2, best = shrink(ctx, s)
            if best:
                tr = json.loads(best[0])
                m = best[1]
                what = "event %d, %s %d: %s" % (m[1], m[2], m[3], describe(tr, m[1], m[2], m[3]))
                s = s2
                print("shrunk:", json.dumps(s))
                print("fails:", what)
        path = replay_file(ctx, s, tr, what)
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        return 1
    print("property=%s ok: %d model states, %d histories replayed and validated (%d events), %.1f s" % (
        ctx.prop, sum(m["states"] for m in ctx.models), res["traces"], res["events"], time.time() - ctx.t0))
    return 0


def clip(x, depth=0):
    if isinstance(x, list):
        return [clip(y, depth + 1) for y in x[:6]]
    if isinstance(x, dict):
        return {k: clip(v, depth + 1) for k, v in x.items()}
    return x


def evidence(ctx, res, total, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["states"] for m in ctx.models) + res["events"] + res["traces"],
            "transitions": sum(m["transitions"] for m in ctx.models) + res["events"],
            "traces_validated_against_impl": res["traces"],
            "traces_undecided_in_time": res["undecided"],
            "traces_generated_by_tlc": res.get("from_model", 0),
            "trace_events_validated": res["events"],
            "models": ctx.models,
            "samples": [clip(s) for s in res["samples"][:2]],
        },
        "assumptions": ["TLC, the Go toolchain and the trace-recording driver are trusted",
                        "the recorded histories sample the implementation; the models are exhaustive only within their stated constants"],
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": violations,
    }
    with open(os.path.join(d, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
