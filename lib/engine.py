"""Runs scripts against the real code, and TLC over models and traces."""
import concurrent.futures as cf
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPLAYS = os.path.join(VERIF, "replays")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 8))


class Infra(Exception):
    """the check itself failed: no verdict"""


class Slow(Infra):
    """TLC was not done in time"""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.driver = os.path.join(self.work, "driver")
        self.t0 = time.time()
        self.models = []          # evidence of the model checking runs
        self.counter = 0
        self.maxerrors = 3
        self.lock = threading.Lock()

    def fresh(self, suffix):
        with self.lock:
            self.counter += 1
            return os.path.join(self.work, "%d%s" % (self.counter, suffix))

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
             GOMODCACHE="/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def build_driver(ctx):
    """the driver is always rebuilt from /repo's working tree"""
    src = os.path.join(ctx.work, "src")
    shutil.copytree(os.path.join(VERIF, "driver"), src)
    # the requirements of the code under test may move; take its own go.sum
    with open(os.path.join(src, "go.sum"), "a") as f:
        try:
            f.write(open("/repo/go.sum").read())
        except OSError:
            pass
    p = subprocess.run(["go", "build", "-o", ctx.driver, "."], cwd=src, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Infra("building the driver against /repo failed:\n" + p.stdout)


# ------------------------------------------------------------------ TLC

def java(heap="1500m", workers=1, short=False):
    # short runs, many at a time, are over before the optimising compiler pays off
    return ["java"] + (["-XX:TieredStopAtLevel=1"] if short else []) + ["-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(4, workers)),
            "-Xms256m", "-Xmx" + heap, "-Xss16m", "-cp", CP, "tlc2.TLC"]


def tlc(ctx, module, cfg, env=None, workers=1, heap="1500m", args=(), timeout=900, outfile=None, short=False):
    meta = ctx.fresh(".meta")
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(env or {})
    cmd = java(heap, workers, short) + ["-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
                                 "-config", cfg] + list(args) + [module]
    outp = outfile or ctx.fresh(".tlc")
    with open(outp, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise Slow("TLC timed out on " + module)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, outp


STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found")
DEPTH = re.compile(r"The depth of the complete state graph search is (\d+)")


def run_model(ctx, m, workers=1, heap="3g"):
    """exhaustive model checking of one model; returns the raw scripts it printed
    (model: name, module, cfg, env, expand, cap)"""
    cfg = m["cfg"]
    if m.get("invs"):
        # only some of the invariants of the configuration
        cfg = ctx.fresh(".cfg")
        text = open(os.path.join(SPEC, m["cfg"])).read()
        text, n = re.subn(r"(?m)^INVARIANTS?\b.*$", "INVARIANTS " + " ".join(m["invs"]), text)
        if n != 1:
            raise Infra("no single INVARIANTS line in " + m["cfg"])
        with open(cfg, "w") as f:
            f.write(text)
    rc, outp = tlc(ctx, m["module"], cfg, workers=workers, heap=m.get("heap", heap), timeout=m.get("timeout", 800),
                   env=m.get("env"))
    gen = dist = depth = None
    out, tail = [], []
    with open(outp) as f:
        for line in f:
            if line.startswith('"SCRIPT '):
                if m.get("expand"):
                    out.append(json.loads(line)[7:])
                continue
            x = STATES.match(line)
            if x:
                gen, dist = int(x.group(1)), int(x.group(2))
                continue
            x = DEPTH.search(line)
            if x:
                depth = int(x.group(1))
            tail.append(line)
            if len(tail) > 60:
                tail.pop(0)
    os.unlink(outp)
    if rc != 0 or gen is None:
        raise Infra("model %s (%s): TLC exit %s\n%s" % (m["name"], m["cfg"], rc, "".join(tail)))
    if m.get("expand") and not out:
        raise Infra("model %s generated no script" % m["name"])
    out = sorted(set(out))
    m["printed"], m["states"], m["transitions"], m["depth"] = len(out), dist, gen, depth
    return out


# --------------------------------------------------------------- driver

def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))     # runaway code must not take the sandbox down


def drive(ctx, scripts, timeout="20s"):
    """execute scripts; returns (traces, crashes): crashes = [(index, what)]"""
    inp, outp, cur = ctx.fresh(".scripts"), ctx.fresh(".traces"), ctx.fresh(".cur")
    with open(inp, "w") as f:
        for s in scripts:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")
    crashes = []
    p = subprocess.run([ctx.driver, "-in", inp, "-out", outp, "-cur", cur, "-from", "0", "-timeout", timeout],
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limits)
    if p.returncode != 0:
        err = p.stderr.decode(errors="replace")
        if p.returncode == 2 and ("goroutine" not in err or "driver:" in err[:2000]):
            raise Infra("driver: " + err[:3000])
        at = open(cur).read().strip() if os.path.exists(cur) else ""
        if not at.isdigit():
            raise Infra("driver died without a script: " + err[-2000:])
        crashes.append((int(at), "hang" if p.returncode == 3 else "exit %d: %s" % (p.returncode, err[:300])))
    traces = []
    if os.path.exists(outp):
        with open(outp) as f:
            for line in f:
                if line.endswith("\n"):
                    traces.append(line)
        os.unlink(outp)
    os.unlink(inp)
    return traces, crashes


# ------------------------------------------------------------ validation

MISM = re.compile(r'^<<"MISMATCH", (\d+), (\d+), "(op|obs)", (\d+)>>')
HLINE = re.compile(r"^/\\ h = (\d+)")


def validate_within(ctx, lines, limit):
    """validate; when TLC is not done in time, find the histories that take too
    long (undecided) and decide all others"""
    try:
        return validate(ctx, lines, limit) + ([],)
    except Slow:
        if len(lines) == 1:
            return [], 0, [], [0]
    n = -(-len(lines) // 8)
    starts = list(range(0, len(lines), n))
    with cf.ThreadPoolExecutor(8) as ex:
        parts = list(ex.map(lambda i: validate_within(ctx, lines[i:i + n], max(20, limit // 3)), starts))
    mism, events, errors, undecided = [], 0, [], []
    for i, (m, e, r, u) in zip(starts, parts):
        mism += [(k + i,) + tuple(x) for k, *x in m]
        events += e
        errors += [(k + i, w) for k, w in r]
        undecided += [k + i for k in u]
    return mism, events, errors, undecided


def validate(ctx, lines, limit=900):
    """TLC decides which of the recorded traces the specification allows.
    Returns (mismatches, events, errors): mismatches = [(index, event, kind, j)]"""
    if not lines:
        return [], 0, []
    lines = list(lines)
    idx = list(range(len(lines)))
    mism, errors = [], []
    while True:
        tr = ctx.fresh(".ndjson")
        with open(tr, "w") as f:
            f.writelines(lines[i] for i in idx)
        lens = [len(json.loads(lines[i])["ev"]) for i in idx]
        rc, outp = tlc(ctx, "Trace.tla", "Trace.cfg", env={"TRACE": tr, "PROP": ctx.prop}, heap="3g", short=True, timeout=limit)
        text = open(outp).read()
        os.unlink(outp)
        os.unlink(tr)
        got, dist, herr = {}, None, None
        for line in text.split("\n"):
            m = MISM.match(line)
            if m:
                got[int(m.group(1)) - 1] = (int(m.group(2)), m.group(3), int(m.group(4)))
            m = STATES.match(line)
            if m:
                dist = int(m.group(2))
            m = HLINE.match(line)
            if m:
                herr = int(m.group(1)) - 1
        if rc != 0:
            # an evaluation error: the recorded data is outside the domain of
            # the specification (only a misbehaving implementation does that)
            if herr is None or "OutOfMemory" in text or "StackOverflow" in text or len(errors) > ctx.maxerrors:
                raise Infra("TLC failed on recorded traces (exit %s):\n%s" % (rc, text[-3000:]))
            errors.append((idx[herr], text[text.find("Error:"):][:1500]))
            idx.pop(herr)
            if not idx:
                return mism, 0, errors
            continue
        want = sum((got[k][0] if k in got else n + 1) for k, n in enumerate(lens))
        if dist != want:
            raise Infra("trace validation visited %s states instead of %s\n%s" % (dist, want, text[-2000:]))
        mism = [(idx[k],) + v for k, v in sorted(got.items())]
        return mism, sum(lens), errors


def chunks(scripts, n):
    """split by weight into n parts, keeping each part's scripts in order"""
    n = max(1, min(n, len(scripts)))
    parts = [[] for _ in range(n)]
    for i, s in enumerate(scripts):
        parts[i % n].append(s)
    return parts


def run_all(ctx, scripts, chunk_bytes=6_000_000):
    """drive and validate everything in parallel"""
    parts = chunks(scripts, NPROC)
    result = dict(mism=[], events=0, traces=0, crashes=[], errors=[], samples=[], undecided=0)
    limit = 150 if ctx.tier == "quick" else 500
    with cf.ThreadPoolExecutor(NPROC) as ex:
        driven = list(ex.map(lambda p: drive(ctx, p), parts))
        crashed = [(part[i], what) for part, (_, crashes) in zip(parts, driven) for i, what in crashes]
        if crashed:
            # the code under test took the whole process down: nothing else matters
            for s, what in crashed[:3]:
                if confirm_crash(ctx, s):
                    result["crashes"].append((s, what))
                    return result
            # nothing wrong with these scripts: the machine was too busy, or short of memory
            for k, (part, (_, crashes)) in enumerate(zip(parts, driven)):
                if crashes:
                    driven[k] = drive(ctx, part, timeout="60s")
                    if driven[k][1]:
                        raise Infra("driver crashes are not reproducible: %s" % crashed[0][1])
        jobs = []
        for part, (traces, _) in zip(parts, driven):
            alive = part
            if len(traces) != len(alive):
                raise Infra("%d scripts but %d traces" % (len(alive), len(traces)))
            buf, bs, size = [], [], 0
            for s, t in zip(alive, traces):
                buf.append(t)
                bs.append(s)
                size += len(t)
                if size > chunk_bytes:
                    jobs.append((bs, buf))
                    buf, bs, size = [], [], 0
            if buf:
                jobs.append((bs, buf))
        def one(job):
            return job, validate_within(ctx, job[1], limit)
        for (bs, buf), (mism, events, errors, undecided) in ex.map(one, jobs):
            result["traces"] += len(buf) - len(undecided)
            result["undecided"] += len(undecided)
            result["events"] += events
            for k, ev, kind, j in mism:
                result["mism"].append((bs[k], buf[k], ev, kind, j))
            for k, what in errors:
                result["errors"].append((bs[k], buf[k], what))
            bad = {m[0] for m in mism}
            for k, t in enumerate(buf):
                if k not in bad and '"aborted":' in t and json.loads(t).get("aborted"):
                    raise Infra("a script was aborted without a mismatch: " + t[:2000])
            if len(result["samples"]) < 2 and buf:
                result["samples"].append(json.loads(buf[len(buf) // 2]))
    if result["undecided"] > 20 and not result["mism"]:
        raise Infra("%d histories could not be decided in time" % result["undecided"])
    return result


def confirm_crash(ctx, script):
    _, crashes = drive(ctx, [script], timeout="60s")
    return bool(crashes)


def run_models(ctx, models, rnd):
    """all model checking runs of a property, side by side; the scripts for the
    real code that cover their transitions (all of them, or a sample)"""
    if not models:
        return []
    out = []
    quick = ctx.tier == "quick"
    w = 1 if quick else max(1, NPROC // len(models))
    with cf.ThreadPoolExecutor(min(NPROC, len(models))) as ex:
        raws = list(ex.map(lambda m: run_model(ctx, m, workers=m.get("workers", w)), models))
    for m, raw in zip(models, raws):
        cap = m.get("cap") or len(raw)
        r = random.Random("%s/%s" % (m["name"], rnd.getrandbits(32)))
        n = 0
        for x in (raw if len(raw) <= cap else r.sample(raw, len(raw))):
            if n == cap:
                break
            sc = m["expand"](json.loads(x), random.Random(r.getrandbits(64)), ctx.prop)
            if sc is not None:
                out.append(sc)
                n += 1
        ctx.models.append(dict(model=m["name"], config=m["cfg"], invariants=m.get("invs", "all of the configuration"), states=m["states"], transitions=m["transitions"], depth=m["depth"],
                               behaviours=m["printed"], replayed=n))
    return out
