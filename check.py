#!/usr/bin/env python3
"""Decides one property:  check.py <property-id> <quick|thorough>

Exit 0: the property held on everything explored.
Exit 1: "VIOLATION property=<id> replay=<path>" was printed.
Exit 2: the check itself failed (nothing is claimed).
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
EVID = os.path.join(VERIF, "evidence")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly",
             GOWORK="off", GOROOT="/opt/veriftools/go1.24.13", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
             PATH="/opt/veriftools/go1.24.13/bin:" + os.environ.get("PATH", ""), GOTRACEBACK="single")

from props import PROPS  # noqa: E402


class CheckError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.lock = threading.Lock()
        self.violations = []      # (step, dict)
        self.stats = []           # per step
        self.known = []           # finding ids reproduced

    def add_violation(self, step, info):
        with self.lock:
            self.violations.append((step, info))

    def add_stat(self, **kw):
        with self.lock:
            self.stats.append(kw)


def build(work, race=False):
    out = os.path.join(work, "vh_race" if race else "vh")
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=GOENV, capture_output=True, text=True, timeout=600)
    if p.returncode != 0:
        raise CheckError("building the harness against %s failed:\n%s" % (REPO, p.stderr[-3000:]))
    return out


def tlc(ctx, name, module, cfg, env=None, workers=4, heap="4g", extra=(), timeout=800, line_cb=None):
    """Runs TLC; returns (stats, plain output lines). Lines handled by line_cb are not kept."""
    meta = os.path.join(ctx.work, "meta-" + name)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss128m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", bufsize=1 << 20)
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    keep = []
    try:
        for line in p.stdout:
            line = line.rstrip("\n")
            if line.startswith('"') and line_cb and line_cb(line):
                continue
            keep.append(line)
        p.wait()
    finally:
        timer.cancel()
    shutil.rmtree(meta, ignore_errors=True)
    text = "\n".join(keep)
    if "Model checking completed. No error has been found." not in text and "simulation" not in " ".join(extra):
        err = CheckError("TLC did not complete on %s/%s (exit %s):\n%s" % (module, cfg, p.returncode, text[-3000:]))
        err.text = text
        raise err
    st = {"generated": 0, "distinct": 0}
    for line in keep:
        if "states generated," in line and "distinct states found" in line and not line.startswith("Progress"):
            w = line.replace(",", "").split()
            st = {"generated": int(w[0]), "distinct": int(w[3])}
    return st, keep


def untla(line):
    """'"TAG {json}"' as printed by PrintT -> (TAG, obj)"""
    s = json.loads(line)
    tag, _, rest = s.partition(" ")
    return tag, json.loads(rest)


def run_vh(ctx, vh, mode, area, name, n=0, seed=None, inp=None, timeout=800, crash_is_violation=True):
    out = os.path.join(ctx.work, name + ".nd")
    cur = os.path.join(ctx.work, name + ".cur")
    cmd = [vh, mode, area, "-seed", str(ctx.seed if seed is None else seed), "-n", str(n), "-tier", ctx.tier, "-out", out, "-cur", cur]
    if inp:
        cmd += ["-in", inp]
    for attempt in (1, 2):
        try:
            p = subprocess.run(cmd, env=GOENV, capture_output=True, text=True, errors="replace", timeout=timeout, cwd=ctx.work)
        except subprocess.TimeoutExpired:
            raise CheckError("harness %s %s ran out of time" % (mode, area))
        if p.returncode == 0 and "VH-OK" in p.stdout:
            return out, int(p.stdout.split("VH-OK")[1].split()[0]), p.stdout
        if "harness:" in p.stderr or not crash_is_violation:
            raise CheckError("harness %s %s failed: %s" % (mode, area, p.stderr[-2000:]))
        if attempt == 2:
            try:
                case = json.load(open(cur))
            except Exception:
                case = None
            what = "hang" if p.returncode == 4 else "crash"
            if case is None or not ("panic" in p.stderr or "fatal error" in p.stderr or "DATA RACE" in p.stderr or p.returncode == 4):
                raise CheckError("harness %s %s failed: %s" % (mode, area, p.stderr[-2000:]))
            ctx.add_violation(name, {"what": what + " of the code under test (twice)", "case": case, "stderr": p.stderr[-4000:], "seed": ctx.seed})
            return None, 0, p.stdout
    raise CheckError("unreachable")


# ---- steps -----------------------------------------------------------------

def step_mc(ctx, vh, st):
    """Model check a specification; emitted cases are replayed on the real code."""
    cfg = st.get("cfg_" + ctx.tier, st.get("cfg"))
    name = st["module"] + "-" + os.path.splitext(cfg)[0]
    cases, seen = os.path.join(ctx.work, name + ".cases"), set()
    f = open(cases, "w")
    cnt = [0]

    def cb(line):
        if '"CASE ' == line[:6] or '"EDGE ' == line[:6]:
            h = hash(line)
            if h not in seen:
                seen.add(h)
                s = json.loads(line)
                f.write(s.partition(" ")[2] + "\n")
                cnt[0] += 1
            return True
        return False
    stats, keep = tlc(ctx, name, st["module"] + ".tla", cfg, workers=st.get("workers", 4), line_cb=cb, heap=st.get("heap", "4g"), env=st.get("env"))
    f.close()
    rec = dict(step="model-check " + name, states=stats["distinct"], transitions=stats["generated"], emitted=cnt[0])
    if st.get("replay"):
        if cnt[0] == 0:
            raise CheckError("no behaviours were emitted by " + name)
        n = st.get("n_" + ctx.tier, st.get("n", 0))
        out, k, txt = run_vh(ctx, vh, "replay", st["replay"], name + "-replay", n=n, inp=cases)
        rec["replayed"] = k
        if out:
            for line in open(out):
                info = json.loads(line)
                if "MISMATCH" in info:
                    ctx.add_violation(name, info["MISMATCH"])
                elif "STAT" in info:
                    rec.update(info["STAT"])
        if k == 0 and not ctx.violations:
            raise CheckError("nothing was replayed for " + name)
    if st.get("record"):
        out, k, txt = run_vh(ctx, vh, "record", st["record"], name + "-record", inp=cases)
        rec["driven"] = k
        if out:
            ts = {"module": st["trace"], **st.get("trace_opts", {})}
            with ThreadPoolExecutor(2) as ex:
                list(ex.map(lambda x: validate(ctx, ts, x[1][0], x[1][1], st["record"] + "-" + st["module"], x[0]), enumerate(pieces(out, k))))
    os.unlink(cases)
    ctx.add_stat(**rec)


def pieces(out, k, limit=16 << 20):
    """Splits a large recording into files that TLC can hold."""
    if os.path.getsize(out) <= limit:
        return [(out, k)]
    res, f, size, n = [], None, 0, 0
    for line in open(out):
        if f is None:
            name = "%s.%d" % (out, len(res))
            f, size, n = open(name, "w"), 0, 0
        f.write(line)
        size, n = size + len(line), n + 1
        if size > limit:
            f.close()
            res.append((name, n))
            f = None
    if f is not None:
        f.close()
        res.append((name, n))
    os.unlink(out)
    return res


def validate(ctx, st, out, k, area, i):
    """TLC judges the recorded executions in out."""
    if k == 0:
        raise CheckError("recorder %s produced nothing" % area)
    mism, reached = [], set()

    def cb(line):
        if line.startswith('"REACHED '):
            reached.add(untla(line)[1]["case"])
            return True
        if line.startswith('"MISMATCH '):
            mism.append(untla(line)[1])
            return True
        return False
    cfg = st.get("cfg", st["module"] + ".cfg")
    stats = None
    for attempt in (1, 2):
        try:
            stats, keep = tlc(ctx, "%s-%d" % (area, i), st["module"] + ".tla", cfg, env={"TRACE": out}, line_cb=cb, workers=st.get("workers", 4), heap=st.get("heap", "4g"))
            break
        except CheckError as e:
            if "GC overhead" not in e.text and "OutOfMemory" not in e.text and "heap space" not in e.text and ("Attempted to" in e.text or "was evaluating" in e.text):
                # the specification has no meaning for what was recorded
                m = re.findall(r"\bc = (\d+)", e.text)
                mism.append({"case": int(m[-1]) if m else 1, "what": "the recorded behaviour is outside the specification", "exp": "", "got": e.text[-1500:]})
                break
            if attempt == 2:
                raise
            mism.clear()
    need = st.get("states_per_case", 2) * k
    if stats is None:
        stats = {"distinct": 0, "generated": 0}
    elif stats["distinct"] < need and not mism:
        raise CheckError("trace validation of %s looked at %d states, expected at least %d" % (area, stats["distinct"], need))
    if st.get("accept") and stats["distinct"]:
        mism += [{"case": i, "what": "the history is not a behaviour of the specification", "exp": "", "got": ""} for i in range(1, k + 1) if i not in reached]
    if mism:
        lines = open(out).read().split("\n")
        by = {}
        for m in mism:
            by.setdefault(m["case"], []).append(m)
        for c, ms in sorted(by.items())[:20]:
            ctx.add_violation(area, {"what": ms[0]["what"], "mismatches": ms[:5], "recorded": json.loads(lines[c - 1]), "seed": ctx.seed, "shard": i})
    ctx.add_stat(step="validate %s shard %d" % (area, i), states=stats["distinct"], transitions=stats["generated"], traces=k, bytes=os.path.getsize(out))
    os.unlink(out)


def step_trace(ctx, vh, st):
    """Record executions of the real code and validate them with a trace specification."""
    n = st.get("n_" + ctx.tier, st.get("n", 100))
    shards = st.get("shards_" + ctx.tier, st.get("shards", 1))
    area = st["area"]
    outs = []

    def one(i):
        return run_vh(ctx, vh, "record", area, "%s-%d" % (area, i), n=n, seed=ctx.seed * 1000 + i)
    with ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(one, range(shards)))
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(lambda x: x[1][0] and validate(ctx, st, x[1][0], x[1][1], area, x[0]), enumerate(outs)))


def step_probe(ctx, vh, st):
    """Replays the inputs of recorded known findings."""
    out, k, txt = run_vh(ctx, vh, "record", "probe-" + ctx.prop, "probe")
    for line in open(out):
        o = json.loads(line)
        if o["fails"]:
            ctx.known.append((o["id"], o["what"]))


STEPS = {"mc": step_mc, "trace": step_trace, "probe": step_probe}


def main():
    if sys.argv[1] == "setup":      # warms the build cache; every check builds for itself
        work = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build(work)
            if any(s.get("race") for p in PROPS.values() for s in p["steps"]):
                build(work, race=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 0
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    t0 = time.time()
    ctx = Ctx(prop, tier, seed, work)
    try:
        vh = build(work)
        vhr = build(work, race=True) if any(s.get("race") for s in spec["steps"]) else None
        errs = []

        def go(s):
            try:
                STEPS[s["kind"]](ctx, vhr if s.get("race") else vh, s)
            except CheckError as e:
                errs.append(str(e))
            except Exception as e:  # noqa
                errs.append("%s: %r" % (s, e))
        steps = [s for s in spec["steps"] if tier in s.get("tiers", ("quick", "thorough"))]
        with ThreadPoolExecutor(spec.get("parallel", 3)) as ex:
            list(ex.map(go, steps))
        if errs and not ctx.violations:
            for e in errs:
                print("ERROR", e, file=sys.stderr)
            return 2
        findings = json.load(open(os.path.join(VERIF, "known_findings.json")))["known"]
        listed = {f["id"]: f for f in findings if f["property"] == prop}
        for fid, what in ctx.known:
            if fid in listed:
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, fid, listed[fid]["what"]))
            else:
                ctx.add_violation("probe", {"what": what, "id": fid})
        wall = time.time() - t0
        tot = lambda k: sum(s.get(k, 0) for s in ctx.stats)  # noqa
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": spec["coverage"], "wall_s": round(wall, 2),
              "states": tot("states"), "transitions": tot("transitions"),
              "traces_validated_against_impl": tot("traces") + tot("replayed"),
              "samples": {"steps": ctx.stats, "known_findings": [k[0] for k in ctx.known]},
              "violations": len(ctx.violations)}
        json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
        if ctx.violations:
            rp = os.path.join(EVID, "replay-%s.json" % prop)
            json.dump([{"step": s, **(v if isinstance(v, dict) else {"info": v})} for s, v in ctx.violations[:50]], open(rp, "w"), indent=1)
            for s, v in ctx.violations[:5]:
                print("  %s: %s" % (s, json.dumps(v)[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" % (prop, tier, ev["states"], ev["traces_validated_against_impl"], wall))
        return 0
    except CheckError as e:
        print("ERROR", e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
