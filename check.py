#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] - decide one property on /repo's tree.

Builds the explorer programs from the current working tree (instrumented
through a -overlay, nothing in /repo is touched), runs them on all cores,
merges what they covered into evidence/<PROPERTY>.json, and reports.

Environment: VERIF_REPO (default /repo) the tree to check; VERIF_TIER;
VERIF_SEED (recorded only: nothing here is random); VERIF_WORKERS.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = "go1.24"
CORE = "lightstep/sdk/metric/verifmc/core"
CONV = "lightstep/sdk/metric/verifmc/conv"
PIPE = "verifmc/pipe"

# Which explorer programs decide a property: core (metrics SDK under the
# controlled scheduler), race (the same with the race detector), conv
# (exporters, launcher and pipelines: heavy dependencies).
PLAN = json.load(open(os.path.join(VERIF, "plan.json")))


def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    for k in ("GOMAXPROCS", "GOGC", "GODEBUG", "GORACE"):
        e.pop(k, None)
    # The launcher and the exporters read these.
    for k in list(e):
        if k.startswith("OTEL_") or k.startswith("LS_"):
            e.pop(k)
    return e


class BuildError(Exception):
    pass


def sh(cmd, cwd, what):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed (%d): %s\n%s" % (what, p.returncode, " ".join(cmd), p.stdout[-8000:]))
    return p.stdout


def build(scratch, kinds):
    """Builds the wanted programs and returns {kind: path}."""
    instr = os.path.join(scratch, "instr")
    sh([GO, "build", "-o", instr, "./instr"], os.path.join(VERIF, "tools"), "building the instrumenter")
    out = {}
    jobs = []
    errs = []

    def one(kind):
        try:
            o = os.path.join(scratch, "o_" + ("core" if kind in ("core", "race") else kind))
            dst = os.path.join(scratch, kind)
            cmd = [GO, "build", "-overlay", os.path.join(o, "overlay.json"), "-modfile", os.path.join(o, "go.mod"), "-o", dst]
            if kind == "race":
                cmd.append("-race")
            cmd.append("./" + (CORE if kind in ("core", "race") else CONV))
            try:
                sh(cmd, REPO, "building " + kind)
            except BuildError as ex:
                drop(o, kind, str(ex))
                sh(cmd, REPO, "building " + kind)
            out[kind] = dst
        except BuildError as ex:
            errs.append(ex)

    if "core" in kinds or "race" in kinds:
        overlay(scratch, instr, "core", True)
    if "conv" in kinds:
        overlay(scratch, instr, "conv", False)
    for k in kinds:
        t = threading.Thread(target=one, args=(k,))
        t.start()
        jobs.append(t)
    for t in jobs:
        t.join()
    if errs:
        raise errs[0]
    return out


# Harness files that call functions no test of the repository pins: without
# them, when a change of the repository moves those, the rest is still checked.
OPTIONAL = ("selfmetrics.go",)


def drop(o, kind, err):
    """Leaves out the optional harness files the compiler complains about."""
    f = os.path.join(o, "overlay.json")
    ov = json.load(open(f))
    gone = [k for k, v in ov["Replace"].items() if v and os.path.dirname(v) == os.path.join(VERIF, "mc", kind)
            and os.path.basename(v) in OPTIONAL and re.search(r"\b" + re.escape(os.path.basename(v)) + r":\d+:", err)]
    if not gone:
        raise BuildError(err)
    for k in gone:
        print("leaving out", os.path.basename(k), file=sys.stderr)
        del ov["Replace"][k]
    json.dump(ov, open(f, "w"))


def overlay(scratch, instr, kind, instrument):
    o = os.path.join(scratch, "o_" + kind)
    os.makedirs(o)
    cmd = [instr, "-repo", REPO, "-out", o]
    if instrument:
        cmd += ["-roots", "lightstep/sdk/metric,lightstep/sdk/internal,lightstep/instrumentation",
                "-exclude", "lightstep/sdk/metric/example,lightstep/sdk/metric/exporters"]
    cmd += ["-add", "verifshim=" + VERIF + "/shim",
            "-add", "lightstep/sdk/metric/verifmc/mc=" + VERIF + "/mc/mc",
            "-add", (CORE if kind == "core" else CONV) + "=" + VERIF + "/mc/" + kind]
    if kind == "conv":
        cmd += ["-add", "launcher=" + VERIF + "/mc/launcheradd"]
    sh(cmd, VERIF, "instrumenting")
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(o, f))


class Worker:
    def __init__(self, kind, binary, prop, tier, i, n, limit, scratch):
        self.kind, self.i = kind, i
        self.cur = os.path.join(scratch, "cur_%s_%d" % (kind, i))
        self.dir = os.path.join(scratch, "w_%s_%d" % (kind, i))
        os.makedirs(self.dir)
        self.errf = open(os.path.join(self.dir, "stderr"), "w+")
        e = env()
        e["TMPDIR"] = self.dir
        if kind == "race":
            e["GORACE"] = "halt_on_error=1 exitcode=66 history_size=2 atexit_sleep_ms=0"
        self.lines = []
        self.p = subprocess.Popen([binary, "-prop", prop, "-tier", tier, "-worker", str(i), "-of", str(n),
                                   "-cur", self.cur, "-limit", "%ds" % limit],
                                  cwd=self.dir, env=e, stdout=subprocess.PIPE, stderr=self.errf, text=True,
                                  start_new_session=True)
        self.t = threading.Thread(target=self.read)
        self.t.start()

    def read(self):
        for line in self.p.stdout:
            try:
                self.lines.append(json.loads(line))
            except ValueError:
                pass
        self.p.wait()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def done(self):
        return any("done" in x for x in self.lines)

    def violation(self):
        for x in self.lines:
            if "violation" in x:
                return x["violation"]
        return None

    def stderr(self):
        self.errf.flush()
        self.errf.seek(0)
        return self.errf.read()[-20000:]

    def current(self):
        try:
            raw = open(self.cur, "rb").read(1 << 16)
            name, off, rest = raw.split(b"\n", 1)[0].split(b"@")
            return {"scenario": name.decode(), "map_offset": int(off), "choices": [c - ord("a") for c in rest]}
        except (OSError, ValueError):
            return {}


def run(kind, binary, prop, tier, limit, scratch):
    n = int(os.environ.get("VERIF_WORKERS", "0")) or os.cpu_count() or 8
    ws = [Worker(kind, binary, prop, tier, i, n, limit, scratch) for i in range(n)]
    hard = time.time() + limit + 120
    vio = None
    while any(w.t.is_alive() for w in ws):
        time.sleep(0.02)
        for w in ws:
            v = w.violation()
            if v is None and not w.t.is_alive() and not w.done() and w.p.returncode != 0 and vio is None:
                # The program died: a data race (66), a fatal error or a
                # panic outside any recover.
                err = w.stderr()
                v = dict(w.current())
                if w.p.returncode == 66 and "DATA RACE" in err:
                    v["what"] = "data race\n" + err
                elif w.p.returncode == 2 and ("fatal error:" in err or "panic:" in err or "goroutine " in err):
                    v["what"] = "crash\n" + err
                else:
                    for x in ws:
                        x.kill()
                    for x in ws:
                        x.t.join()
                    raise BuildError("worker %s/%d ended with %s\n%s" % (kind, w.i, w.p.returncode, err))
                v["property"] = prop
            if v is not None and vio is None:
                vio = v
                for x in ws:
                    x.kill()
        if time.time() > hard:
            for x in ws:
                x.kill()
            for x in ws:
                x.t.join()
            raise BuildError("worker exceeded its time limit; at " + json.dumps([w.current() for w in ws]))
    for w in ws:
        w.t.join()
    if vio is None:
        for w in ws:
            if w.violation():
                vio = w.violation()
            elif not w.done():
                raise BuildError("worker %s/%d ended with %s\n%s" % (kind, w.i, w.p.returncode, w.stderr()))
    return ws, vio


def load_known():
    """Returns ({(property, id): text} of open findings)."""
    open_ = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            # open: property=<id> finding=<key> <text>
            if line.startswith("open:"):
                parts = line.split(None, 3)
                open_[(parts[1].split("=", 1)[1], parts[2].split("=", 1)[1])] = parts[3]
    return open_


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    plan = PLAN[prop]
    limit = 300 if tier == "quick" else 700
    scratch = tempfile.mkdtemp(prefix="verif-")
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    try:
        rc = decide(prop, tier, plan, limit, scratch, t0)
    except BuildError as ex:
        print("ERROR " + str(ex))
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, plan, limit, scratch, t0):
    kinds = plan["run"]
    bins = build(scratch, kinds)
    tb = time.time() - t0
    merged = {}
    cov = {}
    known = {}
    samples = []
    warnings = []
    vio = None
    vkind = None
    for kind in kinds:
        left = max(30, limit - (time.time() - t0))
        ws, v = run(kind, bins[kind], prop, tier, left, scratch)
        for w in ws:
            for x in w.lines:
                if "stat" in x:
                    s = x["stat"]
                    k = kind + ":" + s["scenario"]
                    m = merged.setdefault(k, {"executions": 0, "steps": 0, "nodes": 0, "diverged": 0, "bound": s["bound"],
                                              "complete": True, "map_orders": s["map_offsets"], "cpu_ms": 0})
                    m["executions"] += s["executions"]
                    m["steps"] += s["steps"]
                    m["nodes"] += s["nodes"]
                    m["diverged"] += s["diverged"]
                    m["complete"] = m["complete"] and s["complete"]
                    m["cpu_ms"] += s["ms"]
                    if w.i == 0 and s.get("sample"):
                        samples.append({"scenario": k, "first_execution": s["sample"]})
                elif "coverage" in x:
                    for c, n in x["coverage"].items():
                        cov[c] = cov.get(c, 0) + n
                elif "known" in x:
                    known.setdefault((x["known"]["property"], x["known"]["id"]), x["known"])
                elif "warning" in x:
                    warnings.append(x["warning"])
        if v is not None:
            vio, vkind = v, kind
            break
    open_ = load_known()
    if vio is None:
        for (p, i), k in sorted(known.items()):
            if p != prop:
                continue
            if (p, i) in open_:
                print("KNOWN-FINDING: property=%s %s" % (p, open_[(p, i)]))
            else:
                vio, vkind = k, k.get("kind", kinds[0])
                break
    ex = sum(m["executions"] for m in merged.values())
    evidence = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "model_checking",
        "coverage": {
            "states": sum(m["nodes"] for m in merged.values()),
            "transitions": sum(m["steps"] for m in merged.values()) + ex,
            "traces_validated_against_impl": ex,
            "samples": samples[:12] or ["none: stopped at a violation"],
            "exhaustive": vio is None and all(m["complete"] and m["diverged"] == 0 for m in merged.values()) and not warnings,
            "rule": "states: nodes of the decision tree (points at which more than one thread could go next, or an input, "
                    "configuration or fault was chosen); transitions: scheduling steps executed between them plus final judgements; "
                    "traces: complete executions of the real code, each judged by the oracle",
            "scenarios": merged,
            "reached": cov,
            "build_s": round(tb, 1),
        },
        "assumptions": plan.get("assumptions", []) + warnings,
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if vio else 0,
    }
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if vio is None:
        incomplete = [k for k, m in merged.items() if not m["complete"]]
        print("OK property=%s tier=%s executions=%d states=%d wall=%.1fs build=%.1fs%s" % (
            prop, tier, ex, evidence["coverage"]["states"], time.time() - t0, tb,
            " INCOMPLETE: " + ",".join(incomplete) if incomplete else ""))
        return 0
    path = os.path.join(evd, "violation-%s.json" % prop)
    vio["program"] = vkind
    vio["replay_cmd"] = "python3 %s/check.py --replay %s" % (VERIF, path)
    with open(path, "w") as f:
        json.dump(vio, f, indent=1)
    print("scenario %s (%s): %s" % (vio.get("scenario"), vkind, str(vio.get("what"))[:6000]))
    for l in (vio.get("log") or [])[:80]:
        print("  " + l)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def replay(path):
    v = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        kind = v.get("program", "core")
        b = build(scratch, [kind])[kind]
        spec = "%s@%d@%s" % (v["scenario"], v.get("map_offset", 0), ",".join(map(str, v.get("choices") or [])))
        e = env()
        if kind == "race":
            e["GORACE"] = "halt_on_error=1 exitcode=66"
        return subprocess.run([b, "-prop", v["property"], "-replay", spec], env=e, cwd=scratch).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    main()
