#!/usr/bin/env python3
"""Driver: builds the harness from /repo's working tree, runs the parts of one check and
judges them.   run_check.py C10 quick|thorough      run_check.py --replay FILE
See DESIGN.md.  Exit 0 held / 1 VIOLATION / 2 the check itself could not run."""
import json, os, subprocess, sys, time, signal, hashlib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, LEVEL_FIELDS
EV = os.path.join(HERE, "evidence")
TARGET = os.path.join(HERE, "target")
T0 = time.time()
STALL = 60    # seconds without any processor time in any thread of a part: it is deadlocked
GRACE = 240   # once one part reports a violation, the others get this much longer

def cpu_ticks(pid):
    """Processor time used so far by all threads of a process, in clock ticks."""
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return int(f[11]) + int(f[12])
    except Exception:
        return None

def env_base():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.70.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.setdefault("HOME", "/root")
    e.pop("RUSTFLAGS", None)
    return e

def build(kind, bins):
    """Returns (ok, log)."""
    log = ""
    for feats in (["mcbatch"], []):
        if kind == "ser" and feats:
            continue
        e = env_base()
        e["CARGO_TARGET_DIR"] = os.path.join(TARGET, kind)
        if kind == "sched":
            e["RUSTFLAGS"] = "--cfg bellman_mc"
        cmd = ["cargo", "build", "--offline", "--release", "-q"]
        if feats:
            cmd += ["--features", ",".join(feats)]
        for b in bins:
            cmd += ["--bin", b]
        p = subprocess.run(cmd, cwd=os.path.join(HERE, "mc", kind), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            if kind != "ser" and not feats:
                print("note: built the %s harness without the multicore feature of groth16:\n%s" % (kind, log[-1500:]))
            return True, log
        log += p.stdout[-6000:]
    return False, log

def run_parts(parts, tier, only=None):
    """parts: list of dicts. Runs them, at most 8 cores' worth at a time."""
    budget = 8
    todo = sorted(parts, key=lambda p: -p.get("cost", 1))
    running, done = [], []
    progress, found = {}, None   # pid -> [ticks, since when, polls since then]
    used = 0
    limit = 600 if tier == "quick" else 7200
    os.makedirs(os.path.join(EV, "parts"), exist_ok=True)
    while todo or running:
        i = 0
        while i < len(todo):
            p = todo[i]
            w = min(p.get("weight", 1), budget)
            if used + w <= budget:
                todo.pop(i)
                used += w
                out = os.path.join(EV, "parts", "%s.%s.json" % (p["bin"], p["name"].replace("/", "_")))
                if os.path.exists(out):
                    os.remove(out)
                e = env_base()
                e["RAYON_NUM_THREADS"] = str(p.get("threads", 4))
                e.update(p.get("env", {}))
                if any(d["part"]["kind"] == "sched" and d["rc"] == 3 for d in done):
                    e["MC_BLOCKED"] = "10"   # the explorer cannot follow this code: do not wait as long again
                cmd = [os.path.join(TARGET, p["kind"], "release", p["bin"]), "--tier", tier, "--part", p["part"], "--out", out]
                if only:
                    cmd += ["--only", only]
                log = open(out + ".log", "w")
                pr = subprocess.Popen(cmd, env=e, stdout=log, stderr=subprocess.STDOUT, cwd=HERE)
                running.append((p, pr, out, time.time(), w, cmd))
                progress[pr.pid] = [-1, time.time(), 0]
            else:
                i += 1
        time.sleep(0.05)
        for r in list(running):
            p, pr, out, t, w, cmd = r
            rc = pr.poll()
            if rc is None:
                lim = limit if tier != "quick" else min(limit, max(60, 840 - (t - T0)))
                cpu = cpu_ticks(pr.pid)
                g = progress[pr.pid]
                if cpu is not None and cpu > g[0] + 3:
                    g[:] = [cpu, time.time(), 0]
                g[2] += 1
                if time.time() - t > lim:
                    pr.kill()
                    pr.wait()
                    rc = "timeout"
                elif p["kind"] != "sched" and cpu is not None and g[2] > 10 * STALL and time.time() - g[1] > STALL:
                    pr.kill()
                    pr.wait()
                    rc = "stalled"
                elif found and time.time() - found > GRACE:
                    pr.kill()
                    pr.wait()
                    rc = "cut"
                else:
                    continue
            running.remove(r)
            used -= w
            res = None
            try:
                res = json.load(open(out))
            except Exception:
                pass
            tail = open(out + ".log", errors="replace").read()[-1500:]
            if rc not in (0, 2, 3, "cut", -9, 137) and found is None and not (p["kind"] == "sched" and rc == "timeout"):
                found = time.time()
            done.append(dict(part=p, rc=rc, res=res, wall=time.time() - t, tail=tail, cmd=cmd))
    return done

def known():
    """property -> set of keys, from known-findings.txt (read only)."""
    f = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("finding: "):
                head, _, what = l[len("finding: "):].strip().partition(" what=")
                prop, _, key = head.partition(" key=")
                f.setdefault(prop.replace("property=", ""), {})[key] = what
    return f

def name_part(p):
    p.setdefault("name", "%s-%s-%s%s" % (p["kind"], p["bin"], p["part"], "-t%d" % p["threads"] if "threads" in p else ""))

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        pid, tier, only = r["property"], r["tier"], r["key"]
        parts = CHECKS[pid]["parts"](tier)
        for p in parts:
            name_part(p)
        if r["part_name"].startswith("compare-"):
            parts = [p for p in parts if "compare-%s-%s" % (p["bin"], p["part"]) == r["part_name"]]
        else:
            parts = [p for p in parts if p["name"] == r["part_name"]]
        if r.get("whole_part"):
            only = None
    else:
        pid, tier, only = a[0], (a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")), None
        parts = CHECKS[pid]["parts"](tier)
    c = CHECKS[pid]
    os.makedirs(EV, exist_ok=True)
    for p in parts:
        name_part(p)
    kinds = {}
    for p in parts:
        kinds.setdefault(p["kind"], set()).add(p["bin"])
    failed_kinds = {}
    for k, bins in sorted(kinds.items()):
        ok, log = build(k, sorted(bins))
        if not ok:
            failed_kinds[k] = log
    tb = time.time() - T0
    if failed_kinds:
        for k, log in failed_kinds.items():
            print("build of the %s harness failed:\n%s" % (k, log))
        # A part built differently still decides something; without any part there is no answer.
        parts = [p for p in parts if p["kind"] not in failed_kinds]
        if not parts or not c.get("degrade", False):
            return 2
    done = run_parts(parts, tier, only)
    viol, errors = [], []
    table = {}
    tot = dict(states=0, transitions=0, traces=0, evaluations=0)
    samples, bounds, extra, per = [], {}, {}, []
    exhaustive = True
    for d in done:
        p, rc, res = d["part"], d["rc"], d["res"]
        if res is not None and rc in (0, 1):
            for k in tot:
                tot[k] += res[k]
            exhaustive = exhaustive and res["exhaustive"]
            for s in res["samples"][:2]:
                if s not in samples:
                    samples.append(s)
            for k, v in res["bounds"].items():
                bounds.setdefault(k, v)
            for k, v in res["extra"].items():
                extra[k] = extra.get(k, 0) + v
            per.append(dict(part=p["name"], states=res["states"], transitions=res["transitions"], traces=res["traces"], wall_s=round(d["wall"], 2)))
            for k, v in res.get("digests", {}).items():
                table.setdefault((p["bin"], p["part"], k), {}).setdefault(v, []).append(p["name"])
            for v in res["violations"]:
                viol.append(dict(part_name=p["name"], key=v["key"], what=v["what"], cmd=d["cmd"], whole_part=False))
        elif rc == "cut":
            exhaustive = False
            per.append(dict(part=p["name"], inconclusive=True, wall_s=round(d["wall"], 2)))
        elif rc in (-9, 137) or rc == 2:
            errors.append((p, rc, d["tail"]))
        elif p["kind"] == "sched" and rc in (3, "timeout"):
            # Blocked outside the controlled scheduler, or too much to explore: no verdict from this part.
            exhaustive = False
            print("note: part %s gave no verdict: %s" % (p["name"], d["tail"][-300:]))
            per.append(dict(part=p["name"], inconclusive=True, wall_s=round(d["wall"], 2)))
        else:
            why = {"stalled": "is deadlocked (no progress of any thread for %d s)" % STALL, "timeout": "did not terminate (stopped after the time limit)", 4: "does not terminate", -6: "process aborted (SIGABRT)", -11: "process crashed (SIGSEGV)"}.get(rc, "ended abnormally (exit %s)" % rc)
            viol.append(dict(part_name=p["name"], key="part:%s" % p["name"], what="%s; last output: %s" % (why, d["tail"][-600:]), cmd=d["cmd"], whole_part=True))
    # Results that must be the same in every configuration.
    for (b, part, k), by in sorted(table.items()):
        if len(by) > 1:
            viol.append(dict(part_name="compare-%s-%s" % (b, part), key=k, cmd=[], whole_part=False,
                             what="different results: " + "; ".join("%s from %s" % (v, ",".join(n)) for v, n in sorted(by.items()))))
    if table:
        extra["results_compared_between_configurations"] = len(table)
    kf = known().get(pid, {})
    shown, real = set(), []
    for v in viol:
        if v["key"] in kf:
            shown.add(v["key"])
        else:
            real.append(v)
    for k in sorted(shown):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[k]))
    cov = dict(samples=samples[:8] or ["(no case ran)"], exhaustive=bool(exhaustive and not errors and not failed_kinds))
    lf = LEVEL_FIELDS[c["level"]]
    for name, src in lf.items():
        cov[name] = tot[src]
    if c["level"] in ("exploration", "fault_enumeration"):
        cov["rule"] = c["rule"]
    else:
        cov["how"] = c["rule"]
    cov.update(parts=per, bounds=bounds, build_s=round(tb, 1))
    for k, v in extra.items():
        cov.setdefault(k, v)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=c["level"], coverage=cov,
              assumptions=c.get("assumptions", []), wall_s=round(time.time() - T0, 2), violations=len(real))
    if only is None:
        json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    if real:
        os.makedirs(os.path.join(EV, "replays"), exist_ok=True)
        for v in real[:6]:
            h = hashlib.sha1((v["part_name"] + v["key"]).encode()).hexdigest()[:10]
            path = os.path.join(EV, "replays", "%s-%s.json" % (pid, h))
            json.dump(dict(property=pid, tier=tier, **v), open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s | %s | %s" % (v["part_name"], v["key"], v["what"][:700]))
        return 1
    if errors:
        for p, rc, tail in errors:
            print("part %s could not run (exit %s): %s" % (p["name"], rc, tail))
        return 2
    print("%s %s: held on everything explored: %s in %.1f s" % (pid, tier, {k: cov[k] for k in lf}, time.time() - T0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
