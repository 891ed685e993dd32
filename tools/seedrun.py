#!/usr/bin/env python3
"""seedrun.py [-o OUT.json] [-p] ID... | all : applies each planted bug to /repo, runs its property's quick check (and, with -p,
the checks named after the id as ID=C01,C02), undoes the patch, and prints which checks report it.  Uses /repo itself: run nothing else there."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
OUT = os.path.join(HERE, "target", "seedrun.json")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(a):
    out = OUT
    if a[0] == "-o": out, a = a[1], a[2:]
    ids = sorted(os.listdir(SEED)) if a == ["all"] else a
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
    res = json.load(open(out)) if os.path.exists(out) else {}
    for i in ids:
        i, _, ps = i.partition("=")
        d = os.path.join(SEED, i)
        ps = ps.split(",") if ps else [json.load(open(os.path.join(d, "meta.json")))["property"]]
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode: print(i, "does not apply", r.stdout); continue
        try:
            for p in ps:
                t = time.time()
                r = sh("python3 run_check.py %s quick" % p, cwd=HERE, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % p)]
                what = "caught" if r.returncode == 1 and v else "MISSED (exit %d)" % r.returncode
                res.setdefault(i, {})[p] = what
                print("%-28s %s %-16s %4.0fs %s" % (i, p, what, time.time() - t, (v[0][:160] if v else r.stdout[-300:].replace("\n", " | "))), flush=True)
        finally:
            sh("git -C /repo checkout -- .")
        json.dump(res, open(out, "w"), indent=1, sort_keys=True)
main(sys.argv[1:])
