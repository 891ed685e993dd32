#!/usr/bin/env python3
"""Planted bugs.  seedtool.py gen DEFS.py | verify ID... | all
gen: (re)writes seeded/<id>/ from definitions (edits to source text + demo source).
verify: in a scratch copy of /repo (/tmp/seedwork) checks that the patch applies, builds, passes the
stable tests and that demo.sh tells clean from patched."""
import json, os, shutil, subprocess, sys, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
W = os.environ.get("SEEDW", "/tmp/seedwork")
PRELUDE = r'''
#![allow(unused_imports, dead_code)]
use bellman::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use bls12_381::{Bls12, G1Affine, G1Projective, G2Affine, G2Projective, Scalar};
use ff::{Field, PrimeField, PrimeFieldBits};
use group::{Curve, Group, prime::PrimeCurveAffine};
use rand_core::{CryptoRng, RngCore};
use std::sync::Arc;
pub struct Rng(pub u64);
impl RngCore for Rng {
    fn next_u64(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let x = self.next_u64().to_le_bytes(); c.copy_from_slice(&x[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for Rng {}
fn params<C: Circuit<Scalar>>(c: C) -> Result<groth16::Parameters<Bls12>, SynthesisError> {
    groth16::generate_random_parameters::<Bls12, _, _>(c, &mut Rng(0x1234567))
}
'''
DEMO = '''#!/bin/bash
# cwd: /repo (built). Exit 0 when the property holds for this demonstration.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here"/*.rs "$d/src/"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
bellman = { path = "$repo"%(bfeat)s }
groth16 = { path = "$repo/groth16"%(gfeat)s }
bls12_381 = "0.8"
ff = "0.13"
group = "0.13"
pairing = "0.23"
rand_core = "0.6"
sha2 = "0.10"
blake2s_simd = "1"
rayon = "1.5.1"
subtle = "2"
[profile.release]
opt-level = 2
debug = 0
EOF
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
unset RUSTFLAGS
%(env)s
cd "$d" && cargo build --offline --release -q 2>"$d/log" || { tail -40 "$d/log"; exit 98; }
timeout %(timeout)d "$d/target/release/demo"
rc=$?
[ $rc -eq 0 ] || echo "demonstration failed: exit $rc"
exit $rc
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def gen(defs):
    for s in runpy.run_path(defs)["SEEDS"]:
        d = os.path.join(SEED, s["id"])
        os.makedirs(d, exist_ok=True)
        g = "/tmp/seedgen"
        shutil.rmtree(g, ignore_errors=True)
        sh("git -C /repo worktree prune; git clone -q /repo /tmp/seedgen")
        for f, old, new in s["edits"]:
            p = os.path.join(g, f)
            t = open(p).read()
            n = t.count(old)
            assert n == 1 or s.get("nth") is not None, (s["id"], f, n, old)
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /tmp/seedgen diff").stdout)
        shutil.rmtree(g)
        open(os.path.join(d, "main.rs"), "w").write("// Demonstration for property %s.\n" % s["property"] + ("" if s.get("raw") else PRELUDE.lstrip()) + s["demo"].lstrip())
        if "mod toy;" in s["demo"]:
            shutil.copy(os.path.join(HERE, "mc/src/toy.rs"), d)
        open(os.path.join(d, "demo.sh"), "w").write((DEMO.replace('groth16 = { path = "$repo/groth16"%(gfeat)s }\n', "") if s.get("raw") else DEMO) % dict(env=s.get("env", ":"), timeout=s.get("timeout", 120), bfeat=s.get("bfeat", ""), gfeat=s.get("gfeat", "")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("generated", s["id"])
def work():
    if not os.path.isdir(W):
        sh("cp -a /repo " + W)
    sh("git -C %s fetch -q /repo && git -C %s checkout -q -f FETCH_HEAD && git -C %s checkout -q -- ." % (W, W, W))
def verify(i):
    work()
    d = os.path.join(SEED, i)
    demo = W + "-demo"
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh(demo + "/demo.sh", cwd=W)
    if r.returncode != 0:
        print(i, "CLEAN DEMO FAILS", r.returncode, r.stdout[-1500:]); return False
    r = sh("git apply %s/patch.diff" % d, cwd=W)
    if r.returncode != 0:
        print(i, "PATCH DOES NOT APPLY", r.stdout); return False
    e = "export CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_TEST_OPT_LEVEL=2 RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true; "
    b = sh(e + "cargo test --workspace --all-features --no-run --offline --locked && cargo check -p bellman --lib --no-default-features --offline --locked", cwd=W)
    ok = True
    if b.returncode != 0:
        print(i, "DOES NOT BUILD", b.stdout[-1500:]); ok = False
    else:
        t = sh(e + "timeout 900 cargo test --workspace --all-features --lib --tests --no-fail-fast --offline --locked -- --test-threads 8 > %s-test.log 2>&1; grep -E '^test .*FAILED|^test result: FAILED' %s-test.log" % (W, W) + "", cwd=W)
        if t.stdout.strip():
            print(i, "TESTS FAIL", t.stdout[:1500]); ok = False
        r = sh(demo + "/demo.sh", cwd=W)
        if r.returncode == 0:
            print(i, "PATCHED DEMO PASSES", r.stdout[-500:]); ok = False
        elif r.returncode in (98, 99):
            print(i, "PATCHED DEMO DID NOT RUN", r.stdout[-1500:]); ok = False
        elif ok:
            print(i, "counts; patched demo exit", r.returncode, r.stdout.strip()[-200:].replace("\n", " | "))
    sh("git checkout -q -- .", cwd=W)
    shutil.rmtree(demo, ignore_errors=True)
    return ok
if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2])
    else:
        ids = sorted(os.listdir(SEED)) if sys.argv[2]=='all' else sys.argv[2:]
        res = {}
        for i in ids:
            res[i] = verify(i)
            sys.stdout.flush()
        bad = [i for i in res if not res[i]]
        print("bad:", bad)
