#!/usr/bin/env python3
"""Writes the three harness manifests (par / ser / sched) from one description."""
import os
here = os.path.dirname(os.path.abspath(__file__))
bins = sorted(f[:-3] for f in os.listdir(os.path.join(here, "src/bin")) if f.endswith(".rs"))
SCHED_ONLY = {"s06", "s07", "s12", "s13"}  # built against ../shim instead of rayon-core and crossbeam-channel
def manifest(kind):
    deps = {
        "par": 'bellman = { path = "/repo" }\ngroth16 = { path = "../mirror/groth16_mc" }\nrayon = "1.5.1"\n',
        "ser": 'bellman = { path = "../mirror/bellman_ser" }\ngroth16 = { path = "../mirror/groth16_ser" }\n',
        "sched": 'bellman = { path = "/repo" }\ngroth16 = { path = "../mirror/groth16_mc" }\nrayon = "1.5.1"\nrayon-core = "1"\ncrossbeam-channel = "0.5.1"\nmcsched = { path = "../shim/mcsched" }\n',
    }[kind]
    feats = {"par": 'default = ["par"]\npar = []\nser = []\nsched = []\nmcbatch = ["groth16/multicore"]\n',
             "ser": 'default = ["ser"]\npar = []\nser = []\nsched = []\nmcbatch = []\n',
             "sched": 'default = ["sched"]\npar = []\nser = []\nsched = []\nmcbatch = ["groth16/multicore"]\n'}[kind]
    s = f'''# generated by ../gen_manifests.py
[package]
name = "mc-{kind}"
version = "0.1.0"
edition = "2021"
autobins = false
[workspace]
[lib]
name = "mc"
path = "../src/lib.rs"
[features]
{feats}
[dependencies]
{deps}ff = "0.13"
group = "0.13"
pairing = "0.23"
rand_core = "0.6"
subtle = "2.2.1"
bitvec = "1"
bls12_381 = "0.8"
sha2 = "0.10"
blake2s_simd = "1"
byteorder = "1"
[profile.release]
opt-level = 3
debug = 0
debug-assertions = true
overflow-checks = true
incremental = false
'''
    if kind == "sched":
        s += '''[patch.crates-io]
rayon-core = { path = "../shim/rayon-core" }
crossbeam-channel = { path = "../shim/crossbeam-channel" }
'''
    for b in bins:
        if (b in SCHED_ONLY) != (kind == "sched"):
            continue
        s += f'[[bin]]\nname = "{b}"\npath = "../src/bin/{b}.rs"\n'
    open(os.path.join(here, kind, "Cargo.toml"), "w").write(s)
for k in ("par", "ser", "sched"):
    manifest(k)
