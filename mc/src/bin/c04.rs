//! C04: create_proof against the Groth16 definition; violating witnesses; synthesis errors.
use ff::{Field, PrimeField};
use groth16::{create_proof, prepare_verifying_key, verify_proof};
use mc::groth::*;
use mc::report::{par_for, Ctx};
use mc::toy::*;

fn exact<F: TF>(s: &Spec<F>, q: &Qap<F>, t: &Trap<F>, r: F, sc: F) -> Result<(), String> {
    let p = model_params(q, t);
    let proof = create_proof(s.clone(), &p, r, sc).map_err(|e| format!("proving failed: {}", e))?;
    let want = model_proof(s, q, t, r, sc);
    if !proof_eq(&proof, &want) {
        return Err(format!("proof {:?}, definition gives {:?}", proof, want));
    }
    Ok(())
}
fn show<F: TF>(s: &Spec<F>, t: &Trap<F>, r: F, sc: F) -> String {
    format!("order={:?} inp={:?} aux={:?} cons={:?} trap={:?} r={:?} s={:?}", s.order, s.inp, s.aux, s.cons, t, r, sc)
}
fn constrained<F: TF>(s: &Spec<F>) -> bool {
    (0..s.aux.len()).all(|i| s.cons.iter().any(|c| c.iter().any(|l| nlc(l).iter().any(|(v, _)| *v == aux(i)))))
}
fn family<F: TF>(cx: &Ctx, fam: Fam, th: usize) {
    circuits::<F>(fam, true, th, &|| cx.failed(), &|s, idx| {
        if !constrained(&s) {
            return;
        }
        if let Some((t, q)) = pick_trap(&s, idx, 0) {
            let (r, sc) = blinds::<F>()[idx % 7];
            cx.check(1, || show(&s, &t, r, sc), || exact(&s, &q, &t, r, sc));
        }
    });
    cx.bound(&format!("exact: inputs={} private={} constraints={}", fam.ni, fam.na, fam.nc), format!("every satisfied circuit over the level-{} library, {} witness values", fam.level, fam.alphabet));
}
/// A violating assignment: over every tau, at most 2m-1 accept.
fn unsound<const P: u64>(cx: &Ctx, fam: Fam, stride: usize, th: usize) {
    circuits::<Fp<P>>(fam, false, th, &|| cx.failed(), &|s, idx| {
        if idx % stride != 0 || !constrained(&s) || s.violated().is_none() {
            return;
        }
        let t0 = traps::<Fp<P>>()[(idx / stride) % 5].clone();
        let (r, sc) = blinds::<Fp<P>>()[(idx / stride) % 7];
        cx.check(P * 2, || format!("violating {}", show(&s, &t0, r, sc)), || {
            let mut t = t0.clone();
            let mut acc = vec![];
            let mut m = 0;
            for tau in Fp::<P>::all() {
                t.tau = tau;
                let q = qap(&s, tau);
                m = q.m;
                if q.exceptional(&t) {
                    continue;
                }
                let p = model_params(&q, &t);
                if let Ok(proof) = create_proof(s.clone(), &p, r, sc) {
                    if verify_proof(&prepare_verifying_key(&p.vk), &proof, &s.inp).is_ok() {
                        acc.push(tau);
                    }
                }
            }
            if acc.len() > 2 * m - 1 {
                return Err(format!("accepted at {} of {} trapdoors (at most {} roots): {:?}", acc.len(), P, 2 * m - 1, acc));
            }
            Ok(())
        });
    });
    cx.bound(&format!("F{} violating: inputs={} private={} constraints={}", P, fam.ni, fam.na, fam.nc), format!("every {}-th violating circuit/assignment of the level-{} library at every tau", stride, fam.level));
}
fn traps_all<const P: u64>(cx: &Ctx, specs: &[Spec<Fp<P>>], th: usize) {
    par_for(specs.len() * P as usize, th, |j| {
        let s = &specs[j / P as usize];
        for mut t in traps::<Fp<P>>() {
            t.tau = Fp((j as u64) % P);
            let q = qap(s, t.tau);
            if t.delta.0 == 0 || t.gamma.0 == 0 || t.g1.0 == 0 || t.g2.0 == 0 || q.exceptional(&t) { continue; }
            for r in Fp::<P>::all() { for sc in Fp::<P>::all() {
                if cx.failed() { return; }
                cx.check(1, || show(s, &t, r, sc), || exact(s, &q, &t, r, sc));
            } }
        }
    });
    cx.bound(&format!("F{} exact", P), format!("every tau, every (r,s), 7 trapdoors, {} circuits", specs.len()));
}
fn faults(cx: &Ctx) {
    type F = F97;
    for (ni, na, nc) in [(0usize, 0usize, 1usize), (1, 1, 2), (2, 1, 1), (0, 2, 3), (3, 3, 3)] {
        let base = chain::<F>(ni, na, nc, 4);
        let (t, q) = pick_trap(&base, 1, 0).unwrap();
        let p = model_params(&q, &t);
        for step in 0..=(ni + na + nc) {
            for f in Fail::ALL {
                for inner in [false, true] {
                    let mut s = base.clone();
                    s.fail = Some((step, f.clone(), inner));
                    cx.check(1, || format!("faults {} {} {} {:?}", ni, na, nc, s.fail), || match create_proof(s.clone(), &p, F::new(3), F::new(4)) {
                        Err(e) if f.is(&e) => Ok(()),
                        Err(e) => Err(format!("error {:?} reported as {}", f, e)),
                        Ok(_) => Err("proof produced although synthesis failed".into()),
                    });
                }
            }
        }
        cx.check(1, || format!("unknown witness {} {} {}", ni, na, nc), || match create_proof(base.unknown(), &p, F::new(3), F::new(4)) {
            Err(e) if ni + na > 0 && Fail::Missing.is(&e) => Ok(()),
            Ok(_) if ni + na == 0 => Ok(()),
            r => Err(format!("unexpected {:?}", r.map_err(|e| e.to_string()))),
        });
    }
    cx.bound("faults", "every synthesis step failing with every error kind, inside and outside the value closure");
}
fn main() {
    let cx = Ctx::new("C04");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let fam = |ni, na, nc, level, all_orders, alphabet| Fam { ni, na, nc, level, all_orders, alphabet };
    match cx.part.as_str() {
        "one" => {
            for ni in 0..=3 { family::<F97>(&cx, fam(ni, 0, 0, 0, true, 3), th); }
            family::<F97>(&cx, fam(0, 1, 1, 2, true, 4), th);
            family::<F97>(&cx, fam(1, 0, 1, 2, true, 4), th);
            family::<F97>(&cx, fam(1, 1, 1, 2, true, 4), th);
            family::<F97>(&cx, fam(0, 2, 1, 2, true, 3), th);
            family::<F97>(&cx, fam(1, 2, 1, cx.tier(0, 1), true, cx.tier(2, 3)), th);
            family::<F97>(&cx, fam(2, 1, 1, cx.tier(0, 1), true, cx.tier(2, 3)), th);
        }
        "two" => {
            family::<F97>(&cx, fam(0, 1, 2, cx.tier(0, 1), true, 4), th);
            family::<F193>(&cx, fam(1, 1, 2, 0, true, cx.tier(2, 3)), th);
        }
        "violating" => {
            unsound::<97>(&cx, fam(0, 1, 1, 1, true, 3), 1, th);
            unsound::<97>(&cx, fam(1, 0, 1, 1, true, 3), 1, th);
            unsound::<97>(&cx, fam(1, 1, 1, cx.tier(0, 1), true, 3), 1, th);
            unsound::<193>(&cx, fam(1, 1, 2, 0, true, 2), cx.tier(97, 7), th);
        }
        "traps" => {
            let s17: Vec<Spec<F17>> = [(0, 0, 1), (0, 1, 1), (1, 1, 1), (1, 0, 1), (0, 2, 2), (2, 1, 3)].iter().enumerate().map(|(i, (a, b, c))| chain(*a, *b, *c, i as u64 + 3)).collect();
            traps_all::<17>(&cx, &s17, th);
        }
        "chains" => {
            let mut n = 0usize;
            for ni in 0..=cx.tier(4, 10usize) { for na in 0..=cx.tier(8, 20usize) { for extra in [0usize, 1, 2, 3, 5, 9] {
                if cx.failed() { break; }
                let s = chain::<F12289>(ni, na, na + extra, 9);
                if let Some((t, q)) = pick_trap(&s, n, 0) {
                    let (r, sc) = blinds::<F12289>()[n % 7];
                    cx.check(1, || format!("chain {} {} {} {:?} {:?} {:?}", ni, na, na + extra, t, r, sc), || exact(&s, &q, &t, r, sc));
                }
                n += 1;
            } } }
            for (ni, na, nc) in [(3usize, 60usize, 60usize), (0, 127, 127), (63, 64, 64), (100, 30, 155), (1, 254, 300), (2, 600, 700)] {
                let s = chain::<Gold>(ni, na, nc, 2);
                let (t, q) = pick_trap(&s, 5, 0).unwrap();
                cx.check(1, || format!("long chain {} {} {}", ni, na, nc), || exact(&s, &q, &t, Gold::new(77), Gold::new(99)));
            }
            cx.bound("chains", format!("{} circuits", n));
            faults(&cx);
        }
        "scale" => {
            let all = scale(cx.thorough);
            par_for(all.len(), th, |i| {
                let (name, s) = &all[all.len() - 1 - i];
                if cx.failed() { return; }
                let (t, q) = match pick_trap(s, i, 0) { Some(x) => x, None => { cx.violation(name.clone(), "no trapdoor found"); return; } };
                let t = &t;
                let q = &q;
                cx.check(1, || format!("{} {:?}", name, t), || exact(s, q, t, Gold::new(77), Gold::new(1 << 40)));
            });
            cx.bound("scale", format!("{} circuits: every domain size to 2^{} and its neighbours, combinations to 1,025 terms in four kinds of repetition, to 2,049 variables of a kind", all.len(), cx.tier(16, 18)));
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| format!("part {}: create_proof with model parameters compared with A, B, C of the definition", cx.part));
    cx.finish();
}
