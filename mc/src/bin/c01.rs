//! C01: generate -> prove -> verify accepts every honest proof.
use groth16::{create_proof, generate_parameters, prepare_verifying_key, verify_proof};
use ff::{Field, PrimeField};
use mc::groth::*;
use mc::report::{par_for, Ctx};
use mc::toy::*;

fn honest<F: TF>(s: &Spec<F>, t: &Trap<F>, r: F, sc: F) -> Result<(), String> {
    let p = generate_parameters::<Toy<F>, _>(s.unknown(), P1(t.g1), P2(t.g2), t.alpha, t.beta, t.gamma, t.delta, t.tau).map_err(|e| format!("generation failed: {}", e))?;
    let proof = create_proof(s.clone(), &p, r, sc).map_err(|e| format!("proving failed: {}", e))?;
    let pvk = prepare_verifying_key(&p.vk);
    verify_proof(&pvk, &proof, &s.inp).map_err(|e| format!("honest proof rejected: {:?}", e))
}
fn show<F: TF>(s: &Spec<F>, t: &Trap<F>, r: F, sc: F) -> String {
    format!("order={:?} inp={:?} aux={:?} cons={:?} trap={:?} r={:?} s={:?}", s.order, s.inp, s.aux, s.cons, t, r, sc)
}
fn constrained<F: TF>(s: &Spec<F>) -> bool {
    (0..s.aux.len()).all(|i| s.cons.iter().any(|c| c.iter().any(|l| nlc(l).iter().any(|(v, _)| *v == aux(i)))))
}
fn family<F: TF>(cx: &Ctx, fam: Fam, th: usize) {
    circuits::<F>(fam, true, th, &|| cx.failed(), &|s, idx| {
        if !constrained(&s) {
            return;
        }
        for k in 0..2 {
            if let Some((t, _)) = pick_trap(&s, idx, k) {
                let (r, sc) = blinds::<F>()[(idx + k) % 7];
                cx.check(3, || show(&s, &t, r, sc), || honest(&s, &t, r, sc));
            }
        }
    });
    cx.bound(&format!("inputs={} private={} constraints={}", fam.ni, fam.na, fam.nc), format!("every satisfied circuit over the level-{} term library, {} witness values, {} allocation orders", fam.level, fam.alphabet, if fam.all_orders { "all" } else { "rotating" }));
}
/// Every trapdoor tau and every (r, s) for the given circuits.
fn traps_all<const P: u64>(cx: &Ctx, specs: &[Spec<Fp<P>>], rs_all: bool, th: usize) {
    mc::par_for(specs.len() * 7, th, |j| {
        let s = &specs[j / 7];
        let mut t = traps::<Fp<P>>()[j % 7].clone();
        for tau in Fp::<P>::all() {
            if cx.failed() { return; }
            t.tau = tau;
            let q = qap(s, tau);
            if t.gamma.0 == 0 || t.delta.0 == 0 || t.g1.0 == 0 || t.g2.0 == 0 || q.exceptional(&t) { continue; }
            if rs_all {
                for r in Fp::<P>::all() { for sc in Fp::<P>::all() {
                    cx.check(3, || show(s, &t, r, sc), || honest(s, &t, r, sc));
                } }
            } else {
                for (r, sc) in blinds() {
                    cx.check(3, || show(s, &t, r, sc), || honest(s, &t, r, sc));
                }
            }
        }
    });
    cx.bound(&format!("F{} trapdoors", P), format!("every tau with 7 settings of the other trapdoors, {} blinding pairs, {} circuits", if rs_all { "all" } else { "7" }, specs.len()));
}
fn real(cx: &Ctx, specs: &[Spec<Bls>]) {
    use bls12_381::{Bls12, G1Projective, G2Projective};
    use group::Group;
    for (i, s) in specs.iter().enumerate() {
        if cx.failed() { return; }
        cx.check(3, || format!("BLS12-381 chain {}", i), || {
            let mut r = SplitMix(i as u64 + 5);
            let mut f = || Bls::random(&mut r);
            let p = generate_parameters::<Bls12, _>(s.unknown(), G1Projective::generator() * f(), G2Projective::generator() * f(), f(), f(), f(), f(), f()).map_err(|e| format!("generation failed: {}", e))?;
            let proof = create_proof(s.clone(), &p, f(), f()).map_err(|e| format!("proving failed: {}", e))?;
            verify_proof(&prepare_verifying_key(&p.vk), &proof, &s.inp).map_err(|e| format!("honest proof rejected: {:?}", e))
        });
    }
    cx.bound("BLS12-381", format!("{} circuits end to end on the real pairing", specs.len()));
}
fn main() {
    let cx = Ctx::new("C01");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let fam = |ni, na, nc, level, all_orders, alphabet| Fam { ni, na, nc, level, all_orders, alphabet };
    match cx.part.as_str() {
        "one" => {
            for ni in 0..=2 { family::<F97>(&cx, fam(ni, 0, 0, 0, true, 3), th); }
            family::<F97>(&cx, fam(0, 1, 1, 2, true, 4), th);
            family::<F97>(&cx, fam(1, 0, 1, 2, true, 4), th);
            family::<F97>(&cx, fam(1, 1, 1, 2, true, cx.tier(3, 4)), th);
            family::<F97>(&cx, fam(0, 2, 1, 2, true, cx.tier(3, 4)), th);
            family::<F97>(&cx, fam(2, 0, 1, 2, true, 3), th);
        }
        "three" => {
            family::<F97>(&cx, fam(1, 2, 1, cx.tier(0, 1), true, cx.tier(2, 3)), th);
            family::<F97>(&cx, fam(2, 1, 1, cx.tier(0, 1), true, cx.tier(2, 3)), th);
            family::<F97>(&cx, fam(0, 3, 1, cx.tier(0, 1), true, cx.tier(2, 3)), th);
        }
        "two" => {
            family::<F97>(&cx, fam(0, 1, 2, cx.tier(0, 1), true, 4), th);
            family::<F97>(&cx, fam(1, 0, 2, 0, true, 3), th);
            family::<F193>(&cx, fam(1, 1, 2, 0, true, cx.tier(2, 3)), th);
            family::<F193>(&cx, fam(0, 2, 2, 0, true, cx.tier(2, 3)), th);
        }
        "chains" => {
            let mut n = 0;
            for ni in 0..=cx.tier(4, 9usize) { for na in 0..=cx.tier(7, 20usize) { for extra in 0..=cx.tier(9, 20usize) {
                if cx.failed() { break; }
                let s = chain::<F12289>(ni, na, na + extra, 1);
                if let Some((t, _)) = pick_trap(&s, n, 0) {
                    let (r, sc) = blinds::<F12289>()[n % 7];
                    cx.check(3, || format!("chain ni={} na={} nc={} {:?} r={:?} s={:?}", ni, na, na + extra, t, r, sc), || honest(&s, &t, r, sc));
                }
                n += 1;
            } } }
            for (ni, na, nc) in [(3usize, 60usize, 60usize), (0, 127, 127), (10, 117, 120), (63, 64, 64), (100, 30, 155), (1, 254, 300), (2, 600, 1021)] {
                let s = chain::<Gold>(ni, na, nc, 2);
                if let Some((t, _)) = pick_trap(&s, ni, 0) {
                    cx.check(3, || format!("long chain ni={} na={} nc={}", ni, na, nc), || honest(&s, &t, Gold::from(3u64), Gold::from(4u64)));
                }
            }
            cx.bound("chains", format!("{} circuits with 0..{} inputs, 0..{} private variables, up to 1024 constraints", n, cx.tier(4, 9), cx.tier(7, 20)));
        }
        "traps" => {
            let sp = |p: u64| { let _ = p; (0..cx.tier(4, 12)).map(|i| (i % 3, i % 4, 1 + i % 4 + i % 2)).collect::<Vec<(usize, usize, usize)>>() };
            let s97: Vec<Spec<F97>> = sp(97).iter().enumerate().map(|(i, (a, b, c))| chain(*a, *b, (*c).max(*b), i as u64)).collect();
            traps_all::<97>(&cx, &s97, false, th);
            let s17: Vec<Spec<F17>> = [(0, 1, 1), (1, 1, 1), (1, 0, 1), (0, 2, 2), (2, 1, 3)].iter().enumerate().map(|(i, (a, b, c))| chain(*a, *b, *c, i as u64 + 3)).collect();
            traps_all::<17>(&cx, &s17, true, th);
        }
        "real" => {
            let v: Vec<Spec<Bls>> = (0..cx.tier(4, 30usize)).map(|i| chain(i % 4, i % 5, i % 5 + i % 3, i as u64)).collect();
            real(&cx, &v);
        }
        "scale" => {
            let all = scale(cx.thorough);
            par_for(all.len(), th, |i| {
                let (name, s) = &all[all.len() - 1 - i];
                if cx.failed() { return; }
                let (t, _) = match pick_trap(s, i, 0) { Some(x) => x, None => { cx.violation(name.clone(), "no trapdoor found"); return; } };
                let t = &t;
                cx.check(1, || format!("{} {:?}", name, t), || honest(s, t, Gold::new(77), Gold::new(1 << 40)));
            });
            cx.bound("scale", format!("{} circuits: every domain size to 2^{} and its neighbours, combinations to 1,025 terms in four kinds of repetition, to 2,049 variables of a kind", all.len(), cx.tier(16, 18)));
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| format!("part {}: generate_parameters, create_proof, verify_proof of a satisfied circuit", cx.part));
    cx.finish();
}
