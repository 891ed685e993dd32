//! C02: verify_proof accepts exactly the Groth16 equation.
use bellman::VerificationError;
use groth16::{prepare_verifying_key, verify_proof, Proof, VerifyingKey};
use ff::Field;
use mc::groth::*;
use mc::report::{guard, par_for, Ctx};
use mc::toy::*;

fn vk<const P: u64>(x: &[u64], ic: &[u64]) -> VerifyingKey<Toy<Fp<P>>> {
    let f = |i: usize| Fp::<P>(x[i]);
    VerifyingKey { alpha_g1: P1(f(0)), beta_g1: P1(f(1)), beta_g2: P2(f(1)), gamma_g2: P2(f(2)), delta_g1: P1(f(3)), delta_g2: P2(f(3)), ic: ic.iter().map(|v| P1(Fp(*v))).collect() }
}
fn digits(mut i: u64, p: u64, n: usize) -> Vec<u64> {
    (0..n).map(|_| { let r = i % p; i /= p; r }).collect()
}
/// Every vk x proof x input list over F_P with n inputs.
fn all<const P: u64>(cx: &Ctx, n: usize, th: usize) {
    let nv = P.pow(4);
    par_for(nv as usize, th, |k| {
        let kd = digits(k as u64, P, 4);
        let (mut st, mut acc) = (0u64, 0u64);
        for ici in 0..P.pow(n as u32 + 1) {
            let ic = digits(ici, P, n + 1);
            let vk = vk::<P>(&kd, &ic);
            // beta_g1 and delta_g1 are prover elements: they must not matter
            let mut vk2 = vk.clone();
            vk2.beta_g1 = P1(vk.beta_g1.0 + Fp(1));
            vk2.delta_g1 = P1(vk.delta_g1.0 + Fp(1));
            let pvk = prepare_verifying_key(&vk2);
            for pi in 0..P.pow(3) {
                let d = digits(pi, P, 3);
                let proof = Proof::<Toy<Fp<P>>> { a: P1(Fp(d[0])), b: P2(Fp(d[1])), c: P1(Fp(d[2])) };
                for ii in 0..P.pow(n as u32) {
                    let inp: Vec<Fp<P>> = digits(ii, P, n).into_iter().map(Fp).collect();
                    st += 1;
                    let got = guard(|| verify_proof(&pvk, &proof, &inp));
                    let want = equation(&vk, &proof, &inp);
                    let ok = matches!((&got, want), (Ok(Ok(())), true) | (Ok(Err(VerificationError::InvalidProof)), false));
                    if want { acc += 1; }
                    if !ok && !cx.failed() {
                        cx.violation(format!("F{} vk={:?} ic={:?} proof={:?} inputs={:?}", P, kd, ic, d, inp), format!("got {:?}, equation holds: {}", got, want));
                    }
                }
            }
        }
        cx.states(st);
        cx.trans(st + P.pow(n as u32 + 1));
        cx.count("accepted", acc);
        cx.traces_add(st);
    });
    cx.bound(&format!("F{} n={}", P, n), "every verifying key, every triple of group elements, every input list");
}
fn lengths(cx: &Ctx) {
    type F = F97;
    for icl in 0..=5usize {
        for n in 0..=5usize {
            for z in 0..3u64 {
                cx.check(2, || format!("ic length {} with {} inputs (value {})", icl, n, z), || {
                    let vk = vk::<97>(&[2, 3, 5, 7], &(0..icl as u64).map(|i| i * z).collect::<Vec<_>>());
                    let pvk = prepare_verifying_key(&vk);
                    let inp = vec![F::new(z); n];
                    for c in 0..97u64 {
                        let proof = Proof::<Toy<F>> { a: P1(Fp(1)), b: P2(Fp(1)), c: P1(Fp(c)) };
                        let r = verify_proof(&pvk, &proof, &inp);
                        if n + 1 != icl {
                            if !matches!(r, Err(VerificationError::InvalidVerifyingKey)) { return Err(format!("{:?} instead of InvalidVerifyingKey", r)); }
                        } else if r.is_ok() != equation(&vk, &proof, &inp) || matches!(r, Err(VerificationError::InvalidVerifyingKey)) {
                            return Err(format!("{:?}, equation {}", r, equation(&vk, &proof, &inp)));
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    cx.bound("lengths", "every ic length 0..5 with every number of inputs 0..5");
}
/// Longer input lists: each single position must carry its own weight.
fn wide(cx: &Ctx, th: usize) {
    type F = Gold;
    let mut sizes: Vec<usize> = (0..=cx.tier(40usize, 140)).collect();
    sizes.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]);
    if cx.thorough { sizes.extend([511, 512, 513, 1023, 1024, 1025]); }
    sizes.sort_unstable();
    sizes.dedup();
    par_for(sizes.len(), th, |s| {
        let n = sizes[s];
        for j in 0..=n {
            cx.check(4, || format!("{} inputs, position {}", n, j), || {
                let mut r = SplitMix((n * 100 + j) as u64);
                let mut f = || F::random(&mut r);
                let (al, be, ga, de) = (f(), f(), f(), f());
                let ic: Vec<P1<F>> = (0..=n).map(|_| P1(f())).collect();
                let vk = VerifyingKey::<Toy<F>> { alpha_g1: P1(al), beta_g1: P1(be), beta_g2: P2(be), gamma_g2: P2(ga), delta_g1: P1(de), delta_g2: P2(de), ic };
                let mut inp: Vec<F> = (0..n).map(|_| f()).collect();
                let (a, b) = (f(), f());
                let icv = vk.ic[0].0 + vk.ic[1..].iter().zip(&inp).map(|(c, i)| c.0 * i).sum::<F>();
                let c = (a * b - al * be - icv * ga) * de.invert().unwrap();
                let proof = Proof { a: P1(a), b: P2(b), c: P1(c) };
                let pvk = prepare_verifying_key(&vk);
                if verify_proof(&pvk, &proof, &inp).is_err() { return Err("valid proof rejected".into()); }
                if j < n {
                    inp[j] += F::ONE;
                    if verify_proof(&pvk, &proof, &inp).is_ok() { return Err("altered input accepted".into()); }
                    inp[j] -= F::ONE;
                    if n >= 2 {
                        let k = (j + 1) % n;
                        inp.swap(j, k);
                        if inp[j] != inp[k] && verify_proof(&pvk, &proof, &inp).is_ok() { return Err("swapped inputs accepted".into()); }
                    }
                }
                for d in 0..3 {
                    let mut p = proof.clone();
                    match d { 0 => p.a.0 = -p.a.0, 1 => p.b.0 = -p.b.0, _ => p.c.0 = -p.c.0 }
                    if verify_proof(&pvk, &p, &inp).is_ok() { return Err("negated proof element accepted".into()); }
                }
                Ok(())
            });
        }
    });
    cx.bound("wide", format!("{} numbers of inputs up to {}, every position altered / swapped", sizes.len(), sizes.last().unwrap()));
}
/// Inputs 0, 1, -1 against identity and other ic elements, in every combination; the triple made valid and made wrong.
fn special(cx: &Ctx, max: usize, th: usize) {
    type F = F97;
    for n in 1..=max {
        par_for(3usize.pow(n as u32), th, |i| {
            let inp: Vec<F> = (0..n).map(|k| [F::ZERO, F::ONE, -F::ONE][i / 3usize.pow(k as u32) % 3]).collect();
            cx.check(12 << (n + 1), || format!("inputs {:?}", inp), || {
                for mask in 0..1u64 << (n + 1) {
                    // identities where the mask says so; elsewhere all different, or all the same
                    for eq in [false, true] {
                        let ic: Vec<u64> = (0..=n as u64).map(|k| if mask >> k & 1 == 1 { 0 } else if eq { 4 } else { 3 + 7 * k }).collect();
                        let vk = vk::<97>(&[2, 3, 5, 7], &ic);
                        let pvk = prepare_verifying_key(&vk);
                        let icv = Fp::<97>(ic[0]) + ic[1..].iter().zip(&inp).map(|(c, i)| Fp::<97>(*c) * i).sum::<F>();
                        for (a, b) in [(11u64, 13u64), (0, 0), (2, 3)] {
                            let c = (Fp::<97>(a) * Fp(b) - Fp::<97>(6) - icv * Fp::<97>(5)) * Fp::<97>(7).invert().unwrap();
                            for (d, want) in [(F::ZERO, true), (F::ONE, false), (-c, c == F::ZERO)] {
                                let r = verify_proof(&pvk, &Proof::<Toy<F>> { a: P1(Fp(a)), b: P2(Fp(b)), c: P1(c + d) }, &inp);
                                if !matches!((&r, want), (Ok(()), true) | (Err(VerificationError::InvalidProof), false)) { return Err(format!("ic {:?}, A {} B {} C {:?}: {:?}, equation {}", ic, a, b, c + d, r, want)); }
                            }
                        }
                    }
                }
                Ok(())
            });
        });
    }
    cx.bound("special", format!("1..{} inputs: every list over 0, 1, -1 with every set of identity ic elements", max));
}
/// The same over BLS12-381: every key, triple and input with discrete logarithms in a small set.
fn real(cx: &Ctx, th: usize) {
    use bls12_381::{Bls12, G1Affine, G2Affine, G1Projective, G2Projective};
    use group::{Curve, Group};
    type S = Bls;
    let g1 = |x: S| -> G1Affine { (G1Projective::generator() * x).to_affine() };
    let g2 = |x: S| -> G2Affine { (G2Projective::generator() * x).to_affine() };
    let vals = [S::ZERO, S::ONE, -S::ONE, S::from(5)];
    let keys: Vec<[S; 4]> = vec![[2u64, 3, 5, 7].map(S::from), [S::ZERO, S::from(3), S::ONE, -S::ONE], [S::ONE; 4], [S::from(2), -S::ONE, S::ZERO, S::ONE]];
    let nk = cx.tier(2, 4);
    for n in 0..=2usize {
        par_for(nk * 4usize.pow(n as u32), th, |i| {
            let k = keys[i % nk];
            let inp: Vec<S> = (0..n).map(|j| vals[i / nk / 4usize.pow(j as u32) % 4]).collect();
            cx.check(8, || format!("BLS12-381 key {:?} inputs {:?}", k, inp), || {
                for ic0 in 0..2 {
                    let ic: Vec<S> = (0..=n).map(|j| if j == ic0 { S::ZERO } else { S::from(9 + j as u64) }).collect();
                    let vk = VerifyingKey::<Bls12> { alpha_g1: g1(k[0]), beta_g1: g1(k[1]), beta_g2: g2(k[1]), gamma_g2: g2(k[2]), delta_g1: g1(k[3]), delta_g2: g2(k[3]), ic: ic.iter().map(|x| g1(*x)).collect() };
                    let pvk = prepare_verifying_key(&vk);
                    let icv = ic[0] + ic[1..].iter().zip(&inp).map(|(c, i)| c * i).sum::<S>();
                    for (a, b) in [(S::from(11), S::from(13)), (S::ZERO, S::ONE), (k[0], k[1])] {
                        let c = (a * b - k[0] * k[1] - icv * k[2]) * k[3].invert().unwrap();
                        for d in [S::ZERO, S::ONE, -c] {
                            let c = c + d;
                            let want = a * b == k[0] * k[1] + icv * k[2] + c * k[3];
                            let r = verify_proof(&pvk, &Proof::<Bls12> { a: g1(a), b: g2(b), c: g1(c) }, &inp);
                            if !matches!((&r, want), (Ok(()), true) | (Err(VerificationError::InvalidProof), false)) { return Err(format!("A {:?} B {:?} C {:?}: {:?}, equation {}", a, b, c, r, want)); }
                        }
                    }
                    for l in 0..n + 3 { if l != n { match verify_proof(&pvk, &Proof::<Bls12> { a: g1(S::ONE), b: g2(S::ONE), c: g1(S::ONE) }, &vec![S::ONE; l]) { Err(VerificationError::InvalidVerifyingKey) => {} r => return Err(format!("{} inputs: {:?}", l, r)) } } }
                }
                Ok(())
            });
        });
    }
    cx.bound("BLS12-381", format!("{} keys, all inputs over four values to length 2, valid and invalid triples with identities", nk));
}
fn main() {
    let cx = Ctx::new("C02");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match cx.part.as_str() {
        "all" => {
            all::<3>(&cx, 0, th);
            all::<3>(&cx, 1, th);
            all::<3>(&cx, 2, th);
            all::<5>(&cx, 0, th);
            all::<5>(&cx, 1, th);
            all::<7>(&cx, 0, th);
            all::<7>(&cx, 1, th);
            if cx.thorough { all::<3>(&cx, 3, th); all::<11>(&cx, 0, th); all::<5>(&cx, 2, th); }
        }
        "lengths" => { lengths(&cx); wide(&cx, th); }
        "special" => special(&cx, cx.tier(5, 7), th),
        "real" => real(&cx, th),
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| format!("part {}: verify_proof(prepare(vk), (A,B,C), inputs) against e(A,B) = e(alpha,beta) + e(IC,gamma) + e(C,delta)", cx.part));
    cx.finish();
}
