//! C07: batch verification against the randomised batch equation.
use bellman::VerificationError;
use ff::{Field, PrimeField};
use groth16::{batch, prepare_verifying_key, verify_proof, Proof, VerifyingKey};
use mc::groth::*;
use mc::report::{par_for, Ctx};
use mc::toy::*;

type Vk<F> = VerifyingKey<Toy<F>>;
fn vk<F: TF>(al: F, be: F, ga: F, de: F, ic: &[F]) -> Vk<F> {
    VerifyingKey { alpha_g1: P1(al), beta_g1: P1(be), beta_g2: P2(be), gamma_g2: P2(ga), delta_g1: P1(de), delta_g2: P2(de), ic: ic.iter().map(|x| P1(*x)).collect() }
}
/// e(A,B) - e(alpha,beta) - e(IC,gamma) - e(C,delta)
fn err<F: TF>(vk: &Vk<F>, p: &Proof<Toy<F>>, inp: &[F]) -> F {
    let ic = vk.ic[0].0 + vk.ic[1..].iter().zip(inp).map(|(c, i)| c.0 * i).sum::<F>();
    p.a.0 * p.b.0 - vk.alpha_g1.0 * vk.beta_g2.0 - ic * vk.gamma_g2.0 - p.c.0 * vk.delta_g2.0
}
fn run<F: TF>(vk: &Vk<F>, items: &[(Proof<Toy<F>>, Vec<F>)], script: Vec<u64>) -> (Result<(), VerificationError>, usize) {
    let mut v = batch::Verifier::new();
    for (p, i) in items {
        v.queue((p, &i[..]));
    }
    let mut rng = ScriptRng::new(script);
    let r = v.verify(&mut rng, vk);
    (r, rng.pos)
}
fn judge<F: TF>(vk: &Vk<F>, items: &[(Proof<Toy<F>>, Vec<F>)], script: &[u64], padded: Vec<u64>) -> Result<(), String> {
    let n = padded.len();
    let (got, used) = run(vk, items, padded);
    if items.iter().any(|(_, i)| i.len() + 1 != vk.ic.len()) {
        return match got {
            Err(VerificationError::InvalidVerifyingKey) => Ok(()),
            r => Err(format!("{:?} although an item has the wrong number of inputs", r)),
        };
    }
    if used != n {
        return Err(format!("{} draws used of {}", used, n));
    }
    let sum: F = items.iter().zip(script).map(|((p, i), z)| err(vk, p, i) * F::from(*z)).sum();
    match (got, sum.is_zero_vartime()) {
        (Ok(()), true) | (Err(VerificationError::InvalidProof), false) => Ok(()),
        (r, z) => Err(format!("{:?}, but the batch equation holds: {}", r, z)),
    }
}
/// Every list of up to k proofs over F_P with every coefficient script.
fn all<const P: u64>(cx: &Ctx, k: usize, vks: &[Vk<Fp<P>>], th: usize) {
    // all proofs, one public input
    let proofs: Vec<Proof<Toy<Fp<P>>>> = (0..P.pow(3)).map(|i| Proof { a: P1(Fp(i % P)), b: P2(Fp(i / P % P)), c: P1(Fp(i / P / P)) }).collect();
    let np = proofs.len() * P as usize;
    par_for(vks.len() * np.pow(k as u32), th, |j| {
        if cx.failed() { return; }
        let vk = &vks[j % vks.len()];
        let mut x = j / vks.len();
        let items: Vec<_> = (0..k).map(|_| { let i = x % np; x /= np; (proofs[i / P as usize].clone(), vec![Fp::<P>((i as u64) % P)]) }).collect();
        for code in 0..(P - 1).pow(k as u32) {
            let mut c = code;
            let zs: Vec<u64> = (0..k).map(|_| { let z = 1 + c % (P - 1); c /= P - 1; z }).collect();
            cx.check(1, || format!("F{} vk#{} items={:?} z={:?}", P, j % vks.len(), items.iter().map(|(p, i)| (p.a.0, p.b.0, p.c.0, i[0])).collect::<Vec<_>>(), zs), || judge(vk, &items, &zs, zs.clone()));
        }
    });
    cx.bound(&format!("F{} batches of {}", P, k), format!("every list of proofs and inputs, every coefficient vector, {} keys", vks.len()));
}
/// Zero draws are rejected wherever they occur; lengths; agreement with single verification.
fn structure(cx: &Ctx) {
    type F = F97;
    let mk = |n: usize, ni: usize, bad: &[usize]| -> (Vk<F>, Vec<(Proof<Toy<F>>, Vec<F>)>) {
        let mut r = SplitMix((n * 10 + ni) as u64);
        let mut f = || F::new(1 + r.next() % 96);
        let k = vk(f(), f(), f(), f(), &(0..=ni).map(|_| f()).collect::<Vec<_>>());
        let items = (0..n)
            .map(|i| {
                let inp: Vec<F> = (0..ni).map(|_| f()).collect();
                let (a, b) = (f(), f());
                let mut p = Proof { a: P1(a), b: P2(b), c: P1(F::ZERO) };
                let e = err(&k, &p, &inp);
                p.c.0 = e * k.delta_g2.0.invert().unwrap();
                if bad.contains(&i) {
                    p.c.0 += F::ONE;
                }
                (p, inp)
            })
            .collect();
        (k, items)
    };
    for n in 0..=cx.tier(6usize, 12) {
        for ni in 0..=3 {
            for badmask in 0..(1u32 << n.min(8)) {
                let bad: Vec<usize> = (0..n).filter(|i| badmask >> i & 1 == 1).collect();
                let (k, items) = mk(n, ni, &bad);
                if cx.failed() { return; }
                let zs: Vec<u64> = (0..n as u64).map(|i| 1 + (i * 29 + 3) % 96).collect();
                cx.check(n as u64, || format!("n={} ni={} bad={:?}", n, ni, bad), || {
                    judge(&k, &items, &zs, zs.clone())?;
                    // a zero draw before any one coefficient is skipped
                    for z in 0..n {
                        for times in 1..3 {
                            let mut p = zs.clone();
                            for _ in 0..times { p.insert(z, 0); }
                            judge(&k, &items, &zs, p).map_err(|e| format!("zero draw at {}: {}", z, e))?;
                        }
                    }
                    let pvk = prepare_verifying_key(&k);
                    for (i, (p, inp)) in items.iter().enumerate() {
                        let item: batch::Item<Toy<F>> = (p.clone(), inp.clone()).into();
                        let a = item.clone().verify_single(&pvk);
                        let b = verify_proof(&pvk, p, inp);
                        if a.is_ok() != b.is_ok() || a.is_ok() == bad.contains(&i) { return Err(format!("verify_single of item {} is {:?}", i, a)); }
                    }
                    Ok(())
                });
            }
            // one item with another number of inputs, at every position
            for pos in 0..n {
                for d in [-2i32, -1, 1, 2] {
                    let (k, mut items) = mk(n, ni, &[]);
                    let l = ni as i32 + d;
                    if l < 0 { continue; }
                    items[pos].1.resize(l as usize, F::new(0));
                    cx.check(1, || format!("n={} ni={} item {} has {} inputs", n, ni, pos, l), || judge(&k, &items, &[], vec![1; n]));
                    cx.check(1, || format!("single n={} ni={} item {} has {} inputs", n, ni, pos, l), || {
                        let item: batch::Item<Toy<F>> = (items[pos].0.clone(), items[pos].1.clone()).into();
                        match item.verify_single(&prepare_verifying_key(&k)) {
                            Err(VerificationError::InvalidVerifyingKey) => Ok(()),
                            r => Err(format!("{:?}", r)),
                        }
                    });
                }
            }
        }
    }
    // coefficients are independent: for one bad item, and for two, count the accepting scripts
    for (n, bad) in [(1usize, vec![0usize]), (2, vec![0]), (2, vec![1]), (2, vec![0, 1]), (3, vec![0, 2])] {
        let (k, items) = mk(n, 1, &bad);
        cx.check(96u64.pow(n.min(2) as u32), || format!("accepting scripts n={} bad={:?}", n, bad), || {
            let mut acc = 0;
            for code in 0..96u64.pow(n.min(2) as u32) {
                let mut s = vec![1 + code % 96, 1 + code / 96];
                s.truncate(n);
                while s.len() < n { s.push(1 + (code / 7) % 96); }
                if run(&k, &items, s).0.is_ok() { acc += 1; }
            }
            let lim = if bad.len() == 1 { 0 } else { 96 };
            if acc > lim { Err(format!("{} scripts accept, at most {} may", acc, lim)) } else { Ok(()) }
        });
    }
    cx.bound("structure", "batches of 0..6 with every subset invalid, every zero-draw position, every wrong-length position");
}
/// Large batches and long input lists: every single position wrong in each of its parts, the serial verifier and each item alone.
fn large(cx: &Ctx, th: usize) {
    type F = F97;
    let mut shapes: Vec<(usize, usize)> = (0..=33).map(|n| (n, 2)).collect();
    shapes.extend([63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 258, 300].map(|n| (n, 1)));
    shapes.extend((4..=40).map(|ni| (3, ni)));
    shapes.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 300].map(|ni| (2, ni)));
    if cx.thorough { shapes.extend([511, 512, 513, 1023, 1024, 1025].map(|n| (n, 1))); shapes.extend([511, 512, 513, 1023, 1024, 1025].map(|n| (1, n))); }
    par_for(shapes.len(), th, |s| {
        let (n, ni) = shapes[shapes.len() - 1 - s];
        let mut r = SplitMix((n * 1000 + ni) as u64);
        let mut f = || F::new(1 + r.next() % 96);
        let k = vk(f(), f(), f(), f(), &(0..=ni).map(|_| f()).collect::<Vec<_>>());
        let items: Vec<_> = (0..n).map(|_| {
            let inp: Vec<F> = (0..ni).map(|_| f()).collect();
            let mut p: Proof<Toy<F>> = Proof { a: P1(f()), b: P2(f()), c: P1(F::ZERO) };
            p.c.0 = err(&k, &p, &inp) * k.delta_g2.0.invert().unwrap();
            (p, inp)
        }).collect();
        let pvk = prepare_verifying_key(&k);
        for (zi, zs) in [(0..n as u64).map(|i| 1 + (i * 29 + 3) % 96).collect::<Vec<_>>(), vec![1; n], (0..n as u64).map(|i| if i % 2 == 0 { 1 } else { 96 }).collect()].into_iter().enumerate() {
            if cx.failed() { return; }
            cx.check(1, || format!("{} items with {} inputs, coefficients #{}", n, ni, zi), || judge(&k, &items, &zs, zs.clone()));
            for pos in 0..n {
                cx.check(4, || format!("{} items with {} inputs, item {} wrong, coefficients #{}", n, ni, pos, zi), || {
                    let parts = if zi == 0 { 3 + ni } else { 3 };
                    for part in 0..parts {
                        let mut it = items.clone();
                        match part { 0 => it[pos].0.a.0 += F::ONE, 1 => it[pos].0.b.0 += F::ONE, 2 => it[pos].0.c.0 += F::ONE, j => it[pos].1[j - 3] += F::ONE }
                        judge(&k, &it, &zs, zs.clone()).map_err(|e| format!("part {}: {}", part, e))?;
                        if zi == 0 {
                            let item: batch::Item<Toy<F>> = it[pos].clone().into();
                            match item.verify_single(&pvk) { Err(VerificationError::InvalidProof) => {} r => return Err(format!("part {}: alone {:?}", part, r)) }
                        }
                    }
                    if zi == 0 {
                        for l in [0, ni.saturating_sub(1), ni + 1, 2 * ni + 1] {
                            if l == ni { continue; }
                            let mut it = items.clone();
                            it[pos].1.resize(l, F::ONE);
                            judge(&k, &it, &[], vec![1; n]).map_err(|e| format!("{} inputs: {}", l, e))?;
                        }
                        let item: batch::Item<Toy<F>> = items[pos].clone().into();
                        if item.verify_single(&pvk).is_err() { return Err("a valid item is refused alone".into()); }
                        // a draw of zero before this item's coefficient
                        let mut p = zs.clone();
                        p.insert(pos, 0);
                        judge(&k, &items, &zs, p)?;
                    }
                    Ok(())
                });
            }
        }
    });
    cx.bound("large", format!("{} shapes up to {} items and up to {} inputs, every position wrong", shapes.len(), shapes.iter().map(|x| x.0).max().unwrap(), shapes.iter().map(|x| x.1).max().unwrap()));
}
#[cfg(feature = "mcbatch")]
fn batch_of<F: TF>(n: usize, el: impl Fn(u64) -> F) -> (Vk<F>, Vec<(Proof<Toy<F>>, Vec<F>)>) {
    let mut r = SplitMix(n as u64);
    let mut f = || loop {
        let x = el(r.next());
        if !x.is_zero_vartime() {
            return x;
        }
    };
    let k = vk(f(), f(), f(), f(), &[f(), f(), f()]);
    let items = (0..n)
        .map(|_| {
            let inp = vec![f(), f()];
            let mut p: Proof<Toy<F>> = Proof { a: P1(f()), b: P2(f()), c: P1(F::ZERO) };
            p.c.0 = err(&k, &p, &inp) * k.delta_g2.0.invert().unwrap();
            (p, inp)
        })
        .collect();
    (k, items)
}
#[cfg(feature = "mcbatch")]
fn run_mc<F: TF>(k: &Vk<F>, items: &[(Proof<Toy<F>>, Vec<F>)]) -> Result<(), VerificationError> {
    let mut v = batch::Verifier::new();
    for (p, i) in items {
        v.queue((p.clone(), i.clone()));
    }
    v.verify_multicore(k)
}
#[cfg(feature = "mcbatch")]
fn multicore(cx: &Ctx) {
    type F = F97;
    // Over F97, with every non-zero draw (sometimes after draws of zero): a valid batch is accepted,
    // a batch with one bad item is refused, whatever the coefficient.
    for n in [0usize, 1, 2, 7, 8, 9, 15, 16, 17, 24, 25, 40, 63, 64, 65, 100, 129] {
        for bad in std::iter::once(None).chain((0..n).map(Some)) {
            if cx.failed() { return; }
            let (k, mut items) = batch_of::<F>(n, |x| F::new(x % 97));
            if let Some(i) = bad { items[i].0.c.0 += F::new(1 + i as u64 % 96); }
            cx.check(288, || format!("multicore n={} bad={:?}", n, bad), || {
                for z in (1..97u64).step_by(if n > 40 { 19 } else { 1 }) {
                    for s in [vec![z], vec![0, z], vec![0, 0, z]] {
                        oracle::constant(s.clone());
                        let got = run_mc(&k, &items);
                        oracle::off();
                        match (&got, bad) {
                            (Ok(()), None) | (Err(VerificationError::InvalidProof), Some(_)) => {}
                            _ => return Err(format!("{:?} with draws {:?}", got, s)),
                        }
                    }
                }
                Ok(())
            });
        }
        let (k, items) = batch_of::<F>(n, |x| F::new(x % 97));
        for pos in 0..n {
            for (what, l) in [("short", 1usize), ("long", 3), ("empty", 0)] {
                let mut it = items.clone();
                it[pos].1.resize(l, F::ONE);
                cx.check(1, || format!("multicore n={} {} item {}", n, what, pos), || match run_mc(&k, &it) { Err(VerificationError::InvalidVerifyingKey) => Ok(()), r => Err(format!("{:?}", r)) });
            }
        }
    }
    // Errors that cancel under equal or simply related coefficients: over a 64-bit field with real
    // draws such a batch is refused, except with probability below 2^-50 over the whole part.
    let g = |x: u64| Gold::new(x % 0xffff_ffff_0000_0001);
    let q = cx.tier(9u64, 17);
    for n in [2usize, 8, 9, 17, 33] {
        let (k, items) = batch_of::<Gold>(n, g);
        for i in 0..n {
            if cx.failed() { return; }
            for j in 0..i {
                cx.check((q * q * 2) as u64, || format!("cancelling errors n={} items {} and {}", n, j, i), || {
                    for a in 1..q {
                        for b in 1..q {
                            for s in [Gold::ONE, -Gold::ONE] {
                                let mut it = items.clone();
                                it[i].0.c.0 += Gold::new(a);
                                it[j].0.c.0 += s * Gold::new(b);
                                match run_mc(&k, &it) {
                                    Err(VerificationError::InvalidProof) => {}
                                    r => return Err(format!("{:?} with errors in the ratio {}/{}{}", r, a, if s == Gold::ONE { "" } else { "-" }, b)),
                                }
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
        // three errors summing to zero; all items wrong by the same amount and by alternating ones
        for (name, e) in [("same", 0u64), ("alternating", 1), ("linear", 2)] {
            cx.check(1, || format!("all items wrong n={} {}", n, name), || {
                let mut it = items.clone();
                for (i, x) in it.iter_mut().enumerate() {
                    x.0.c.0 += match e { 0 => Gold::ONE, 1 => if i % 2 == 0 { Gold::ONE } else { -Gold::ONE }, _ => Gold::new(2 * i as u64) - Gold::new(n as u64 - 1) };
                }
                match run_mc(&k, &it) { Err(VerificationError::InvalidProof) => Ok(()), Ok(()) if n == 1 && e == 2 => Ok(()), r => Err(format!("{:?}", r)) }
            });
        }
        for rep in 0..20 {
            cx.check(1, || format!("valid batch of {} over a 64-bit field #{}", n, rep), || run_mc(&k, &items).map_err(|e| format!("{:?}", e)));
        }
    }
    cx.bound("multicore", "batches of up to 129 items, every single invalid position with every non-zero coefficient of F97; every pair of items with errors in every small ratio over a 64-bit field");
}
#[cfg(not(feature = "mcbatch"))]
fn multicore(cx: &Ctx) {
    cx.bound("multicore", "not built");
}
fn main() {
    let cx = Ctx::new("C07");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let f = |x: u64| Fp::<3>(x % 3);
    let vks3: Vec<Vk<Fp<3>>> = (0..cx.tier(5u64, 27)).map(|i| vk(f(1 + i), f(1), f(1 + i % 2), f(1 + i / 2), &[f(i / 3), f(1 + i)])).collect();
    match cx.part.as_str() {
        "all" => {
            all::<3>(&cx, 0, &vks3, th);
            all::<3>(&cx, 1, &vks3, th);
            all::<3>(&cx, 2, &vks3, th);
            let g = |x: u64| Fp::<5>(x % 5);
            let vks5: Vec<Vk<Fp<5>>> = (0..3).map(|i| vk(g(2 + i), g(1 + i), g(1 + i % 2), g(3 + i / 2), &[g(i), g(1 + i)])).collect();
            all::<5>(&cx, 1, &vks5, th);
            if cx.thorough { all::<5>(&cx, 2, &vks5, th); all::<3>(&cx, 3, &vks3[..1], th); }
        }
        "structure" => structure(&cx),
        "large" => large(&cx, th),
        "multicore" => multicore(&cx),
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| format!("part {}: batch verdicts compared with the sum of z_i times the per-proof equation", cx.part));
    cx.finish();
}
