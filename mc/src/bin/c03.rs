//! C03: generate_parameters against the QAP definition; exact failure conditions.
use bellman::SynthesisError;
use ff::{Field, PrimeField};
use groth16::{generate_parameters, Parameters};
use mc::groth::*;
use mc::report::{par_for, Ctx};
use mc::toy::*;

fn generate<F: TF>(s: &Spec<F>, t: &Trap<F>) -> Result<Parameters<Toy<F>>, SynthesisError> {
    generate_parameters::<Toy<F>, _>(s.clone(), P1(t.g1), P2(t.g2), t.alpha, t.beta, t.gamma, t.delta, t.tau)
}
fn one<F: TF>(s: &Spec<F>, t: &Trap<F>) -> Result<(), String> {
    let got = generate(&s.unknown(), t);
    // which errors are due?
    let too_large = s.exp() >= F::S;
    let certainly_large = s.exp() > F::S;
    let identity = t.gamma.is_zero_vartime() || t.delta.is_zero_vartime();
    if let Some((_, f, _)) = &s.fail {
        return match got {
            Err(e) if f.is(&e) => Ok(()),
            Err(e) => Err(format!("circuit error {:?} reported as {}", f, e)),
            Ok(_) => Err("parameters generated although synthesis failed".into()),
        };
    }
    let q = if certainly_large { None } else { Some(qap(s, t.tau)) };
    let unconstrained = q.as_ref().map_or(false, |q| (q.ni..q.ni + q.na).any(|i| q.k(t, i).is_zero_vartime()));
    match got {
        Ok(p) => {
            if certainly_large || identity || unconstrained {
                return Err(format!("parameters generated although too_large={} gamma/delta zero={} unconstrained={}", certainly_large, identity, unconstrained));
            }
            eq_params(&p, &model_params(&q.unwrap(), t))
        }
        Err(SynthesisError::PolynomialDegreeTooLarge) if too_large => Ok(()),
        Err(SynthesisError::UnexpectedIdentity) if identity => Ok(()),
        Err(SynthesisError::UnconstrainedVariable) if unconstrained => Ok(()),
        Err(e) => Err(format!("unexpected error {} (too_large={} identity={} unconstrained={})", e, too_large, identity, unconstrained)),
    }
}
fn show<F: TF>(s: &Spec<F>, t: &Trap<F>) -> String {
    format!("order={:?} cons={:?} fail={:?} trap={:?}", s.order, s.cons, s.fail, t)
}
/// Every circuit shape of the family (the witness is irrelevant: alphabet 1).
fn family<F: TF>(cx: &Ctx, ni: usize, na: usize, nc: usize, level: u32, th: usize) {
    let fam = Fam { ni, na, nc, level, all_orders: nc == 1, alphabet: 1 };
    // all triples, whether or not the all-zero witness satisfies them
    for sat in [true, false] {
        circuits::<F>(fam, sat, th, &|| cx.failed(), &|s, idx| {
            for k in 0..2 {
                let mut t = traps::<F>()[(idx / 3 + k) % 7].clone();
                t.tau = F::random(&mut SplitMix((idx * 2 + k) as u64));
                cx.check(1, || show(&s, &t), || one(&s, &t));
            }
        });
    }
    cx.bound(&format!("inputs={} private={} constraints={}", ni, na, nc), format!("every circuit over the level-{} term library", level));
}
fn all_trapdoors<const P: u64>(cx: &Ctx, specs: &[Spec<Fp<P>>], full: bool, th: usize) {
    par_for(specs.len() * P as usize, th, |j| {
        let s = &specs[j / P as usize];
        let tau = Fp::<P>((j as u64) % P);
        if full {
            for a in 0..P { for b in 0..P { for g in 0..P { for d in 0..P {
                if cx.failed() { return; }
                let t = Trap { g1: Fp(1 + (a + b) % (P - 1)), g2: Fp(1 + g % (P - 1)), alpha: Fp(a), beta: Fp(b), gamma: Fp(g), delta: Fp(d), tau };
                cx.check(1, || show(s, &t), || one(s, &t));
            } } } }
        } else {
            for mut t in traps::<Fp<P>>() {
                for z in 0..3 {
                    if cx.failed() { return; }
                    t.tau = tau;
                    if z == 1 { t.gamma = Fp(0); } else if z == 2 { t.delta = Fp(0); }
                    if t.g1.0 == 0 || t.g2.0 == 0 { continue; }
                    cx.check(1, || show(s, &t), || one(s, &t));
                }
            }
        }
    });
    cx.bound(&format!("F{} trapdoors", P), format!("every tau{} for {} circuits", if full { ", alpha, beta, gamma, delta" } else { " (roots of unity and 0 included) x 7 trapdoors x zero gamma/delta" }, specs.len()));
}
fn limits<const P: u64>(cx: &Ctx) {
    let s = <Fp<P> as PrimeField>::S as usize;
    let mut ns: Vec<usize> = (0..=12).collect();
    for e in [s - 1, s, s + 1] { for d in -3i64..=2 { ns.push(((1i64 << e) + d).max(0) as usize); } }
    ns.retain(|n| *n <= 600);
    for &n in &ns {
        for (ni, na) in [(0usize, 1usize), (1, 0), (2, 2), (0, 0), (3, 1)] {
            let nc = n.saturating_sub(ni + 1);
            if nc < na || cx.failed() { continue; }
            let c = chain::<Fp<P>>(ni, na, nc, 3);
            let mut t = traps::<Fp<P>>()[0].clone();
            t.tau = Fp::new(3);
            cx.check(1, || format!("F{} ni={} na={} nc={}", P, ni, na, nc), || one(&c, &t));
        }
    }
    cx.bound(&format!("F{} size limit", P), format!("constraint counts around 2^{}", s));
}
fn faults(cx: &Ctx) {
    type F = F97;
    for (ni, na, nc) in [(0usize, 0usize, 1usize), (1, 1, 2), (2, 1, 1), (0, 2, 3)] {
        let base = chain::<F>(ni, na, nc, 4);
        for step in 0..=(ni + na + nc) {
            for f in Fail::ALL {
                let mut s = base.clone();
                s.fail = Some((step, f.clone(), false));
                let mut t = traps::<F>()[step % 7].clone();
                t.tau = F::new(3);
                for z in 0..2 {
                    if z == 1 { t.delta = F::ZERO; }
                    cx.check(1, || show(&s, &t), || one(&s, &t));
                }
            }
        }
        // value closures are never needed during generation
        let t = { let mut t = traps::<F>()[1].clone(); t.tau = F::new(3); t };
        cx.check(2, || format!("witness-independent {} {} {}", ni, na, nc), || match (generate(&base, &t), generate(&base.unknown(), &t)) {
            (Ok(a), Ok(b)) => eq_params(&a, &b),
            (Err(a), Err(b)) if a.to_string() == b.to_string() => Ok(()),
            _ => Err("generation depends on the witness".into()),
        });
    }
    cx.bound("faults", "every synthesis step failing with every error kind");
}
fn main() {
    let cx = Ctx::new("C03");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match cx.part.as_str() {
        "one" => {
            for ni in 0..=3 { for na in 0..=2 { family::<F97>(&cx, ni, na, 0, 0, th); } }
            family::<F97>(&cx, 0, 1, 1, 2, th);
            family::<F97>(&cx, 1, 0, 1, 2, th);
            family::<F97>(&cx, 1, 1, 1, 2, th);
            family::<F97>(&cx, 0, 2, 1, cx.tier(1, 2), th);
            family::<F97>(&cx, 1, 2, 1, cx.tier(0, 1), th);
            family::<F97>(&cx, 2, 1, 1, cx.tier(0, 1), th);
        }
        "two" => {
            family::<F97>(&cx, 0, 1, 2, 0, th);
            family::<F193>(&cx, 1, 1, 2, 0, th);
        }
        "trapdoors" => {
            let s5: Vec<Spec<F5>> = (0..6).map(|i| chain(0, i % 2, 1, i as u64)).collect();
            all_trapdoors::<5>(&cx, &s5, true, th);
            let s17: Vec<Spec<F17>> = (0..cx.tier(1, 6)).map(|i| chain((i + 1) % 2, 1, 1 + i % 2, i as u64)).collect();
            all_trapdoors::<17>(&cx, &s17, true, th);
            let s97: Vec<Spec<F97>> = (0..24).map(|i| chain(i % 3, i % 4, (i % 4).max(1 + i % 5), i as u64)).collect();
            all_trapdoors::<97>(&cx, &s97, false, th);
        }
        "limits" => {
            limits::<3>(&cx);
            limits::<5>(&cx);
            limits::<7>(&cx);
            limits::<13>(&cx);
            limits::<17>(&cx);
            limits::<97>(&cx);
            limits::<193>(&cx);
            limits::<257>(&cx);
            faults(&cx);
        }
        "chains" => {
            let mut n = 0usize;
            for ni in 0..=cx.tier(4, 10usize) { for na in 0..=cx.tier(8, 20usize) { for extra in [0usize, 1, 2, 3, 5, 9] {
                let c = chain::<F12289>(ni, na, na + extra, 7);
                let mut t = traps::<F12289>()[n % 7].clone();
                t.tau = F12289::new(7 + n as u64 * 13);
                n += 1;
                if cx.failed() { break; }
                cx.check(1, || format!("chain {} {} {} {:?}", ni, na, na + extra, t), || one(&c, &t));
            } } }
            for (ni, na, nc) in [(3usize, 60usize, 60usize), (0, 127, 127), (63, 64, 64), (100, 30, 155), (1, 254, 300), (2, 600, 700)] {
                let c = chain::<Gold>(ni, na, nc, 2);
                let mut t = traps::<Gold>()[2].clone();
                t.tau = Gold::new(0x1234567);
                cx.check(1, || format!("long chain {} {} {}", ni, na, nc), || one(&c, &t));
            }
            cx.bound("chains", format!("{} circuits", n));
        }
        "scale" => {
            let all = scale(cx.thorough);
            par_for(all.len(), th, |i| {
                let (name, s) = &all[all.len() - 1 - i];
                if cx.failed() { return; }
                let (t, _) = match pick_trap(s, i, 0) { Some(x) => x, None => { cx.violation(name.clone(), "no trapdoor found"); return; } };
                let t = &t;
                cx.check(1, || format!("{} {:?}", name, t), || one(s, t));
            });
            cx.bound("scale", format!("{} circuits: every domain size to 2^{} and its neighbours, combinations to 1,025 terms in four kinds of repetition, to 2,049 variables of a kind", all.len(), cx.tier(16, 18)));
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| format!("part {}: generate_parameters compared element by element with the QAP definition", cx.part));
    cx.finish();
}
