//! C07 under the controlled scheduler: the multi-threaded batch verifier, all schedules of the
//! pool within a bound, real coefficients over a 64-bit field.
use mc::Ctx;
#[cfg(feature = "mcbatch")]
fn progs(cx: &Ctx) -> Vec<mc::sched::Prog> {
    use bellman::VerificationError;
    use ff::{Field, PrimeField};
    use groth16::{batch, Proof, VerifyingKey};
    use mc::sched::*;
    use mc::toy::*;
    use std::sync::{Arc, Mutex};
    type F = Gold;
    type Items = Vec<(Proof<Toy<F>>, Vec<F>)>;
    let n = mcsched::num_threads();
    let make = |len: usize| -> (VerifyingKey<Toy<F>>, Items) {
        let mut r = SplitMix(len as u64);
        let mut f = || F::new(1 + r.next() % 1_000_000_007);
        let (de, ic) = (f(), [f(), f()]);
        let vk = VerifyingKey::<Toy<F>> { alpha_g1: P1(f()), beta_g1: P1(f()), beta_g2: P2(f()), gamma_g2: P2(f()), delta_g1: P1(de), delta_g2: P2(de), ic: ic.iter().map(|x| P1(*x)).collect() };
        let items = (0..len)
            .map(|_| {
                let (i, a, b) = (f(), f(), f());
                let e = a * b - vk.alpha_g1.0 * vk.beta_g2.0 - (ic[0] + ic[1] * i) * vk.gamma_g2.0;
                (Proof { a: P1(a), b: P2(b), c: P1(e * de.invert().unwrap()) }, vec![i])
            })
            .collect();
        (vk, items)
    };
    #[derive(Clone, Debug)]
    enum Want {
        Accept,
        Refuse,
        Lengths,
    }
    type One = (Arc<VerifyingKey<Toy<F>>>, Arc<Items>, Want);
    let program = |ones: Vec<One>| -> Program {
        let errs = Arc::new(Mutex::new(vec![]));
        let mut threads: Vec<Box<dyn FnOnce()>> = vec![];
        for (k, items, want) in ones {
            let e = errs.clone();
            threads.push(Box::new(move || {
                let mut v = batch::Verifier::new();
                for (p, i) in items.iter() {
                    v.queue((p.clone(), i.clone()));
                }
                let r = v.verify_multicore(&k);
                match (&r, &want) {
                    (Ok(()), Want::Accept) | (Err(VerificationError::InvalidProof), Want::Refuse) | (Err(VerificationError::InvalidVerifyingKey), Want::Lengths) => {}
                    _ => e.lock().unwrap().push(format!("{:?}, expected {:?}", r, want)),
                }
            }));
        }
        Program {
            threads,
            tail: None,
            finish: Box::new(move |e| {
                for t in &e.threads {
                    t.clone().map_err(|p| format!("panicked: {}", p))?;
                }
                match errs.lock().unwrap().first() {
                    Some(x) => Err(x.clone()),
                    None if e.queued_jobs > 0 => Err(format!("{} jobs left in the queues", e.queued_jobs)),
                    None => Ok(()),
                }
            }),
        }
    };
    let mut out = vec![];
    let mut add = |name: String, mode: Mode, ones: Vec<One>| {
        out.push(Prog { name: format!("{}/n{}/{:?}", name, n, mode), cfg: Cfg::new(n, mode), mk: Box::new(move || program(ones.clone())) });
    };
    match cx.part.as_str() {
        "verify" => {
            for len in [0usize, 1, 2, 8, 9, 17, 25, 33] {
                let (vk, items) = make(len);
                let vk = Arc::new(vk);
                let mode = if len <= 9 || len <= 17 && n <= 2 || n == 1 { Mode::Full } else { Mode::Deviate(cx.tier(4, 6)) };
                add(format!("valid{}", len), mode, vec![(vk.clone(), Arc::new(items.clone()), Want::Accept)]);
                for bad in 0..len {
                    let mut it = items.clone();
                    it[bad].0.c.0 += F::ONE;
                    let mode = if len <= 9 || n == 1 { Mode::Full } else { Mode::Deviate(cx.tier(3, 4)) };
                    add(format!("bad{}.{}", len, bad), mode, vec![(vk.clone(), Arc::new(it.clone()), Want::Refuse)]);
                    // an equal and opposite error elsewhere
                    let o = (bad + len / 2 + 1) % len;
                    if o != bad {
                        it[o].0.c.0 -= F::ONE;
                        add(format!("cancel{}.{}.{}", len, bad, o), mode, vec![(vk.clone(), Arc::new(it), Want::Refuse)]);
                    }
                    if bad == len - 1 || bad == 0 {
                        let mut it = items.clone();
                        it[bad].1.clear();
                        add(format!("short{}.{}", len, bad), mode, vec![(vk.clone(), Arc::new(it), Want::Lengths)]);
                    }
                }
            }
        }
        "two" => {
            for (a, b) in [(9usize, 9usize), (1, 9), (17, 9)] {
                let ((v1, i1), (v2, mut i2)) = (make(a), make(b));
                i2[b - 1].0.a.0 += F::ONE;
                add(format!("two{}.{}", a, b), Mode::Deviate(cx.tier(4, 6)), vec![(Arc::new(v1), Arc::new(i1), Want::Accept), (Arc::new(v2), Arc::new(i2), Want::Refuse)]);
            }
        }
        p => panic!("no part {}", p),
    }
    cx.bound("verify", "batches of 0..33 items, each item in turn wrong, every schedule (up to two chunks, or one worker) or every schedule with at most 3 or 4 (thorough: 4 to 6) departures");
    out
}
#[cfg(not(feature = "mcbatch"))]
fn progs(_: &Ctx) -> Vec<mc::sched::Prog> {
    vec![]
}
fn main() {
    let cx = Ctx::new("C07");
    mc::sched::watchdog(100);
    mc::sched::run_all(&cx, progs(&cx));
    cx.finish()
}
