//! C06 under the controlled scheduler: proving with malformed parameters, all schedules within a
//! bound; afterwards the pool must be at rest and an honest proof must still come out.
use groth16::create_proof;
use mc::groth::*;
use mc::malformed::*;
use mc::sched::*;
use mc::toy::*;
use mc::Ctx;
use std::sync::{Arc, Mutex};

type F = F97;
struct Base {
    s: Spec<F>,
    p: groth16::Parameters<Toy<F>>,
    want: groth16::Proof<Toy<F>>,
    ex: Vec<Vec<F>>,
    r: F,
    sc: F,
}
fn base(ni: usize, na: usize, nc: usize, seed: u64) -> Base {
    let s = chain::<F>(ni, na, nc, seed);
    let (t, q) = pick_trap(&s, 0, 0).unwrap();
    let (r, sc) = blinds::<F>()[3];
    Base { p: model_params(&q, &t), want: model_proof(&s, &q, &t, r, sc), ex: exponents(&s, &q), s, r, sc }
}
fn attempt(b: &Base, faults: &[Fault]) -> Result<(), String> {
    let bad = plant(&b.p, faults);
    match (create_proof(b.s.clone(), bad, b.r, b.sc), expect(&b.ex, faults)) {
        (Err(_), Expect::Error) | (Err(_), Expect::Either) => Ok(()),
        (Ok(p), Expect::SameProof) | (Ok(p), Expect::Either) if proof_eq(&p, &b.want) => Ok(()),
        (r, e) => Err(format!("{:?} expected, got {:?}", e, r.map_err(|e| e.to_string()))),
    }
}
fn program(b: Arc<Base>, faults: Vec<Vec<Fault>>) -> Program {
    let errs = Arc::new(Mutex::new(vec![]));
    let mut threads: Vec<Box<dyn FnOnce()>> = vec![];
    for f in faults {
        let (b, e) = (b.clone(), errs.clone());
        threads.push(Box::new(move || {
            if let Err(x) = attempt(&b, &f) {
                e.lock().unwrap().push(x)
            }
        }));
    }
    let (b2, e2) = (b, errs.clone());
    Program {
        threads,
        // Afterwards: the pool still works.
        tail: Some(Box::new(move || {
            if let Err(x) = attempt(&b2, &[]) {
                e2.lock().unwrap().push(format!("afterwards: {}", x))
            }
        })),
        finish: Box::new(move |e| {
            for t in &e.threads {
                t.clone().map_err(|p| format!("create_proof panicked: {}", p))?;
            }
            if let Some(x) = errs.lock().unwrap().first() {
                return Err(x.clone());
            }
            if e.queued_jobs > 0 {
                return Err(format!("{} jobs left in the queues", e.queued_jobs));
            }
            Ok(())
        }),
    }
}
fn main() {
    let cx = Ctx::new("C06");
    mc::sched::watchdog(100);
    let n = mcsched::num_threads();
    let mut progs = vec![];
    match cx.part.as_str() {
        "single" => {
            for (i, (ni, na, nc)) in [(0usize, 1usize, 1usize), (1, 1, 1), (1, 2, 3)].into_iter().enumerate() {
                let b = Arc::new(base(ni, na, nc, 3 + i as u64));
                let mut fs: Vec<Vec<Fault>> = single_faults(&b.ex).into_iter().map(|f| vec![f]).collect();
                fs.push(vec![]);
                for f in fs {
                    let mode = Mode::Deviate(cx.tier(1, if i == 2 { 1 } else { 2 }));
                    let b = b.clone();
                    let name = format!("chain{}.{}.{}/n{}/{:?}", ni, na, nc, n, f);
                    progs.push(Prog { name, cfg: Cfg::new(n, mode), mk: Box::new(move || program(b.clone(), vec![f.clone()])) });
                }
            }
            cx.bound("single", "every single fault x every schedule with at most 1 (thorough: 2) departures from the default schedule");
        }
        "two" => {
            // A failing and an honest prover share the pool.
            let b = Arc::new(base(0, 1, 1, 3));
            for f in single_faults(&b.ex) {
                if matches!(f, Fault::Extend(..) | Fault::Read(..)) {
                    continue;
                }
                let b = b.clone();
                let name = format!("two/n{}/{:?}", n, f);
                progs.push(Prog { name, cfg: Cfg::new(n, Mode::Deviate(1)), mk: Box::new(move || program(b.clone(), vec![vec![f], vec![]])) });
            }
            cx.bound("two", "a failing and an honest prover side by side, at most 1 departure");
        }
        p => panic!("no part {}", p),
    }
    run_all(&cx, progs);
    cx.finish()
}
