//! C06: proving with every single and every pair of faults in the parameters.
use bellman::multicore::Worker;
use groth16::{create_proof, Proof};
use mc::groth::*;
use mc::malformed::*;
use mc::report::{guard, par_for, Ctx};
use mc::toy::*;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

struct Base<F: TF> {
    s: Spec<F>,
    t: Trap<F>,
    p: groth16::Parameters<Toy<F>>,
    want: Proof<Toy<F>>,
    ex: Vec<Vec<F>>,
    r: F,
    sc: F,
    name: String,
}
fn bases<F: TF>(sizes: &[(usize, usize, usize)], seed: u64) -> Vec<Base<F>> {
    sizes
        .iter()
        .enumerate()
        .map(|(i, &(ni, na, nc))| {
            let s = chain::<F>(ni, na, nc, seed);
            let (t, q) = pick_trap(&s, i, 0).unwrap();
            let (r, sc) = blinds::<F>()[(i + 3) % 7];
            Base { p: model_params(&q, &t), want: model_proof(&s, &q, &t, r, sc), ex: exponents(&s, &q), s, t, r, sc, name: format!("chain {} {} {} seed {}", ni, na, nc, seed) }
        })
        .collect()
}
fn judge<F: TF>(b: &Base<F>, faults: &[Fault]) -> Result<(), String> {
    let bad = plant(&b.p, faults);
    let want = expect(&b.ex, faults);
    let mut res = vec![create_proof(b.s.clone(), bad.clone(), b.r, b.sc)];
    if plain(faults) {
        res.push(create_proof(b.s.clone(), bad.params(), b.r, b.sc));
    }
    for r in res {
        match (r, want) {
            (Err(_), Expect::Error) | (Err(_), Expect::Either) => {}
            (Ok(p), Expect::SameProof) | (Ok(p), Expect::Either) => {
                if !proof_eq(&p, &b.want) {
                    return Err(format!("a different proof came out: {:?}, expected {:?}", p, b.want));
                }
            }
            (Ok(_), Expect::Error) => return Err("a proof came out of malformed parameters".into()),
            (Err(e), Expect::SameProof) => return Err(format!("rejected although every needed element is there: {}", e)),
        }
    }
    Ok(())
}
/// All `m` pool tasks can be outstanding at once without a submission waiting.  A failed prover
/// may leave tasks behind that are still ending: several attempts, some time apart.
fn capacity(m: usize) -> Result<(), String> {
    let mut last = Ok(());
    for _ in 0..5 {
        std::thread::sleep(Duration::from_millis(100));
        last = capacity_once(m);
        if last.is_ok() {
            break;
        }
    }
    last
}
fn capacity_once(m: usize) -> Result<(), String> {
    let (tx, rx) = std::sync::mpsc::channel();
    let gate = Arc::new((Mutex::new(false), Condvar::new()));
    let g2 = gate.clone();
    std::thread::spawn(move || {
        let w = Worker::new();
        let ws: Vec<_> = (0..m)
            .map(|i| {
                let g = g2.clone();
                w.compute(move || {
                    let mut o = g.0.lock().unwrap();
                    while !*o {
                        o = g.1.wait(o).unwrap();
                    }
                    i
                })
            })
            .collect();
        let _ = tx.send(());
        ws.into_iter().enumerate().for_each(|(i, w)| assert_eq!(w.wait(), i));
        let _ = tx.send(());
    });
    let r = rx.recv_timeout(Duration::from_secs(5));
    *gate.0.lock().unwrap() = true;
    gate.1.notify_all();
    // If the submissions are through only now, two messages are left.
    let mut r2 = rx.recv_timeout(Duration::from_secs(20));
    if r.is_err() && r2.is_ok() {
        r2 = rx.recv_timeout(Duration::from_secs(20));
    }
    r.map_err(|_| format!("{} submissions do not return without waiting", m))?;
    r2.map_err(|_| "the pool's tasks do not end".to_string())
}
fn threads() -> usize {
    if cfg!(feature = "ser") { 0 } else { std::env::var("RAYON_NUM_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
}
fn family<F: TF>(cx: &Ctx, bs: Vec<Base<F>>, pairs: bool) {
    for b in &bs {
        if let Err(e) = honest(b) {
            cx.violation(format!("{} honest", b.name), e);
        }
        let mut cases: Vec<Vec<Fault>> = single_faults(&b.ex).into_iter().map(|f| vec![f]).collect();
        if pairs {
            let f: Vec<Fault> = cases.iter().map(|c| c[0]).collect();
            for i in 0..f.len() {
                for j in i + 1..f.len() {
                    // Two faults of one query can shadow each other; what is needed is then decided by the first.
                    let (x, y) = (f[i], f[j]);
                    let q = |f: Fault| match f { Fault::Trunc(q, _) | Fault::Ident(q, _) | Fault::Extend(q, _) | Fault::At(q, _) | Fault::Read(q, _) | Fault::Once(q, _) => q, Fault::Call(c) => 10 + c, Fault::Op(_) => 30, Fault::DeltaG1 | Fault::DeltaG2 => 20 };
                    if q(x) != q(y) || q(x) == 20 {
                        cases.push(vec![x, y]);
                    }
                }
            }
        }
        // Every single operation on the sources failing by itself: as many as a clean run makes.
        let clean = plant(&b.p, &[]);
        let _ = create_proof(b.s.clone(), clean.clone(), b.r, b.sc);
        let ops = clean.ops.load(std::sync::atomic::Ordering::SeqCst);
        if !pairs && ops <= cx.tier(1200, 6000) {
            cases.extend((0..ops).map(|k| vec![Fault::Op(k)]));
            cx.count("failing_operations", ops as u64);
        }
        // User threads prove concurrently on the one pool.
        par_for(cases.len(), if threads() == 0 { 4 } else { 2 }, |i| {
            if !cx.failed() {
                cx.check(1, || format!("{} trap={:?} {:?}", b.name, b.t, cases[i]), || judge(b, &cases[i]));
            }
        });
        cx.check(1, || format!("{} afterwards", b.name), || honest(b));
        cx.count("fault_cases", cases.len() as u64);
    }
    if threads() > 0 {
        cx.check(1, || format!("capacity {} threads", threads()), || capacity(4 * threads()));
    }
}
fn honest<F: TF>(b: &Base<F>) -> Result<(), String> {
    let p = create_proof(b.s.clone(), &b.p, b.r, b.sc).map_err(|e| format!("proving with sound parameters failed: {}", e))?;
    if proof_eq(&p, &b.want) { Ok(()) } else { Err(format!("proof {:?}, definition gives {:?}", p, b.want)) }
}
fn main() {
    let cx = Ctx::new("C06");
    match cx.part.as_str() {
        "single" => {
            let sizes = [(0usize, 1usize, 1usize), (1, 1, 1), (1, 2, 3), (2, 4, 5), (3, 3, 4), (0, 5, 5), (2, 9, 12), (1, 33, 40)];
            let n = cx.tier(6, 8);
            for seed in 0..cx.tier(2, 8) {
                family(&cx, bases::<F97>(&sizes[..n.min(6)], seed), false);
                family(&cx, bases::<Gold>(&sizes[..n], 20 + seed), false);
            }
            cx.bound("single", "every truncation, every identity element, every failing source position (always, on read, once), every single operation on the sources failing by itself, every failing source call, identity delta, extensions");
        }
        "pairs" => {
            for seed in 0..cx.tier(1, 4) {
                family(&cx, bases::<F193>(&[(0, 1, 1), (1, 1, 1), (1, 2, 2)], 40 + seed), true);
            }
            cx.bound("pairs", "every pair of faults in different queries");
        }
        p => panic!("no part {}", p),
    }
    cx.finish()
}
