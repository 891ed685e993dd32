//! C12 (and C07's multi-threaded batch verification) under the controlled scheduler: the same
//! result on every schedule within the bound.
use bellman::domain::{EvaluationDomain, Scalar};
use bellman::multicore::Worker;
use bellman::multiexp::{multiexp, DensityTracker, Exponent, FullDensity};
use ff::{Field, PrimeField};
use groth16::{create_proof, generate_parameters};
use mc::groth::*;
use mc::sched::*;
use mc::toy::*;
use mc::Ctx;
use std::sync::{Arc, Mutex};

/// One user thread (or several) each computing something printable; every schedule must give
/// what the code gives without any pool.
type Calc = Arc<dyn Fn() -> String + Send + Sync>;
fn program(calcs: Vec<Calc>, want: Vec<String>) -> Program {
    let got: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; calcs.len()]));
    let threads = calcs
        .into_iter()
        .enumerate()
        .map(|(i, c)| {
            let g = got.clone();
            let b: Box<dyn FnOnce()> = Box::new(move || {
                let r = c();
                g.lock().unwrap()[i] = Some(r);
            });
            b
        })
        .collect();
    Program {
        threads,
        tail: None,
        finish: Box::new(move |e| {
            for t in &e.threads {
                t.clone().map_err(|p| format!("panicked: {}", p))?;
            }
            for (g, w) in got.lock().unwrap().iter().zip(&want) {
                if g.as_ref() != Some(w) {
                    return Err(format!("result {:?}, expected {}", g, w));
                }
            }
            if e.queued_jobs > 0 {
                return Err(format!("{} jobs left in the queues", e.queued_jobs));
            }
            Ok(())
        }),
    }
}
fn main() {
    let cx = Ctx::new("C12");
    mc::sched::watchdog(100);
    let n = mcsched::num_threads();
    let mut progs: Vec<Prog> = vec![];
    let mut add = |name: String, mode: Mode, calcs: Vec<Calc>, want: Option<Vec<String>>| {
        let want = want.unwrap_or_else(|| calcs.iter().map(|c| c()).collect());
        let shards = if matches!(mode, Mode::Deviate(k) if k >= 2) { 8 } else { 1 };
        for k in 0..shards {
            let (calcs, want) = (calcs.clone(), want.clone());
            let mut cfg = Cfg::new(n, mode);
            if shards > 1 {
                cfg.shard = Some((k, shards));
            }
            progs.push(Prog { name: format!("{}/n{}/{:?}/{}", name, n, mode, k), cfg, mk: Box::new(move || program(calcs.clone(), want.clone())) });
        }
    };
    let dev = |q, t| Mode::Deviate(cx.tier(q, t));
    match cx.part.as_str() {
        "scope" => {
            // Worker::scope: every element gets to exactly one chunk, for every length.
            for len in 0..=cx.tier(9usize, 14) {
                let c: Calc = Arc::new(move || {
                    let mut v = vec![0u32; len];
                    Worker::new().scope(len, |s, chunk| {
                        for (i, c) in v.chunks_mut(chunk).enumerate() {
                            s.spawn(move |_| {
                                for x in c.iter_mut() {
                                    *x += 1 + i as u32 * 0;
                                    mcsched::yield_point();
                                }
                            });
                        }
                    });
                    format!("{:?}", v)
                });
                let want = format!("{:?}", vec![1u32; len]);
                add(format!("scope{}", len), if len <= 3 || n <= 2 { Mode::Full } else { dev(4, 5) }, vec![c], Some(vec![want]));
            }
        }
        "fft" => {
            for (e, ops) in [(0u32, 0usize), (1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (2, 2), (3, 2), (4, 0)] {
                let c: Calc = Arc::new(move || {
                    let w = Worker::new();
                    let mut r = SplitMix(e as u64 + 10 * ops as u64);
                    let v: Vec<Scalar<F97>> = (0..1usize << e).map(|_| Scalar(F97::random(&mut r))).collect();
                    let v2: Vec<Scalar<F97>> = (0..1usize << e).map(|_| Scalar(F97::random(&mut r))).collect();
                    let mut a = EvaluationDomain::from_coeffs(v).unwrap();
                    let mut b = EvaluationDomain::from_coeffs(v2).unwrap();
                    match ops {
                        0 => {
                            a.fft(&w);
                        }
                        1 => {
                            a.coset_fft(&w);
                            a.icoset_fft(&w);
                        }
                        _ => {
                            a.ifft(&w);
                            b.distribute_powers(&w, F97::from(5));
                            a.mul_assign(&w, &b);
                            a.sub_assign(&w, &b);
                            a.divide_by_z_on_coset(&w);
                        }
                    }
                    format!("{:?}", a.into_coeffs().iter().map(|s| s.0).collect::<Vec<_>>())
                });
                let mode = if e <= 1 && n <= 2 { Mode::Preempt(cx.tier(1, 2)) } else { dev(3, if e <= 3 { 4 } else { 3 }) };
                add(format!("fft{}.{}", e, ops), mode, vec![c], None);
            }
        }
        "multiexp" => {
            for len in [0usize, 1, 2, 3, 5, 8] {
                for dens in [false, true] {
                    let mut r = SplitMix(len as u64 + 3);
                    let exps: Vec<F97> = (0..len).map(|i| if i % 3 == 1 { F97::ZERO } else { F97::random(&mut r) }).collect();
                    let on: Vec<bool> = (0..len).map(|i| !dens || i % 2 == 0).collect();
                    let nb = on.iter().filter(|x| **x).count();
                    let gs: Vec<P1<F97>> = (0..nb).map(|i| P1(F97::from(i as u64 + 2))).collect();
                    let c: Calc = Arc::new(move || {
                        let w = Worker::new();
                        let e = Arc::new(exps.iter().map(Exponent::from).collect::<Vec<_>>());
                        let b = (Arc::new(gs.clone()), 0);
                        let r: Result<P1<F97>, _> = if dens {
                            let mut d = DensityTracker::new();
                            for (i, o) in on.iter().enumerate() {
                                d.add_element();
                                if *o {
                                    d.inc(i);
                                }
                            }
                            multiexp(&w, b, Arc::new(d), e).wait()
                        } else {
                            multiexp(&w, b, FullDensity, e).wait()
                        };
                        format!("{:?}", r.ok())
                    });
                    let mode = if n <= 2 { Mode::Full } else { dev(5, 6) };
                    add(format!("multiexp{}.{}", len, dens), mode, vec![c], None);
                }
            }
        }
        "generate" => {
            for (i, (ni, na, nc)) in [(0usize, 1usize, 1usize), (1, 1, 1), (1, 2, 3), (2, 4, 5)].into_iter().enumerate() {
                let s = chain::<F97>(ni, na, nc, 5);
                let (t, _) = pick_trap(&s, i, 0).unwrap();
                let c: Calc = Arc::new(move || {
                    let p = generate_parameters::<Toy<F97>, _>(s.unknown(), P1(t.g1), P2(t.g2), t.alpha, t.beta, t.gamma, t.delta, t.tau).unwrap();
                    let mut v = vec![];
                    p.write(&mut v).unwrap();
                    format!("{:?}", v)
                });
                add(format!("generate{}.{}.{}", ni, na, nc), dev(if i < 2 { 3 } else { 2 }, if i < 2 { 4 } else { 3 }), vec![c], None);
            }
        }
        "prove" => {
            let mk = |i: usize, ni, na, nc| -> Calc {
                let s = chain::<F97>(ni, na, nc, 7);
                let (t, q) = pick_trap(&s, i, 0).unwrap();
                let (r, sc) = blinds::<F97>()[i % 7];
                let p = model_params(&q, &t);
                Arc::new(move || format!("{:?}", create_proof(s.clone(), &p, r, sc).unwrap()))
            };
            for (i, (ni, na, nc)) in [(0usize, 1usize, 1usize), (1, 1, 1), (1, 2, 3), (2, 4, 5)].into_iter().enumerate() {
                let c = mk(i, ni, na, nc);
                add(format!("prove{}.{}.{}", ni, na, nc), dev(if i < 3 { 2 } else { 1 }, if i < 1 { 3 } else { 2 }), vec![c], None);
            }
            let (c, c2) = (mk(3, 1, 1, 1), mk(4, 0, 2, 2));
            add("prove-two".into(), dev(1, 2), vec![c, c2], None);
        }
        p => panic!("no part {}", p),
    }
    run_all(&cx, progs);
    cx.finish()
}
