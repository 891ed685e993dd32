//! C13: Worker::compute / Waiter under every interleaving of small client programs.
use bellman::multicore::{Waiter, Worker};
use mc::sched::*;
use mc::Ctx;
use std::sync::{Arc, Mutex};

/// What one user thread does, in order.
#[derive(Clone, Copy, PartialEq, Debug)]
enum A {
    /// Submit task i.
    S(usize),
    /// Wait for task i's result.
    W(usize),
    /// Drop task i's waiter.
    D(usize),
    /// A Waiter::done with task i's value, waited for or dropped.
    Done(usize),
}
fn show(s: &[A]) -> String {
    s.iter()
        .map(|a| match a {
            A::S(i) => format!("s{}", i),
            A::W(i) => format!("w{}", i),
            A::D(i) => format!("d{}", i),
            A::Done(i) => format!("done{}", i),
        })
        .collect::<Vec<_>>()
        .join(".")
}

/// All scripts in which tasks 0..k are submitted in order and each waiter is waited for or
/// dropped at some later point.
fn scripts(first: usize, k: usize) -> Vec<Vec<A>> {
    fn go(next: usize, end: usize, open: Vec<usize>, cur: &mut Vec<A>, out: &mut Vec<Vec<A>>) {
        if next == end && open.is_empty() {
            out.push(cur.clone());
            return;
        }
        if next < end {
            cur.push(A::S(next));
            let mut o = open.clone();
            o.push(next);
            go(next + 1, end, o, cur, out);
            cur.pop();
        }
        for (j, &t) in open.iter().enumerate() {
            let mut o = open.clone();
            o.remove(j);
            for a in [A::W(t), A::D(t)] {
                cur.push(a);
                go(next, end, o.clone(), cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(first, first + k, vec![], &mut vec![], &mut out);
    out
}

/// How a task's body behaves.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Body {
    Plain,
    /// Takes a scheduling point in its middle.
    Long,
    /// Submits one more task and drops its waiter.
    NestDrop,
    /// Submits one more task and hands its waiter to the user through a slot.
    NestHand,
    /// Runs a Worker::scope with two spawned parts, each of which submits a task.
    NestScope,
    /// Submits one more task and waits for it, which must panic rather than block the pool.
    NestWait,
}

struct Log {
    runs: Mutex<Vec<usize>>,
    slots: Mutex<Vec<Option<Waiter<u64>>>>,
    errors: Mutex<Vec<String>>,
}
fn value(i: usize) -> u64 {
    1000 + 7 * i as u64
}
fn task(i: usize, body: Body, log: Arc<Log>, k: usize) -> u64 {
    let w = Worker::new();
    match body {
        Body::Plain | Body::NestWait => {}
        Body::Long => mcsched::yield_point(),
        Body::NestDrop | Body::NestHand => {
            let l = log.clone();
            let wt = w.compute(move || task(k + i, Body::Plain, l, k));
            if body == Body::NestHand {
                log.slots.lock().unwrap()[i] = Some(wt);
            }
        }
        Body::NestScope => {
            let n = mcsched::num_threads();
            w.scope(n, |s, _| {
                for j in 0..2 {
                    let (l, w) = (log.clone(), w.clone());
                    s.spawn(move |_| {
                        let l2 = l.clone();
                        drop(w.compute(move || task(k + 2 * i + j, Body::Plain, l2, k)));
                    });
                }
            });
        }
    }
    if body == Body::NestWait {
        let l = log.clone();
        let wt = w.compute(move || task(k + i, Body::Plain, l, k));
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || wt.wait())).is_ok() {
            log.errors.lock().unwrap().push("wait() inside the pool returned".into());
        }
    }
    log.runs.lock().unwrap()[i] += 1;
    value(i)
}

/// `scripts`: one per user thread.  `limit`: submissions that must not wait once at rest.
fn program(scripts: Vec<Vec<A>>, bodies: Vec<Body>, limit: usize) -> Program {
    let k = bodies.len();
    let log = Arc::new(Log { runs: Mutex::new(vec![0; 3 * k + 3]), slots: Mutex::new((0..k).map(|_| None).collect()), errors: Mutex::new(vec![]) });
    let mut threads: Vec<Box<dyn FnOnce()>> = vec![];
    for s in scripts {
        let (log, bodies) = (log.clone(), bodies.clone());
        threads.push(Box::new(move || {
            let w = Worker::new();
            let mut ws: Vec<Option<Waiter<u64>>> = (0..k).map(|_| None).collect();
            for a in s {
                match a {
                    A::S(i) => {
                        let (l, b) = (log.clone(), bodies[i]);
                        ws[i] = Some(w.compute(move || task(i, b, l, k)));
                    }
                    A::W(i) => {
                        let got = ws[i].take().unwrap().wait();
                        if got != value(i) {
                            log.errors.lock().unwrap().push(format!("waiter {} received {} instead of {}", i, got, value(i)));
                        }
                        if log.runs.lock().unwrap()[i] != 1 {
                            log.errors.lock().unwrap().push(format!("wait {} returned before the task had run", i));
                        }
                        // A waiter the task handed out.
                        let nested = log.slots.lock().unwrap()[i].take();
                        if let Some(nw) = nested {
                            let got = nw.wait();
                            if got != value(k + i) {
                                log.errors.lock().unwrap().push(format!("nested waiter {} received {}", i, got));
                            }
                        }
                    }
                    A::D(i) => drop(ws[i].take()),
                    A::Done(i) => {
                        let wt = Waiter::done(value(i));
                        if wt.wait() != value(i) {
                            log.errors.lock().unwrap().push("Waiter::done lost its value".into());
                        }
                    }
                }
            }
        }));
    }
    let mut want = vec![0; 3 * k + 3];
    for (i, b) in bodies.iter().enumerate() {
        want[i] = 1;
        match b {
            Body::NestDrop | Body::NestHand | Body::NestWait => want[k + i] += 1,
            Body::NestScope => {
                want[k + 2 * i] += 1;
                want[k + 2 * i + 1] += 1;
            }
            _ => {}
        }
    }
    let tail: Box<dyn FnOnce()> = Box::new(move || gated(limit));
    Program {
        threads,
        tail: if limit > 0 { Some(tail) } else { None },
        finish: Box::new(move |e| {
            for (i, t) in e.threads.iter().enumerate() {
                if let Err(p) = t {
                    return Err(format!("user thread {} panicked: {}", i, p));
                }
            }
            if let Some(x) = log.errors.lock().unwrap().first() {
                return Err(x.clone());
            }
            let runs = log.runs.lock().unwrap().clone();
            if runs != want {
                return Err(format!("executions per task {:?}, expected {:?}", runs, want));
            }
            if e.queued_jobs != 0 {
                return Err(format!("{} jobs left in the queues", e.queued_jobs));
            }
            Ok(())
        }),
    }
}

/// Submit `m` tasks none of which can finish before the last one is submitted; then let them go.
fn gated(m: usize) {
    let w = Worker::new();
    let gate = Gate::new();
    let ws: Vec<Waiter<usize>> = (0..m)
        .map(|i| {
            let g = gate.clone();
            w.compute(move || {
                g.pass();
                i
            })
        })
        .collect();
    gate.open();
    for (i, w) in ws.into_iter().enumerate() {
        assert_eq!(w.wait(), i);
    }
}
fn gated_program(m: usize) -> Program {
    Program {
        threads: vec![Box::new(move || gated(m))],
        tail: None,
        finish: Box::new(|e| e.threads[0].clone()),
    }
}

/// How many submissions return without waiting when nothing is outstanding.
fn limit(n: usize) -> usize {
    let fits = |m: usize| explore(&Cfg::new(n, Mode::Deviate(0)), &move || gated_program(m)).violation.is_none();
    let mut l = 0;
    while l < 8 * n + 8 && fits(l + 1) {
        l += 1;
    }
    l
}

fn main() {
    let ctx = Ctx::new("C13");
    mc::sched::watchdog(100);
    let n = mcsched::num_threads();
    install_quiet();
    let lim = limit(n);
    ctx.bound(&format!("async submissions, {} workers", n), lim);
    let mut progs = vec![];
    let add = |progs: &mut Vec<Prog>, name: String, mode: Mode, s: Vec<Vec<A>>, b: Vec<Body>| {
        progs.push(Prog { name: format!("{}/n{}/{:?}", name, n, mode).replace(' ', ""), cfg: Cfg::new(n, mode), mk: Box::new(move || program(s.clone(), b.clone(), lim)) });
    };
    match ctx.part.as_str() {
        "selftest" => selftest(&ctx),
        "limit" => {
            // Below the documented limit (four per worker) a submission must not wait.
            ctx.check(1, || format!("limit/n{}", n), || if lim >= 4 * n { Ok(()) } else { Err(format!("only {} submissions return without waiting, with {} workers", lim, n)) });
            let m = lim.min(4 * n + 1);
            progs.push(Prog { name: format!("gated/n{}", n), cfg: Cfg::new(n, ctx.tier(Mode::Deviate(2), Mode::Deviate(3))), mk: Box::new(move || gated_program(m)) });
            run_all(&ctx, progs);
        }
        "one" => {
            // One user thread, every script of up to 2 (3) tasks, every body.
            for k in 1..=2 {
                for s in scripts(0, k) {
                    for b in bodies(k, &[Body::Plain, Body::Long, Body::NestDrop, Body::NestHand, Body::NestWait]) {
                        // A handed-out waiter is only collected by a wait.
                        add(&mut progs, format!("one/{}/{:?}", show(&s), b), Mode::Full, vec![s.clone()], b);
                    }
                }
            }
            for s in scripts(0, 3) {
                add(&mut progs, format!("one/{}", show(&s)), if n == 1 || ctx.thorough { Mode::Full } else { Mode::Preempt(2) }, vec![s.clone()], vec![Body::Plain; 3]);
            }
            add(&mut progs, "done".into(), Mode::Full, vec![vec![A::Done(0), A::S(0), A::Done(1), A::W(0)]], vec![Body::Plain]);
            run_all(&ctx, progs);
        }
        "two" => {
            // Two user threads sharing the pool and the counter.
            for a in scripts(0, 1) {
                for b in scripts(1, 1) {
                    for bb in bodies(2, &[Body::Plain, Body::NestDrop, Body::NestHand]) {
                        add(&mut progs, format!("two/{}|{}/{:?}", show(&a), show(&b), bb), Mode::Full, vec![a.clone(), b.clone()], bb);
                    }
                }
            }
            for a in scripts(0, 2) {
                for b in scripts(2, 1) {
                    add(&mut progs, format!("two/{}|{}", show(&a), show(&b)), ctx.tier(Mode::Preempt(2), Mode::Preempt(3)), vec![a.clone(), b.clone()], vec![Body::Plain; 3]);
                }
            }
            run_all(&ctx, progs);
        }
        "scope" => {
            for k in 1..=2 {
                for s in scripts(0, k) {
                    for b in bodies(k, &[Body::Plain, Body::NestScope]) {
                        if b.contains(&Body::NestScope) {
                            add(&mut progs, format!("scope/{}/{:?}", show(&s), b), ctx.tier(Mode::Preempt(1), Mode::Preempt(2)), vec![s.clone()], b);
                        }
                    }
                }
            }
            run_all(&ctx, progs);
        }
        "overflow" => {
            // More tasks than the limit: some submissions run synchronously.
            let extra = 3;
            let k = 4 * n + 1 + extra;
            let all_s: Vec<A> = (0..k).map(A::S).collect();
            let fwd: Vec<A> = (0..k).map(A::W).collect();
            let rev: Vec<A> = (0..k).rev().map(A::W).collect();
            let drops: Vec<A> = (0..k).map(A::D).collect();
            let alt: Vec<A> = (0..k).map(|i| if i % 2 == 0 { A::W(i) } else { A::D(i) }).collect();
            // Each waiter dropped right away.
            let now: Vec<A> = (0..k).flat_map(|i| vec![A::S(i), A::D(i)]).collect();
            let d = ctx.tier(if n == 1 { 3 } else { 2 }, if n == 1 { 4 } else { 3 });
            for (nm, rest) in [("fwd", &fwd), ("rev", &rev), ("drop", &drops), ("alt", &alt)] {
                for body in [Body::Plain, Body::NestDrop] {
                    let s: Vec<A> = all_s.iter().chain(rest.iter()).cloned().collect();
                    let dd = if body == Body::Plain { d } else { d - 1 };
                    add(&mut progs, format!("overflow/{}/{:?}", nm, body), Mode::Deviate(dd), vec![s], vec![body; k]);
                }
            }
            add(&mut progs, "overflow/now".into(), Mode::Deviate(d), vec![now], vec![Body::Plain; k]);
            // Two users overflow the limit together.
            let h = k / 2;
            let a: Vec<A> = (0..h).map(A::S).chain((0..h).map(A::W)).collect();
            let b: Vec<A> = (h..k).map(A::S).chain((h..k).rev().map(|i| if i % 3 == 0 { A::D(i) } else { A::W(i) })).collect();
            add(&mut progs, "overflow/two".into(), Mode::Deviate(d), vec![a, b], vec![Body::Plain; k]);
            run_all(&ctx, progs);
        }
        p => panic!("no part {}", p),
    }
    ctx.finish()
}

fn bodies(k: usize, kinds: &[Body]) -> Vec<Vec<Body>> {
    let mut out = vec![vec![]];
    for _ in 0..k {
        out = out.into_iter().flat_map(|v: Vec<Body>| kinds.iter().map(move |b| { let mut v = v.clone(); v.push(*b); v })).collect();
    }
    out
}

/// The explorer itself: programs whose number of interleavings or whose bug is known.
fn selftest(ctx: &Ctx) {
    use crossbeam_channel::mc_atomic::{AtomicUsize, Ordering::SeqCst};
    let n = mcsched::num_threads();
    let binom = |n: u64, k: u64| (1..=k).fold(1u64, |a, i| a * (n - k + i) / i);
    for m in 1..=4u64 {
        // Two threads doing m writes each to one variable: C(2m, m) interleavings, none equivalent.
        ctx.check(1, || format!("dependent/{}", m), || {
            let s = explore(&Cfg::new(n, Mode::Full), &move || {
                let x = Arc::new(AtomicUsize::new(0));
                let t = |x: Arc<AtomicUsize>| -> Box<dyn FnOnce()> { Box::new(move || for _ in 0..m { x.fetch_add(1, SeqCst); }) };
                let y = x.clone();
                Program { threads: vec![t(x.clone()), t(x.clone())], tail: None, finish: Box::new(move |_| if y.load(SeqCst) == 0 { Ok(()) } else { Err("?".into()) }) }
            });
            if s.violation.is_none() && s.schedules == binom(2 * m, m) { Ok(()) } else { Err(format!("{:?}", s)) }
        });
        // On separate variables everything commutes: one schedule.
        ctx.check(1, || format!("independent/{}", m), || {
            let s = explore(&Cfg::new(n, Mode::Full), &move || {
                let t = || -> Box<dyn FnOnce()> { let x = Arc::new(AtomicUsize::new(0)); Box::new(move || for _ in 0..m { x.fetch_add(1, SeqCst); }) };
                Program { threads: vec![t(), t()], tail: None, finish: Box::new(|_| Ok(())) }
            });
            if s.violation.is_none() && s.schedules == 1 { Ok(()) } else { Err(format!("{:?}", s)) }
        });
    }
    // A lost update: final values of two load-then-store increments are {1, 2}, both reached.
    ctx.check(1, || "lost-update".into(), || {
        let seen = Arc::new(Mutex::new(std::collections::BTreeSet::new()));
        let s2 = seen.clone();
        let s = explore(&Cfg::new(n, Mode::Full), &move || {
            let x = Arc::new(AtomicUsize::new(0));
            let out = Arc::new(Mutex::new(0));
            let t = |x: Arc<AtomicUsize>, out: Arc<Mutex<usize>>| -> Box<dyn FnOnce()> {
                Box::new(move || {
                    let v = x.load(SeqCst);
                    x.store(v + 1, SeqCst);
                    let mut o = out.lock().unwrap();
                    *o = (*o).max(v + 1);
                })
            };
            let (seen, o) = (s2.clone(), out.clone());
            Program { threads: vec![t(x.clone(), out.clone()), t(x, out)], tail: None, finish: Box::new(move |_| { seen.lock().unwrap().insert(*o.lock().unwrap()); Ok(()) }) }
        });
        let v: Vec<usize> = seen.lock().unwrap().iter().cloned().collect();
        if s.violation.is_none() && v == vec![1, 2] && s.schedules == 4 { Ok(()) } else { Err(format!("{:?} {:?}", v, s)) }
    });
    // Two threads waiting for each other are found; so is a wait inside the only worker.
    ctx.check(1, || "deadlock".into(), || {
        let s = explore(&Cfg::new(n, Mode::Full), &|| {
            let (a, b) = (Gate::new(), Gate::new());
            let (a2, b2) = (a.clone(), b.clone());
            Program { threads: vec![Box::new(move || { a.pass(); b.open() }), Box::new(move || { b2.pass(); a2.open() })], tail: None, finish: Box::new(|_| Ok(())) }
        });
        match s.violation { Some(v) if v.what.starts_with("deadlock") => Ok(()), v => Err(format!("{:?}", v)) }
    });
    ctx.check(1, || "abort".into(), || {
        let s = explore(&Cfg::new(n, Mode::Full), &|| Program { threads: vec![Box::new(|| rayon::spawn(|| panic!("boom")))], tail: None, finish: Box::new(|_| Ok(())) });
        match s.violation { Some(v) if v.what.contains("abort") => Ok(()), v => Err(format!("{:?}", v)) }
    });
    // Results of join and scope reach the caller in every schedule; panics propagate.
    ctx.check(1, || "join".into(), || {
        let s = explore(&Cfg::new(n, Mode::Full), &|| {
            let out = Arc::new(Mutex::new(0));
            let o = out.clone();
            Program {
                threads: vec![Box::new(move || {
                    let (a, (b, c)) = rayon::join(|| 1, || rayon::join(|| 10, || { let mut v = [0; 2]; { let (x, y) = v.split_at_mut(1); rayon::scope(|s| { s.spawn(move |_| x[0] = 100); s.spawn(move |_| y[0] = 1000); }); } v[0] + v[1] }));
                    *o.lock().unwrap() = a + b + c;
                })],
                tail: None,
                finish: Box::new(move |_| if *out.lock().unwrap() == 1111 { Ok(()) } else { Err("wrong result".into()) }),
            }
        });
        ctx.count("selftest_join_schedules", s.schedules);
        if s.violation.is_none() && s.complete { Ok(()) } else { Err(format!("{:?}", s)) }
    });
    ctx.check(1, || "panic".into(), || {
        let s = explore(&Cfg::new(n, Mode::Full), &|| Program {
            threads: vec![Box::new(|| { rayon::scope(|s| { s.spawn(|_| panic!("inside")); s.spawn(|_| ()); }) })],
            tail: None,
            finish: Box::new(|e| match &e.threads[0] { Err(p) if p == "inside" => Ok(()), t => Err(format!("{:?}", t)) }),
        });
        if s.violation.is_none() && s.complete { Ok(()) } else { Err(format!("{:?}", s)) }
    });
    // The bounded modes explore subsets that grow with the bound and find the same things.
    ctx.check(1, || "bounded".into(), || {
        let count = |m| explore(&Cfg::new(n, m), &|| {
            let x = Arc::new(AtomicUsize::new(0));
            let t = |x: Arc<AtomicUsize>| -> Box<dyn FnOnce()> { Box::new(move || for _ in 0..3 { x.fetch_add(1, SeqCst); }) };
            Program { threads: vec![t(x.clone()), t(x)], tail: None, finish: Box::new(|_| Ok(())) }
        }).schedules;
        let p: Vec<u64> = (0..6).map(|k| count(Mode::Preempt(k))).collect();
        // Schedules of two 4-step threads (start + 3 writes): all C(8,4) = 70 in the end.
        if p[0] == 2 && p.windows(2).all(|w| w[0] <= w[1]) && count(Mode::Preempt(20)) == 70 && count(Mode::Deviate(20)) == 70 { Ok(()) } else { Err(format!("{:?} {}", p, count(Mode::Deviate(20)))) }
    });
}
