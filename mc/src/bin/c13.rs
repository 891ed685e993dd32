//! C13 on the real thread pool (or the serial implementation): every client program of a bounded
//! space runs to its end with the right results and exactly one execution per task.  The schedules
//! are the machine's; s13 explores them exhaustively.
use bellman::multicore::{Waiter, Worker};
use mc::report::{guard, Ctx};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const PAR: bool = cfg!(feature = "par");
fn threads() -> usize {
    std::env::var("RAYON_NUM_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum A {
    S(usize),
    W(usize),
    D(usize),
}
fn scripts(k: usize) -> Vec<Vec<A>> {
    fn go(next: usize, end: usize, open: Vec<usize>, cur: &mut Vec<A>, out: &mut Vec<Vec<A>>) {
        if next == end && open.is_empty() {
            out.push(cur.clone());
            return;
        }
        if next < end {
            cur.push(A::S(next));
            let mut o = open.clone();
            o.push(next);
            go(next + 1, end, o, cur, out);
            cur.pop();
        }
        for (j, &t) in open.iter().enumerate() {
            let mut o = open.clone();
            o.remove(j);
            for a in [A::W(t), A::D(t)] {
                cur.push(a);
                go(next, end, o.clone(), cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(0, k, vec![], &mut vec![], &mut out);
    out
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Body {
    Plain,
    /// Submits a task and drops its waiter.
    Nest,
    /// A scope of several parts, each submitting a task.
    Scope,
    /// A chain of this many nested submissions.
    Chain(usize),
}
fn spawned(b: Body) -> usize {
    match b {
        Body::Plain => 1,
        Body::Nest => 2,
        Body::Scope => 4,
        Body::Chain(d) => d + 1,
    }
}
fn task(b: Body, runs: Arc<AtomicUsize>, v: u64) -> u64 {
    let w = Worker::new();
    match b {
        Body::Plain => {}
        Body::Nest => {
            let r = runs.clone();
            drop(w.compute(move || task(Body::Plain, r, 0)));
        }
        Body::Scope => {
            let (r, w2) = (&runs, &w);
            w.scope(3, |s, _| {
                for _ in 0..3 {
                    let (r, w2) = (r.clone(), w2.clone());
                    s.spawn(move |_| drop(w2.compute(move || task(Body::Plain, r, 0))));
                }
            });
        }
        Body::Chain(d) => {
            if d > 0 {
                let r = runs.clone();
                drop(w.compute(move || task(Body::Chain(d - 1), r, 0)));
            }
        }
    }
    runs.fetch_add(1, SeqCst);
    v
}
fn settle(runs: &[Arc<AtomicUsize>], want: &[usize]) -> Result<(), String> {
    let t = Instant::now();
    loop {
        let got: Vec<usize> = runs.iter().map(|r| r.load(SeqCst)).collect();
        if got == want || t.elapsed() > Duration::from_secs(if PAR { 20 } else { 2 }) {
            // A little longer, to see executions too many.
            if got == want {
                std::thread::yield_now();
            }
            let got: Vec<usize> = runs.iter().map(|r| r.load(SeqCst)).collect();
            return if got == want { Ok(()) } else { Err(format!("executions {:?}, expected {:?}", got, want)) };
        }
        std::thread::yield_now();
    }
}
/// Run scripts on one OS thread each.
fn run(users: &[(Vec<A>, Vec<Body>)]) -> Result<(), String> {
    let runs: Vec<Vec<Arc<AtomicUsize>>> = users.iter().map(|(_, b)| b.iter().map(|_| Arc::new(AtomicUsize::new(0))).collect()).collect();
    let r = std::thread::scope(|s| {
        let hs: Vec<_> = users
            .iter()
            .zip(&runs)
            .enumerate()
            .map(|(u, ((script, bodies), runs))| {
                s.spawn(move || -> Result<(), String> {
                    guard(|| {
                        let w = Worker::new();
                        let mut ws: Vec<Option<Waiter<u64>>> = bodies.iter().map(|_| None).collect();
                        for a in script {
                            match *a {
                                A::S(i) => {
                                    let (b, r) = (bodies[i], runs[i].clone());
                                    ws[i] = Some(w.compute(move || task(b, r, (u * 1000 + i) as u64)));
                                }
                                A::W(i) => {
                                    let got = ws[i].take().unwrap().wait();
                                    if got != (u * 1000 + i) as u64 {
                                        return Err(format!("waiter {} of user {} received {}", i, u, got));
                                    }
                                    if runs[i].load(SeqCst) < 1 {
                                        return Err(format!("wait {} returned before its task ran", i));
                                    }
                                }
                                A::D(i) => drop(ws[i].take()),
                            }
                        }
                        Ok(())
                    })?
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect::<Result<Vec<_>, _>>()
    });
    r?;
    for ((_, b), r) in users.iter().zip(&runs) {
        settle(r, &b.iter().map(|b| spawned(*b)).collect::<Vec<_>>())?;
    }
    Ok(())
}
fn accounting(n: usize) -> Result<(), String> {
    let gate = Arc::new((Mutex::new(false), Condvar::new()));
    let w = Worker::new();
    let m = 4 * n;
    let (tx, rx) = std::sync::mpsc::channel();
    let g2 = gate.clone();
    std::thread::spawn(move || {
        let ws: Vec<Waiter<usize>> = (0..m)
            .map(|i| {
                let g = g2.clone();
                w.compute(move || {
                    let mut o = g.0.lock().unwrap();
                    while !*o {
                        o = g.1.wait(o).unwrap();
                    }
                    i
                })
            })
            .collect();
        let _ = tx.send(());
        ws.into_iter().enumerate().for_each(|(i, w)| assert_eq!(w.wait(), i));
        let _ = tx.send(());
    });
    let r = rx.recv_timeout(Duration::from_secs(10));
    *gate.0.lock().unwrap() = true;
    gate.1.notify_all();
    // If the submissions are through only now, two messages are left.
    let mut r2 = rx.recv_timeout(Duration::from_secs(20));
    if r.is_err() && r2.is_ok() {
        r2 = rx.recv_timeout(Duration::from_secs(20));
    }
    r.map_err(|_| format!("one of {} submissions waits for a task although nothing else is outstanding", m))?;
    r2.map_err(|_| "blocked tasks do not end after the gate opens".to_string())
}
fn main() {
    let cx = Ctx::new("C13");
    static BEAT: AtomicU64 = AtomicU64::new(0);
    std::thread::spawn(|| {
        let mut last = 0;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = BEAT.load(SeqCst);
            if b != last {
                last = b;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(120) {
                eprintln!("no progress for 120 s: a client program hangs");
                std::process::exit(4);
            }
        }
    });
    let n = threads();
    let bodies = [Body::Plain, Body::Nest, Body::Scope, Body::Chain(3)];
    let go = |name: String, users: &[(Vec<A>, Vec<Body>)]| {
        if cx.failed() { return; }
        cx.check(users.iter().map(|u| u.1.len() as u64).sum(), || name.clone(), || run(users));
        BEAT.fetch_add(1, SeqCst);
    };
    match cx.part.as_str() {
        "programs" => {
            let reps = cx.tier(3, 10);
            for k in 1..=3usize {
                for (si, s) in scripts(k).into_iter().enumerate() {
                    for code in 0..bodies.len().pow(k as u32) {
                        if cx.failed() {
                            break;
                        }
                        let b: Vec<Body> = (0..k).map(|i| bodies[code / bodies.len().pow(i as u32) % bodies.len()]).collect();
                        for rep in 0..reps {
                            go(format!("one/{}/{:?}/{:?}/{}", si, s, b, rep), &[(s.clone(), b.clone())]);
                        }
                    }
                }
            }
            for a in scripts(2) {
                for b in scripts(1) {
                    for ab in bodies {
                        go(format!("two/{:?}|{:?}/{:?}", a, b, ab), &[(a.clone(), vec![ab, Body::Plain]), (b.clone(), vec![ab])]);
                    }
                }
            }
            cx.bound("programs", "every script of up to 3 tasks x every body; two users with 2+1 tasks; run several times on the real pool");
        }
        "overflow" => {
            // Around and far beyond the backlog limit.
            for k in [4 * n - 1, 4 * n, 4 * n + 1, 4 * n + 2, 8 * n, 50 * n + 7, 2000] {
                for b in bodies.iter().chain(&[Body::Chain(40)]) {
                    let orders: Vec<(&str, Vec<A>)> = vec![
                        ("fwd", (0..k).map(A::W).collect()),
                        ("rev", (0..k).rev().map(A::W).collect()),
                        ("drop", (0..k).map(A::D).collect()),
                        ("alt", (0..k).map(|i| if i % 2 == 0 { A::W(i) } else { A::D(i) }).collect()),
                    ];
                    for (nm, o) in orders {
                        let s: Vec<A> = (0..k).map(A::S).chain(o).collect();
                        go(format!("overflow{}/{}/{:?}", k, nm, b), &[(s.clone(), vec![*b; k])]);
                        go(format!("overflow-two{}/{}/{:?}", k, nm, b), &[(s.clone(), vec![*b; k]), (s, vec![*b; k])]);
                    }
                }
            }
            // Tasks that submit more tasks than the limit from inside the pool.
            for m in [4 * n + 2, 100 * n] {
                cx.check(1, || format!("inside{}", m), || {
                    let r = Arc::new(AtomicUsize::new(0));
                    let r2 = r.clone();
                    let w = Worker::new();
                    let got = w.compute(move || { let w = Worker::new(); for _ in 0..m { let r = r2.clone(); drop(w.compute(move || { r.fetch_add(1, SeqCst); })); } 5 }).wait();
                    if got != 5 { return Err(format!("received {}", got)); }
                    settle(&[r], &[m])
                });
                BEAT.fetch_add(1, SeqCst);
            }
            // After all that the accounting is back: a full complement of blocked tasks does not
            // make submission wait.
            if PAR {
                cx.check(1, || "accounting".into(), || {
                    let mut last = Ok(());
                    for _ in 0..4 {
                        // Tasks that have delivered their result may still be on their way out.
                        std::thread::sleep(Duration::from_millis(200));
                        last = accounting(n);
                        if last.is_ok() {
                            break;
                        }
                    }
                    last
                });
                cx.check(1, || "wait-inside".into(), || {
                    let w = Worker::new();
                    let r = w.compute(|| { let w = Worker::new(); let inner = w.compute(|| 1); guard(move || inner.wait()).is_err() }).wait();
                    if r { Ok(()) } else { Err("wait() inside the pool did not panic".into()) }
                });
            }
            cx.bound("overflow", "0 to 2000 outstanding tasks around every multiple of the limit");
        }
        "log" => {
            cx.check(1, || "log_num_threads".into(), || {
                let got = Worker::new().log_num_threads();
                let want = if PAR { usize::BITS - 1 - n.leading_zeros() } else { 0 };
                if got == want { Ok(()) } else { Err(format!("{} for {} threads", got, n)) }
            });
            // Chunks: at least one element each, all elements covered, for every length.
            for len in 0..cx.tier(2000usize, 20000) {
                cx.check(1, || format!("chunk{}", len), || {
                    let mut v = vec![0u8; len];
                    let c = Worker::new().scope(len, |s, c| { for x in v.chunks_mut(c) { s.spawn(move |_| for y in x.iter_mut() { *y += 1 }); } c });
                    if c > 0 && v.iter().all(|x| *x == 1) { Ok(()) } else { Err(format!("chunk {}", c)) }
                });
            }
            BEAT.fetch_add(1, SeqCst);
        }
        p => panic!("no part {}", p),
    }
    cx.sample(|| format!("part {} with {} threads, parallel: {}", cx.part, n, PAR));
    cx.finish();
}
