//! Command line, counters, violations and the JSON a part writes for the driver.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Ctx {
    pub id: &'static str,
    pub thorough: bool,
    pub part: String,
    pub only: Option<String>,
    out: Option<String>,
    t0: Instant,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    evals: AtomicU64,
    exhaustive: AtomicBool,
    samples: Mutex<Vec<String>>,
    bounds: Mutex<BTreeMap<String, String>>,
    extra: Mutex<BTreeMap<String, u64>>,
    violations: Mutex<Vec<(String, String, String)>>,
    digests: Mutex<BTreeMap<String, String>>,
    distinct: Vec<Mutex<HashSet<u64>>>,
}

fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

thread_local! {
    static QUIET: std::cell::Cell<bool> = std::cell::Cell::new(false);
    static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

/// Run `f`, turning a panic into Err(message); the panic message is not printed.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        let loc = LAST.with(|l| l.borrow().clone());
        format!("{} ({})", m, loc)
    })
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let loc = i.location().map(|l| l.to_string()).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = loc);
        if !QUIET.with(|q| q.get()) && std::env::var_os("MC_QUIET_ALL").is_none() {
            old(i);
        }
    }));
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    pub fn new(id: &'static str) -> Ctx {
        install_hook();
        let mut c = Ctx {
            id,
            thorough: false,
            part: "all".into(),
            only: None,
            out: None,
            t0: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            evals: AtomicU64::new(0),
            exhaustive: AtomicBool::new(true),
            samples: Mutex::new(vec![]),
            bounds: Mutex::new(BTreeMap::new()),
            extra: Mutex::new(BTreeMap::new()),
            violations: Mutex::new(vec![]),
            digests: Mutex::new(BTreeMap::new()),
            distinct: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
        };
        let a: Vec<String> = std::env::args().collect();
        let mut i = 1;
        while i < a.len() {
            match a[i].as_str() {
                "--tier" => {
                    c.thorough = a[i + 1] == "thorough";
                    i += 1;
                }
                "--part" => {
                    c.part = a[i + 1].clone();
                    i += 1;
                }
                "--out" => {
                    c.out = Some(a[i + 1].clone());
                    i += 1;
                }
                "--only" => {
                    c.only = Some(a[i + 1].clone());
                    i += 1;
                }
                x => panic!("unknown argument {}", x),
            }
            i += 1;
        }
        c
    }
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// Model states / points of the bounded space visited.
    pub fn states(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    /// Implementation steps (API operations, scheduling steps) executed.
    pub fn trans(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    /// Complete runs of the implementation compared with the reference model.
    pub fn trace(&self) {
        self.traces.fetch_add(1, Ordering::Relaxed);
    }
    pub fn traces_add(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }
    pub fn evals(&self, n: u64) {
        self.evals.fetch_add(n, Ordering::Relaxed);
    }
    /// Count `h` as a state if it was not seen before (exact up to 64-bit hashing; capped).
    pub fn distinct(&self, h: u64) -> bool {
        let mut d = self.distinct[(h & 63) as usize].lock().unwrap();
        if d.len() < 500_000 && d.insert(h) {
            self.states(1);
            true
        } else {
            false
        }
    }
    pub fn not_exhaustive(&self) {
        self.exhaustive.store(false, Ordering::Relaxed);
    }
    pub fn bound(&self, k: &str, v: impl ToString) {
        self.bounds.lock().unwrap().insert(k.into(), v.to_string());
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.extra.lock().unwrap().entry(k.into()).or_insert(0) += n;
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 3 {
            let v = f();
            s.push(v);
        }
    }
    /// Record a violation. `key` identifies the failing input/history.
    pub fn violation(&self, key: impl ToString, what: impl ToString) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 20 {
            v.push((self.part.clone(), key.to_string(), what.to_string()));
        }
    }
    pub fn failed(&self) -> bool {
        self.violations.lock().unwrap().len() >= 5
    }
    /// Compare; on difference (or panic) record a violation. Counts as one case.
    pub fn check(&self, steps: u64, key: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        let k = key();
        if let Some(o) = &self.only {
            if &k != o {
                return;
            }
        }
        self.distinct(hash(&k));
        self.trans(steps);
        self.trace();
        match guard(f) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => self.violation(k, e),
            Err(p) => self.violation(k, format!("panicked: {}", p)),
        }
    }
    /// A result the driver compares between configurations (it is not judged here).
    pub fn result(&self, steps: u64, key: String, f: impl FnOnce() -> String) {
        if let Some(o) = &self.only {
            if &key != o {
                return;
            }
        }
        self.distinct(hash(&key));
        self.trans(steps);
        self.trace();
        match guard(f) {
            Ok(s) => {
                let short: String = s.chars().take(60).collect();
                self.digests.lock().unwrap().insert(key, format!("{:016x} {}", hash(&s), short));
            }
            Err(p) => self.violation(key, format!("panicked: {}", p)),
        }
    }
    pub fn finish(&self) -> ! {
        let v = self.violations.lock().unwrap();
        let mut o = String::from("{");
        o += &format!("\"id\":{},\"part\":{},", js(self.id), js(&self.part));
        o += &format!(
            "\"states\":{},\"transitions\":{},\"traces\":{},\"evaluations\":{},\"exhaustive\":{},\"wall_s\":{:.3},",
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.traces.load(Ordering::Relaxed),
            self.evals.load(Ordering::Relaxed),
            self.exhaustive.load(Ordering::Relaxed),
            self.t0.elapsed().as_secs_f64()
        );
        let l = |x: &Vec<String>| x.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        o += &format!("\"samples\":[{}],", l(&self.samples.lock().unwrap()));
        let b = self.bounds.lock().unwrap();
        o += &format!(
            "\"bounds\":{{{}}},",
            b.iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect::<Vec<_>>().join(",")
        );
        let e = self.extra.lock().unwrap();
        o += &format!(
            "\"extra\":{{{}}},",
            e.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
        );
        o += &format!(
            "\"violations\":[{}]}}",
            v.iter()
                .map(|(p, k, w)| format!("{{\"part\":{},\"key\":{},\"what\":{}}}", js(p), js(k), js(w)))
                .collect::<Vec<_>>()
                .join(",")
        );
        let d = self.digests.lock().unwrap();
        if !d.is_empty() {
            o.pop();
            o += &format!(",\"digests\":{{{}}}}}", d.iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect::<Vec<_>>().join(","));
        }
        if let Some(p) = &self.out {
            std::fs::write(p, &o).unwrap();
        } else {
            println!("{}", o);
        }
        std::io::stdout().flush().ok();
        std::process::exit(if v.is_empty() { 0 } else { 1 })
    }
}

/// Run `n` jobs on std threads (never rayon threads: waiters refuse to block in the pool).
pub fn par_for(n: usize, threads: usize, f: impl Fn(usize) + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads.max(1) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n {
                    break;
                }
                f(i)
            });
        }
    });
}
