//! Running client programs under the controlled scheduler (see ../shim/mcsched).
use crate::report::{par_for, Ctx};
pub use mcsched::{Cfg, End, Mode, Program, Stats};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

pub struct Prog {
    pub name: String,
    pub cfg: Cfg,
    pub mk: Box<dyn Fn() -> Program + Send + Sync>,
}

fn base() -> Box<dyn FnOnce()> {
    rayon_core::mc_worker_main()
}
pub fn explore(cfg: &Cfg, mk: &dyn Fn() -> Program) -> Stats {
    mcsched::explore(cfg, mk, &base)
}

/// Panics of explored threads are judged, not printed.
pub fn install_quiet() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !mcsched::quiet() {
            old(i)
        }
    }));
}

/// If explored code blocks outside the scheduler's view (for example in a std channel), there is
/// no verdict: exit code 3.  If it runs for ever without a scheduling point, that is a hang.
pub fn watchdog(secs: u64) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    if ONCE.is_completed() {
        return;
    }
    ONCE.call_once(|| ());
    std::thread::spawn(move || {
        let mut last = mcsched::BEAT.load(Ordering::Relaxed);
        let blocked = std::env::var("MC_BLOCKED").ok().and_then(|s| s.parse().ok()).unwrap_or(40);
        let mut quiet = 0;
        let mut running = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = mcsched::BEAT.load(Ordering::Relaxed);
            if now != last {
                last = now;
                quiet = 0;
                running = 0;
                continue;
            }
            quiet += 1;
            let mut r = 0;
            if let Ok(d) = std::fs::read_dir("/proc/self/task") {
                for t in d.flatten() {
                    let s = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
                    if s.rsplit(')').next().map_or(false, |x| x.trim_start().starts_with('R')) {
                        r += 1;
                    }
                }
            }
            // This thread itself counts as running while it reads the file.
            if r > 1 {
                running += 1;
            }
            // No thread wants to run at all: one of them waits for something the explorer does not know.
            if quiet >= blocked && running == 0 {
                eprintln!("no scheduling point for {} s: blocked outside the controlled scheduler", quiet);
                std::process::exit(3);
            }
            if quiet >= secs {
                if running * 2 > quiet {
                    eprintln!("no scheduling point for {} s while running: the program does not terminate", secs);
                    std::process::exit(4);
                }
                eprintln!("no scheduling point for {} s: blocked outside the controlled scheduler", secs);
                std::process::exit(3);
            }
        }
    });
}

/// Explore all programs on 8 OS threads.
pub fn run_all(ctx: &Ctx, progs: Vec<Prog>) {
    install_quiet();
    watchdog(100);
    let stop = AtomicBool::new(false);
    // Time is a bound too: what is left then is reported as not covered.
    let secs = std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(ctx.tier(120u64, 5400));
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(secs);
    par_for(progs.len(), 8, |i| {
        let p = &progs[i];
        if stop.load(Ordering::Relaxed) {
            return;
        }
        if let Some(o) = &ctx.only {
            if &p.name != o {
                return;
            }
        }
        let mut cfg = p.cfg.clone();
        cfg.deadline = Some(deadline);
        let s = explore(&cfg, &*p.mk);
        if !s.complete && s.violation.is_none() {
            ctx.count("programs_cut_off", 1);
        }
        ctx.states(s.nodes);
        ctx.trans(s.steps);
        ctx.traces_add(s.schedules);
        ctx.count("schedules_pruned_as_equivalent", s.pruned);
        ctx.count("programs", 1);
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!("{}: {:?}", p.name, s);
        }
        ctx.sample(|| format!("{} ({:?}, {} workers): {} schedules, longest {} steps", p.name, p.cfg.mode, p.cfg.workers, s.schedules, s.max_steps));
        if !s.complete {
            ctx.not_exhaustive();
        }
        if let Some(v) = s.violation {
            let mut sch = v.schedule;
            if sch.len() > 1500 {
                sch = format!("...{}", &sch[sch.len() - 1500..]);
            }
            ctx.violation(&p.name, format!("{}; after schedule: {}", v.what, sch));
            if ctx.failed() {
                stop.store(true, Ordering::Relaxed);
            }
        }
    });
}

/// A gate tasks can block on until it is opened (a channel, so the scheduler sees it).
#[derive(Clone)]
pub struct Gate(crossbeam_channel::Receiver<()>, Arc<std::sync::Mutex<Option<crossbeam_channel::Sender<()>>>>);
impl Gate {
    pub fn new() -> Gate {
        let (s, r) = crossbeam_channel::bounded(1);
        Gate(r, Arc::new(std::sync::Mutex::new(Some(s))))
    }
    pub fn open(&self) {
        let s = self.1.lock().unwrap().take();
        drop(s);
    }
    pub fn pass(&self) {
        let _ = self.0.recv();
    }
}
