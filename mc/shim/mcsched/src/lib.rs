//! A controlled scheduler for the code above rayon-core and crossbeam-channel.
//!
//! Every logical thread (pool worker or user thread) is a coroutine.  It runs until its next
//! *visible operation* (queue push, job take, latch test/decrement, channel operation, atomic
//! access), announces it and stops; the engine then picks which thread's pending operation
//! happens next.  `explore` enumerates every such choice, re-executing the program for each
//! schedule; see `Mode` for the bounds.
mod fiber;
use fiber::{mcsched_switch, Stack};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Steps taken by all explorations of the process.
pub static BEAT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub type Fid = usize;
pub type Oid = u64;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ChanOp {
    Send,
    Offer,
    OfferDone,
    Recv,
    TrySend,
    TryRecv,
    DropTx,
    DropRx,
    Look,
}

/// The operation a thread is about to perform.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Start,
    /// A scheduling point that touches nothing.
    Yield,
    Atomic { addr: Oid, write: bool },
    Push { w: usize },
    Inject,
    PopLocal { w: usize },
    Probe { latch: Oid },
    Dec { latch: Oid },
    /// Wait (not a pool worker) until the latch is set.
    Block { latch: Oid },
    /// A pool worker looking for something to do, until the latch (if any) is set.
    Find { w: usize, latch: Option<Oid> },
    /// One attempt of a worker to find something to do (yield_now / yield_local).
    TryFind { w: usize, local_only: bool },
    Chan { chan: Oid, op: ChanOp },
    Done,
}

/// What a chosen transition does (an `Op` with its option resolved).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Eff {
    Nothing,
    /// Looked for work and found none.
    Miss,
    Atomic { addr: Oid, write: bool },
    Push { w: usize },
    Inject,
    TakeLocal { w: usize },
    TakeInjected,
    Steal { from: usize },
    Latch { latch: Oid },
    Dec { latch: Oid },
    Chan { chan: Oid, op: ChanOp },
    Exit,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Tr {
    pub fid: Fid,
    pub eff: Eff,
}

fn dependent(a: &Tr, b: &Tr) -> bool {
    if a.fid == b.fid {
        return true;
    }
    use Eff::*;
    match (a.eff, b.eff) {
        (Atomic { addr: x, write: w }, Atomic { addr: y, write: v }) => x == y && (w || v),
        // A push goes to the back and a steal takes from the front: if both are possible they commute.
        (Push { .. }, Steal { .. }) | (Steal { .. }, Push { .. }) => false,
        (TakeLocal { w }, Steal { from }) | (Steal { from }, TakeLocal { w }) => w == from,
        (Steal { from: x }, Steal { from: y }) => x == y,
        (Inject, Inject) => true,
        (Miss, Inject) | (Inject, Miss) | (Miss, Push { .. }) | (Push { .. }, Miss) => true,
        (TakeInjected, TakeInjected) => true,
        (Latch { latch: x }, Dec { latch: y }) | (Dec { latch: x }, Latch { latch: y }) => x == y,
        (Chan { chan: x, .. }, Chan { chan: y, .. }) => x == y,
        _ => false,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// Every schedule, up to exchanging adjacent independent operations (sleep sets).
    Full,
    /// Every schedule with at most `k` switches away from a thread that could go on, and any
    /// choice at the points where a thread has to stop or picks a job.
    Preempt(usize),
    /// Every schedule with at most `d` departures from the default one.
    Deviate(usize),
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub workers: usize,
    pub mode: Mode,
    pub max_steps: usize,
    pub max_runs: u64,
    /// (i, m): explore only the part i of m (by the position of the first departure); Deviate only.
    pub shard: Option<(usize, usize)>,
    /// Stop (incomplete) at this time.
    pub deadline: Option<std::time::Instant>,
}
impl Cfg {
    pub fn new(workers: usize, mode: Mode) -> Cfg {
        Cfg { workers, mode, max_steps: 60_000, max_runs: u64::MAX, shard: None, deadline: None }
    }
}

pub struct Job {
    pub id: u64,
    pub f: Box<dyn FnOnce()>,
}

struct Fiber {
    stack: Option<Stack>,
    sp: usize,
    entry: Option<Box<dyn FnOnce()>>,
    pending: Op,
    chosen: Eff,
    done: bool,
    worker: Option<usize>,
    next_id: u64,
    /// Looked at something without effect; waits for another thread to do something.
    spin: bool,
    last_load: Option<(Oid, u64)>,
    panic: Option<String>,
}

#[derive(Default)]
struct Chan {
    cap: Option<usize>,
    len: usize,
    tx: usize,
    rx: usize,
    offers: VecDeque<(Fid, bool)>,
}

struct World {
    fibers: Vec<Fiber>,
    engine_sp: usize,
    current: Option<Fid>,
    n: usize,
    deques: Vec<VecDeque<Job>>,
    injector: VecDeque<Job>,
    latches: BTreeMap<Oid, usize>,
    chans: BTreeMap<Oid, Chan>,
    atomics: BTreeMap<usize, (Oid, u64, u64)>,
    got: Option<Job>,
    abort: Option<String>,
    jobs_run: u64,
    next_id: u64,
}

thread_local! {
    static WORLD: Cell<*mut World> = Cell::new(std::ptr::null_mut());
    static QUIET: Cell<bool> = Cell::new(false);
}

fn world() -> Option<&'static mut World> {
    let p = WORLD.with(|w| w.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}
/// True when called from a thread of the program being explored.
pub fn active() -> bool {
    world().map_or(false, |w| w.current.is_some())
}
pub fn num_threads() -> usize {
    match world() {
        Some(w) => w.n,
        None => std::env::var("RAYON_NUM_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
    }
}
pub fn worker_index() -> Option<usize> {
    world().and_then(|w| w.current.and_then(|f| w.fibers[f].worker))
}
/// Is the explored thread unwinding (then no scheduling point may be taken)?
fn unwinding() -> bool {
    std::thread::panicking()
}

fn fresh(w: &mut World) -> Oid {
    // Identifiers are given per thread, so that they do not depend on the interleaving.
    let f = w.current.unwrap_or(0xffff);
    if f == 0xffff {
        w.next_id += 1;
        w.next_id
    } else {
        let fb = &mut w.fibers[f];
        fb.next_id += 1;
        ((f as u64 + 1) << 32) | fb.next_id
    }
}
fn static_next() -> Oid {
    thread_local! { static N: Cell<u64> = Cell::new(0); }
    N.with(|n| {
        n.set(n.get() + 1);
        (1 << 60) | n.get()
    })
}

/// Announce `op`, let the engine run others, return the resolved effect.
fn switch(op: Op) -> Eff {
    let w = world().unwrap();
    let f = w.current.unwrap();
    w.fibers[f].pending = op;
    unsafe {
        let to = w.engine_sp;
        let save: *mut usize = &mut w.fibers[f].sp;
        mcsched_switch(save, to);
    }
    world().unwrap().fibers[f].chosen
}

extern "C" fn fiber_main() -> ! {
    let w = world().unwrap();
    let f = w.current.unwrap();
    let e = w.fibers[f].entry.take().unwrap();
    let r = catch_unwind(AssertUnwindSafe(e));
    let w = world().unwrap();
    if let Err(p) = r {
        w.fibers[f].panic = Some(message(&*p));
    }
    w.fibers[f].done = true;
    switch(Op::Done);
    unreachable!()
}

pub fn message(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

// ---------------------------------------------------------------- operations for the shims

pub fn yield_point() {
    if active() && !unwinding() {
        switch(Op::Yield);
    }
}
pub fn new_latch(count: usize) -> Oid {
    let w = world().unwrap();
    let id = fresh(w);
    w.latches.insert(id, count);
    id
}
pub fn latch_inc(l: Oid) {
    *world().unwrap().latches.get_mut(&l).unwrap() += 1;
}
pub fn latch_dec(l: Oid) {
    if !unwinding() {
        switch(Op::Dec { latch: l });
    }
    let c = world().unwrap().latches.get_mut(&l).unwrap();
    *c = c.checked_sub(1).expect("latch set twice");
}
pub fn latch_probe(l: Oid) -> bool {
    if !unwinding() {
        switch(Op::Probe { latch: l });
    }
    world().unwrap().latches[&l] == 0
}
pub fn latch_block(l: Oid) {
    switch(Op::Block { latch: l });
}
pub fn new_job_id() -> u64 {
    fresh(world().unwrap())
}
pub fn push(job: Job) {
    let i = worker_index().unwrap();
    if !unwinding() {
        switch(Op::Push { w: i });
    }
    world().unwrap().deques[i].push_back(job);
}
pub fn inject(job: Job) {
    if !unwinding() {
        switch(Op::Inject);
    }
    world().unwrap().injector.push_back(job);
}
pub fn pop_local() -> Option<Job> {
    let i = worker_index().unwrap();
    switch(Op::PopLocal { w: i });
    world().unwrap().deques[i].pop_back()
}
fn take(eff: Eff) -> Option<Job> {
    let w = world().unwrap();
    let j = match eff {
        Eff::TakeLocal { w: i } => w.deques[i].pop_back(),
        Eff::TakeInjected => w.injector.pop_front(),
        Eff::Steal { from } => w.deques[from].pop_front(),
        _ => return None,
    };
    assert!(j.is_some(), "scheduler: job vanished");
    w.jobs_run += 1;
    j
}
/// None: the latch is set.
pub fn find(latch: Option<Oid>) -> Option<Job> {
    let i = worker_index().unwrap();
    take(switch(Op::Find { w: i, latch }))
}
/// One attempt at finding work.
pub fn try_find(local_only: bool) -> Option<Job> {
    let i = worker_index().unwrap();
    take(switch(Op::TryFind { w: i, local_only }))
}
/// The process would abort here.
pub fn abort(msg: String) -> ! {
    world().unwrap().abort = Some(msg);
    switch(Op::Done);
    unreachable!()
}

pub fn chan_new(cap: Option<usize>) -> Oid {
    match world() {
        Some(w) => {
            let id = fresh(w);
            w.chans.insert(id, Chan { cap, tx: 1, rx: 1, ..Chan::default() });
            id
        }
        None => static_next(),
    }
}
fn chan(id: Oid) -> Option<&'static mut Chan> {
    world().and_then(|w| w.chans.get_mut(&id))
}
pub fn chan_known(id: Oid) -> bool {
    chan(id).is_some()
}
/// Ok(()) if the value may be put in the queue, Err if there is no receiver.
pub fn chan_send(id: Oid) -> Result<(), ()> {
    let rendezvous = chan(id).unwrap().cap == Some(0);
    if unwinding() {
        let c = chan(id).unwrap();
        if c.rx == 0 {
            return Err(());
        }
        c.len += 1;
        return Ok(());
    }
    if rendezvous {
        switch(Op::Chan { chan: id, op: ChanOp::Offer });
        let c = chan(id).unwrap();
        if c.rx == 0 {
            return Err(());
        }
        let f = world().unwrap().current.unwrap();
        c.offers.push_back((f, false));
        return Ok(());
    }
    switch(Op::Chan { chan: id, op: ChanOp::Send });
    let c = chan(id).unwrap();
    if c.rx == 0 {
        return Err(());
    }
    c.len += 1;
    Ok(())
}
/// After `chan_send` on a rendezvous channel: wait until the offer is taken.
pub fn chan_offer_wait(id: Oid) -> Result<(), ()> {
    if chan(id).unwrap().cap != Some(0) || unwinding() {
        return Ok(());
    }
    switch(Op::Chan { chan: id, op: ChanOp::OfferDone });
    let f = world().unwrap().current.unwrap();
    let c = chan(id).unwrap();
    let i = c.offers.iter().position(|o| o.0 == f).unwrap();
    let taken = c.offers[i].1;
    c.offers.remove(i);
    if taken {
        Ok(())
    } else {
        Err(())
    }
}
fn chan_take(c: &mut Chan) -> Result<(), bool> {
    if c.cap == Some(0) {
        if let Some(o) = c.offers.iter_mut().find(|o| !o.1) {
            o.1 = true;
            return Ok(());
        }
    } else if c.len > 0 {
        c.len -= 1;
        return Ok(());
    }
    Err(c.tx == 0)
}
pub fn chan_try_send(id: Oid) -> Result<(), bool> {
    if !unwinding() {
        switch(Op::Chan { chan: id, op: ChanOp::TrySend });
    }
    let c = chan(id).unwrap();
    if c.rx == 0 {
        return Err(true);
    }
    if c.cap.map_or(false, |k| c.len >= k) {
        return Err(false);
    }
    c.len += 1;
    Ok(())
}
/// Ok: a value is available; Err: disconnected.
pub fn chan_recv(id: Oid) -> Result<(), ()> {
    if unwinding() {
        return chan_take(chan(id).unwrap()).map_err(|_| ());
    }
    switch(Op::Chan { chan: id, op: ChanOp::Recv });
    chan_take(chan(id).unwrap()).map_err(|_| ())
}
/// Err(true): disconnected, Err(false): empty.
pub fn chan_try_recv(id: Oid) -> Result<(), bool> {
    if !unwinding() {
        switch(Op::Chan { chan: id, op: ChanOp::TryRecv });
    }
    let r = chan_take(chan(id).unwrap());
    let w = world().unwrap();
    if r == Err(false) {
        if let Some(f) = w.current {
            w.fibers[f].spin = true;
        }
    }
    r
}
pub fn chan_len(id: Oid) -> usize {
    if !unwinding() {
        switch(Op::Chan { chan: id, op: ChanOp::Look });
    }
    chan(id).unwrap().len
}
pub fn chan_clone(id: Oid, tx: bool) {
    if let Some(c) = chan(id) {
        if tx {
            c.tx += 1
        } else {
            c.rx += 1
        }
    }
}
pub fn chan_drop(id: Oid, tx: bool) {
    if chan(id).is_none() {
        return;
    }
    if active() && !unwinding() {
        switch(Op::Chan { chan: id, op: if tx { ChanOp::DropTx } else { ChanOp::DropRx } });
    }
    if let Some(c) = chan(id) {
        if tx {
            c.tx -= 1
        } else {
            c.rx -= 1
        }
    }
}

/// Run `f` on the current value of the atomic at `addr`; returns f's result.  `f` gives the
/// new value, if it writes.
pub fn atomic(addr: usize, init: u64, write: bool, f: impl FnOnce(u64) -> Option<u64>) -> u64 {
    let w = world().unwrap();
    if !w.atomics.contains_key(&addr) {
        let id = fresh(w);
        w.atomics.insert(addr, (id, init, init));
    }
    let id = w.atomics[&addr].0;
    if active() && !unwinding() {
        switch(Op::Atomic { addr: id, write });
    }
    let w = world().unwrap();
    let e = w.atomics.get_mut(&addr).unwrap();
    let old = e.2;
    let new = f(old);
    let wrote = new.map_or(false, |v| {
        e.2 = v;
        true
    });
    if let Some(c) = w.current {
        let fb = &mut w.fibers[c];
        // A second look that saw the same value: give the others a turn.
        fb.spin = !wrote && fb.last_load == Some((id, old));
        fb.last_load = if wrote { None } else { Some((id, old)) };
    }
    old
}
pub fn atomic_forget(addr: usize) {
    if let Some(w) = world() {
        w.atomics.remove(&addr);
    }
}
/// Let every other runnable thread go first.
pub fn spin_hint() {
    if active() && !unwinding() {
        let w = world().unwrap();
        let f = w.current.unwrap();
        w.fibers[f].spin = true;
        switch(Op::Yield);
    }
}

// ---------------------------------------------------------------- exploration

/// What is left when nothing can move any more.
#[derive(Debug, Clone)]
pub struct End {
    /// Per user thread: Ok or the panic that ended it.
    pub threads: Vec<Result<(), String>>,
    /// Atomics whose value differs from their initial one: (initial, final).
    pub changed_atomics: Vec<(u64, u64)>,
    pub queued_jobs: usize,
    pub jobs_run: u64,
    pub steps: usize,
}

pub struct Program {
    pub threads: Vec<Box<dyn FnOnce()>>,
    /// Runs on a fresh user thread after everything has come to rest, under the default
    /// schedule only.
    pub tail: Option<Box<dyn FnOnce()>>,
    /// Judges the end state of one schedule.
    pub finish: Box<dyn FnOnce(&End) -> Result<(), String>>,
}

#[derive(Clone, Debug, Default)]
pub struct Found {
    pub what: String,
    pub schedule: String,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    /// Complete schedules judged.
    pub schedules: u64,
    /// Runs cut short because an equivalent schedule had been explored.
    pub pruned: u64,
    /// Visible operations executed.
    pub steps: u64,
    pub max_steps: usize,
    /// Distinct decision points of the schedule tree.
    pub nodes: u64,
    pub complete: bool,
    pub violation: Option<Found>,
}

#[derive(Clone)]
struct Node {
    opts: Vec<Tr>,
    /// Index of the option taken on the current path.
    idx: usize,
    sleep: Vec<Tr>,
    /// Cost of the path up to here.
    cost: usize,
    costs: Vec<usize>,
}

impl World {
    fn new(n: usize) -> Box<World> {
        Box::new(World {
            fibers: vec![],
            engine_sp: 0,
            current: None,
            n,
            deques: (0..n).map(|_| VecDeque::new()).collect(),
            injector: VecDeque::new(),
            latches: BTreeMap::new(),
            chans: BTreeMap::new(),
            atomics: BTreeMap::new(),
            got: None,
            abort: None,
            jobs_run: 0,
            next_id: 0,
        })
    }
    fn add(&mut self, worker: Option<usize>, entry: Box<dyn FnOnce()>) {
        let stack = Stack::get();
        let sp = stack.prepare(fiber_main);
        self.fibers.push(Fiber {
            stack: Some(stack),
            sp,
            entry: Some(entry),
            pending: Op::Start,
            chosen: Eff::Nothing,
            done: false,
            worker,
            next_id: 0,
            spin: false,
            last_load: None,
            panic: None,
        });
    }
    fn is_idle(&self, f: Fid) -> bool {
        matches!(self.fibers[f].pending, Op::Find { w, latch: None } if self.deques[w].is_empty())
    }
    fn options(&self, f: Fid, out: &mut Vec<Tr>, idle_seen: &mut bool) {
        let fb = &self.fibers[f];
        let mut add = |eff| out.push(Tr { fid: f, eff });
        match fb.pending {
            Op::Done => {}
            Op::Start | Op::Yield => add(Eff::Nothing),
            Op::Atomic { addr, write } => add(Eff::Atomic { addr, write }),
            Op::Push { w } => add(Eff::Push { w }),
            Op::Inject => add(Eff::Inject),
            Op::PopLocal { w } => add(Eff::TakeLocal { w }),
            Op::Probe { latch } => add(Eff::Latch { latch }),
            Op::Dec { latch } => add(Eff::Dec { latch }),
            Op::Block { latch } => {
                if self.latches[&latch] == 0 {
                    add(Eff::Latch { latch })
                }
            }
            Op::Find { w, latch } => {
                if let Some(l) = latch {
                    if self.latches[&l] == 0 {
                        add(Eff::Latch { latch: l });
                    }
                } else if self.deques[w].is_empty() {
                    // Idle workers are interchangeable: only one of them is offered work.
                    if *idle_seen {
                        return;
                    }
                    *idle_seen = true;
                }
                if !self.deques[w].is_empty() {
                    add(Eff::TakeLocal { w });
                    return;
                }
                for i in 0..self.n {
                    if i != w && !self.deques[i].is_empty() {
                        add(Eff::Steal { from: i });
                    }
                }
                if !self.injector.is_empty() {
                    add(Eff::TakeInjected);
                }
            }
            Op::TryFind { w, local_only } => {
                let mut any = false;
                if !self.deques[w].is_empty() {
                    any = true;
                    add(Eff::TakeLocal { w });
                } else if !local_only {
                    for i in 0..self.n {
                        if i != w && !self.deques[i].is_empty() {
                            any = true;
                            add(Eff::Steal { from: i });
                        }
                    }
                    if !self.injector.is_empty() {
                        any = true;
                        add(Eff::TakeInjected);
                    }
                }
                if !any {
                    add(Eff::Miss);
                }
            }
            Op::Chan { chan, op } => {
                let c = &self.chans[&chan];
                let ok = match op {
                    ChanOp::Send => c.rx == 0 || c.cap.map_or(true, |k| c.len < k),
                    ChanOp::Recv => {
                        c.tx == 0 || if c.cap == Some(0) { c.offers.iter().any(|o| !o.1) } else { c.len > 0 }
                    }
                    ChanOp::OfferDone => c.rx == 0 || c.offers.iter().any(|o| o.0 == f && o.1),
                    _ => true,
                };
                if ok {
                    add(Eff::Chan { chan, op })
                }
            }
        }
    }
    /// Enabled transitions, the thread that ran last first.
    fn enabled(&self, last: Option<Fid>) -> Vec<Tr> {
        let mut out = vec![];
        let m = self.fibers.len();
        let start = last.unwrap_or(0);
        // The representative of the idle workers is the one with the lowest index.
        let idle = (0..m).find(|&f| self.is_idle(f));
        for pass in 0..2 {
            for k in 0..m {
                let f = (start + k) % m;
                if self.fibers[f].spin != (pass == 1) {
                    continue;
                }
                if self.is_idle(f) && Some(f) != idle {
                    continue;
                }
                let mut seen = false;
                self.options(f, &mut out, &mut seen);
            }
            // Threads that only spin run when nobody else can.
            if !out.is_empty() {
                break;
            }
        }
        out
    }
    fn step(&mut self, t: Tr) {
        self.fibers[t.fid].chosen = t.eff;
        for (i, fb) in self.fibers.iter_mut().enumerate() {
            if i != t.fid {
                fb.spin = false;
            }
        }
        self.fibers[t.fid].spin = false;
        if !matches!(t.eff, Eff::Atomic { .. }) {
            self.fibers[t.fid].last_load = None;
        }
        self.current = Some(t.fid);
        let to = self.fibers[t.fid].sp;
        unsafe {
            let save: *mut usize = &mut self.engine_sp;
            mcsched_switch(save, to);
        }
        self.current = None;
    }
    fn describe(&self, t: &Tr) -> String {
        let who = match self.fibers[t.fid].worker {
            Some(i) => format!("w{}", i),
            None => format!("t{}", t.fid),
        };
        let what = match t.eff {
            Eff::Nothing => "go".into(),
            Eff::Miss => "miss".into(),
            Eff::Atomic { write, .. } => if write { "rmw".into() } else { "load".into() },
            Eff::Push { .. } => "push".to_string(),
            Eff::Inject => "inject".into(),
            Eff::TakeLocal { .. } => "local".into(),
            Eff::TakeInjected => "injected".into(),
            Eff::Steal { from } => format!("steal{}", from),
            Eff::Latch { .. } => "latch".into(),
            Eff::Dec { .. } => "dec".into(),
            Eff::Chan { op, .. } => format!("{:?}", op),
            Eff::Exit => "exit".into(),
        };
        format!("{}:{}", who, what)
    }
}

enum RunEnd {
    Judged(Result<(), String>),
    Pruned,
    Aborted(String),
    TooLong,
}

/// One execution: follow `path`, then extend it with first choices.  Returns how it ended.
fn run_once(cfg: &Cfg, mk: &dyn Fn() -> Program, base: &dyn Fn() -> Box<dyn FnOnce()>, path: &mut Vec<Node>, stats: &mut Stats, keep_log: bool) -> (RunEnd, String) {
    let mut w = World::new(cfg.workers);
    WORLD.with(|c| c.set(&mut *w));
    // Channels made while the program is built belong to this run.
    let mut prog = mk();
    let mut in_tail = false;
    let users = prog.threads.len();
    for t in prog.threads {
        w.add(None, t);
    }
    for i in 0..cfg.workers {
        w.add(Some(i), base());
        // The pool's threads are up and idle when the program begins.
        w.step(Tr { fid: users + i, eff: Eff::Nothing });
    }
    let mut depth = 0usize;
    let mut steps = 0usize;
    let mut last: Option<Fid> = None;
    let mut sleep: Vec<Tr> = vec![];
    let mut cost = 0usize;
    let mut pruned = false;
    let mut log: Vec<String> = vec![];
    let mut end: Option<RunEnd> = None;
    loop {
        if w.abort.is_some() {
            end = Some(RunEnd::Aborted(w.abort.take().unwrap()));
            break;
        }
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let opts = w.enabled(last);
        if opts.is_empty() {
            let all = (0..w.fibers.len()).all(|f| if w.fibers[f].worker.is_some() { w.is_idle(f) } else { w.fibers[f].done });
            if all && !in_tail && !pruned {
                if let Some(t) = prog.tail.take() {
                    in_tail = true;
                    w.add(None, t);
                    last = None;
                    continue;
                }
            }
            break;
        }
        if steps >= cfg.max_steps {
            end = Some(RunEnd::TooLong);
            break;
        }
        let t;
        if pruned || in_tail {
            t = opts[0];
        } else if opts.len() == 1 && cfg.mode != Mode::Full {
            t = opts[0];
        } else if match cfg.mode {
            // The bound is used up: no choice is left here.
            Mode::Deviate(k) => cost >= k,
            Mode::Preempt(k) => cost >= k && last == Some(opts[0].fid) && opts[1].fid != opts[0].fid,
            Mode::Full => false,
        } {
            t = opts[0];
        } else {
            if depth == path.len() {
                // A new decision point.
                let costs: Vec<usize> = match cfg.mode {
                    Mode::Full => vec![0; opts.len()],
                    Mode::Deviate(_) => (0..opts.len()).map(|i| (i > 0) as usize).collect(),
                    Mode::Preempt(_) => {
                        let can_go_on = last.map_or(false, |l| opts[0].fid == l);
                        opts.iter().map(|o| (can_go_on && Some(o.fid) != last) as usize).collect()
                    }
                };
                let idx = match cfg.mode {
                    Mode::Full => match opts.iter().position(|o| !sleep.contains(o)) {
                        Some(i) => i,
                        None => {
                            pruned = true;
                            0
                        }
                    },
                    _ => 0,
                };
                if !pruned {
                    stats.nodes += 1;
                    path.push(Node { opts: opts.clone(), idx, sleep: sleep.clone(), cost, costs });
                }
            }
            if pruned {
                t = opts[0];
            } else {
                let nd = &path[depth];
                if nd.opts != opts {
                    panic!("scheduler: the program is not deterministic under a fixed schedule:\n {:?}\n {:?}\n log {}", nd.opts, opts, log.join(" "));
                }
                t = nd.opts[nd.idx];
                cost += nd.costs[nd.idx];
                if cfg.mode == Mode::Full {
                    sleep = nd.sleep.iter().filter(|s| !dependent(s, &t)).cloned().collect();
                }
                depth += 1;
            }
        }
        if keep_log {
            log.push(w.describe(&t));
        }
        w.step(t);
        last = Some(t.fid);
        steps += 1;
    }
    stats.steps += steps as u64;
    stats.max_steps = stats.max_steps.max(steps);
    let _ = w.got.take();
    let r = match end {
        Some(e) => e,
        None => {
            let workers = users..users + cfg.workers;
            let stuck: Vec<String> = (0..w.fibers.len()).filter(|f| !workers.contains(f)).filter(|&f| !w.fibers[f].done).map(|f| format!("thread t{} at {:?}", f, w.fibers[f].pending)).collect();
            let busy: Vec<String> = workers.clone().filter(|&f| !w.is_idle(f)).map(|f| format!("worker w{} at {:?}", f - users, w.fibers[f].pending)).collect();
            if !stuck.is_empty() || !busy.is_empty() {
                RunEnd::Judged(Err(format!("deadlock{}: {}", if in_tail { " in the second phase, after everything had come to rest" } else { "" }, stuck.into_iter().chain(busy).collect::<Vec<_>>().join(", "))))
            } else {
                let e = End {
                    threads: (0..w.fibers.len()).filter(|f| !workers.contains(f)).map(|f| w.fibers[f].panic.clone().map_or(Ok(()), Err)).collect(),
                    changed_atomics: w.atomics.values().filter(|a| a.1 != a.2).map(|a| (a.1, a.2)).collect(),
                    queued_jobs: w.injector.len() + w.deques.iter().map(|d| d.len()).sum::<usize>(),
                    jobs_run: w.jobs_run,
                    steps,
                };
                if pruned {
                    RunEnd::Pruned
                } else {
                    RunEnd::Judged((prog.finish)(&e))
                }
            }
        }
    };
    WORLD.with(|c| c.set(std::ptr::null_mut()));
    for fb in w.fibers.iter_mut() {
        // The stack of a thread that did not finish is abandoned: what lives on it is leaked.
        if let Some(s) = fb.stack.take() {
            s.put();
        }
    }
    (r, log.join(" "))
}

/// Explore every schedule of the program `mk` builds, within `cfg`.
pub fn explore(cfg: &Cfg, mk: &dyn Fn() -> Program, base: &dyn Fn() -> Box<dyn FnOnce()>) -> Stats {
    let mut stats = Stats { complete: true, ..Stats::default() };
    let mut path: Vec<Node> = vec![];
    let bound = match cfg.mode {
        Mode::Full => 0,
        Mode::Preempt(k) | Mode::Deviate(k) => k,
    };
    let mut runs = 0u64;
    loop {
        let first = runs == 0;
        let was = QUIET.with(|q| q.replace(true));
        let (r, _) = run_once(cfg, mk, base, &mut path, &mut stats, false);
        QUIET.with(|q| q.set(was));
        runs += 1;
        let judged_elsewhere = first && cfg.shard.map_or(false, |s| s.0 != 0);
        let bad = match r {
            RunEnd::Judged(Ok(())) => {
                if !judged_elsewhere {
                    stats.schedules += 1;
                }
                None
            }
            RunEnd::Judged(Err(e)) => {
                stats.schedules += 1;
                Some(e)
            }
            RunEnd::Pruned => {
                stats.pruned += 1;
                None
            }
            RunEnd::Aborted(m) => Some(format!("the process would abort: {}", m)),
            RunEnd::TooLong => Some(format!("no end after {} steps", cfg.max_steps)),
        };
        if let Some(what) = bad {
            // The same schedule once more, written down.
            let was = QUIET.with(|q| q.replace(true));
            let mut again = path.clone();
            let (_, log) = run_once(cfg, mk, base, &mut again, &mut Stats::default(), true);
            QUIET.with(|q| q.set(was));
            stats.violation = Some(Found { what, schedule: log });
            return stats;
        }
        if runs >= cfg.max_runs || runs % 64 == 0 && cfg.deadline.map_or(false, |d| std::time::Instant::now() > d) {
            stats.complete = false;
            return stats;
        }
        // Backtrack.
        loop {
            let depth = path.len();
            let nd = match path.last_mut() {
                None => return stats,
                Some(n) => n,
            };
            let mut next = None;
            if cfg.mode == Mode::Full {
                let t = nd.opts[nd.idx];
                nd.sleep.push(t);
                next = (nd.idx + 1..nd.opts.len()).find(|&i| !nd.sleep.contains(&nd.opts[i]));
            } else {
                for i in nd.idx + 1..nd.opts.len() {
                    if nd.cost + nd.costs[i] > bound {
                        continue;
                    }
                    if let Some((s, m)) = cfg.shard {
                        if nd.cost == 0 && nd.costs[i] > 0 && (depth - 1) % m != s {
                            continue;
                        }
                    }
                    next = Some(i);
                    break;
                }
            }
            match next {
                Some(i) => {
                    nd.idx = i;
                    break;
                }
                None => {
                    path.pop();
                }
            }
        }
    }
}

/// Panic messages of explored threads are part of the exploration, not of the output.
pub fn quiet() -> bool {
    QUIET.with(|q| q.get())
}
