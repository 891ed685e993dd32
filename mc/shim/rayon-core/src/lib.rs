//! rayon-core 1.11's interface and scheduling discipline on top of the controlled scheduler
//! (see ../mcsched).  What each worker does -- LIFO own deque, FIFO stealing, FIFO injector,
//! working while it waits -- follows rayon-core's registry; sleeping and waking up do not exist
//! here, because a worker that finds nothing is simply not schedulable.
use mcsched::Job;
use std::any::Any;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// The body of an idle pool worker.
pub fn mc_worker_main() -> Box<dyn FnOnce()> {
    Box::new(|| loop {
        if let Some(j) = mcsched::find(None) {
            (j.f)()
        }
    })
}

pub fn max_num_threads() -> usize {
    (1 << 16) - 1
}
pub fn current_num_threads() -> usize {
    mcsched::num_threads()
}
pub fn current_thread_index() -> Option<usize> {
    mcsched::worker_index()
}

unsafe fn job<'a>(id: u64, f: Box<dyn FnOnce() + 'a>) -> Job {
    Job { id, f: std::mem::transmute::<Box<dyn FnOnce() + 'a>, Box<dyn FnOnce() + 'static>>(f) }
}
fn push_or_inject(j: Job) {
    if mcsched::worker_index().is_some() {
        mcsched::push(j)
    } else {
        mcsched::inject(j)
    }
}
fn wait_until(latch: u64) {
    if mcsched::latch_probe(latch) {
        return;
    }
    loop {
        match mcsched::find(Some(latch)) {
            Some(j) => (j.f)(),
            None => return,
        }
        if mcsched::latch_probe(latch) {
            return;
        }
    }
}

/// Runs `op` on a pool worker; `op` learns whether it had to move there.
fn in_worker<R: Send>(op: impl FnOnce(bool) -> R + Send) -> R {
    if !mcsched::active() || mcsched::worker_index().is_some() {
        return op(false);
    }
    let latch = mcsched::new_latch(1);
    let mut res: Option<std::thread::Result<R>> = None;
    {
        let slot = &mut res as *mut Option<std::thread::Result<R>>;
        let f: Box<dyn FnOnce() + '_> = Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(|| op(true)));
            unsafe { *slot = Some(r) };
            mcsched::latch_dec(latch);
        });
        mcsched::inject(unsafe { job(mcsched::new_job_id(), f) });
    }
    mcsched::latch_block(latch);
    match res.unwrap() {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    }
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| oper_a(), |_| oper_b())
}

struct Sendable<T>(T);
unsafe impl<T> Send for Sendable<T> {}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !mcsched::active() {
        let a = oper_a(FnContext::new(false));
        return (a, oper_b(FnContext::new(false)));
    }
    in_worker(move |injected| {
        let latch = mcsched::new_latch(1);
        let id = mcsched::new_job_id();
        let mut b: Option<B> = Some(oper_b);
        let mut res_b: Option<std::thread::Result<RB>> = None;
        let (bp, rp) = (&mut b as *mut Option<B>, &mut res_b as *mut Option<std::thread::Result<RB>>);
        let f: Box<dyn FnOnce() + '_> = Box::new(move || {
            let op = unsafe { (*bp).take().unwrap() };
            let r = catch_unwind(AssertUnwindSafe(|| op(FnContext::new(true))));
            unsafe { *rp = Some(r) };
            mcsched::latch_dec(latch);
        });
        mcsched::push(unsafe { job(id, f) });
        let a = match catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(injected)))) {
            Ok(a) => a,
            Err(p) => {
                wait_until(latch);
                resume_unwind(p)
            }
        };
        while !mcsched::latch_probe(latch) {
            match mcsched::pop_local() {
                Some(j) if j.id == id => {
                    drop(j);
                    let op = unsafe { (*bp).take().unwrap() };
                    return (a, op(FnContext::new(injected)));
                }
                Some(j) => (j.f)(),
                None => {
                    wait_until(latch);
                    break;
                }
            }
        }
        match unsafe { (*rp).take().unwrap() } {
            Ok(r) => (a, r),
            Err(p) => resume_unwind(p),
        }
    })
}

struct Base {
    latch: u64,
    panic: Rc<RefCell<Option<Box<dyn Any + Send>>>>,
    direct: bool,
}
impl Base {
    fn new() -> Base {
        let direct = !mcsched::active();
        Base { latch: if direct { 0 } else { mcsched::new_latch(1) }, panic: Rc::new(RefCell::new(None)), direct }
    }
    fn start<'s>(&self, f: Box<dyn FnOnce() + 's>) {
        if self.direct {
            if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
                self.panic.borrow_mut().get_or_insert(p);
            }
            return;
        }
        mcsched::latch_inc(self.latch);
        let (latch, panic) = (self.latch, self.panic.clone());
        let g: Box<dyn FnOnce() + 's> = Box::new(move || {
            if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
                panic.borrow_mut().get_or_insert(p);
            }
            mcsched::latch_dec(latch);
        });
        push_or_inject(unsafe { job(mcsched::new_job_id(), g) });
    }
    fn complete<R>(&self, op: impl FnOnce() -> R) -> R {
        let r = match catch_unwind(AssertUnwindSafe(op)) {
            Ok(r) => Some(r),
            Err(p) => {
                self.panic.borrow_mut().get_or_insert(p);
                None
            }
        };
        if !self.direct {
            mcsched::latch_dec(self.latch);
            if mcsched::worker_index().is_some() {
                wait_until(self.latch)
            } else {
                mcsched::latch_block(self.latch)
            }
        }
        let p = self.panic.borrow_mut().take();
        if let Some(p) = p {
            resume_unwind(p)
        }
        r.unwrap()
    }
}

macro_rules! scopes {
    ($Scope:ident, $scope:ident, $in_place:ident, $spawn:ident, $spawn_b:ident) => {
        pub struct $Scope<'scope> {
            base: Base,
            marker: PhantomData<Box<dyn FnOnce(&$Scope<'scope>) + Send + Sync + 'scope>>,
        }
        unsafe impl<'scope> Send for $Scope<'scope> {}
        unsafe impl<'scope> Sync for $Scope<'scope> {}
        impl<'scope> std::fmt::Debug for $Scope<'scope> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.pad("Scope { .. }")
            }
        }
        impl<'scope> $Scope<'scope> {
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$Scope<'scope>) + Send + 'scope,
            {
                let me = Sendable(self as *const $Scope<'scope>);
                self.base.start(Box::new(move || {
                    let me = me;
                    body(unsafe { &*me.0 })
                }));
            }
            pub fn $spawn_b<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                for index in 0..current_num_threads() {
                    body(self, BroadcastContext { index, _marker: PhantomData })
                }
            }
        }
        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$Scope<'scope>) -> R + Send,
            R: Send,
        {
            in_worker(move |_| {
                let s = $Scope { base: Base::new(), marker: PhantomData };
                s.base.complete(|| op(&s))
            })
        }
        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$Scope<'scope>) -> R,
        {
            let s = $Scope { base: Base::new(), marker: PhantomData };
            s.base.complete(|| op(&s))
        }
    };
}
scopes!(Scope, scope, in_place_scope, spawn, spawn_broadcast);
scopes!(ScopeFifo, scope_fifo, in_place_scope_fifo, spawn_fifo, spawn_broadcast);

pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    if !mcsched::active() {
        return func();
    }
    let f: Box<dyn FnOnce()> = Box::new(move || {
        if let Err(p) = catch_unwind(AssertUnwindSafe(func)) {
            // rayon: "Rayon: detected unexpected panic; aborting"
            mcsched::abort(format!("a spawned task panicked: {}", mcsched::message(&*p)))
        }
    });
    push_or_inject(Job { id: mcsched::new_job_id(), f });
}
pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn(func)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
fn yielding(local: bool) -> Option<Yield> {
    if !mcsched::active() || mcsched::worker_index().is_none() {
        return None;
    }
    Some(match mcsched::try_find(local) {
        Some(j) => {
            (j.f)();
            Yield::Executed
        }
        None => {
            mcsched::spin_hint();
            Yield::Idle
        }
    })
}
pub fn yield_now() -> Option<Yield> {
    yielding(false)
}
pub fn yield_local() -> Option<Yield> {
    yielding(true)
}

pub struct BroadcastContext<'a> {
    index: usize,
    _marker: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        current_num_threads()
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    (0..current_num_threads()).map(|index| op(BroadcastContext { index, _marker: PhantomData })).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    for index in 0..current_num_threads() {
        op(BroadcastContext { index, _marker: PhantomData })
    }
}

/// Pools other than the global one are not modelled: work given to them runs on the global one.
#[derive(Debug, Default)]
pub struct ThreadPool(());
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        in_worker(move |_| op())
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn(op)
    }
}
#[derive(Debug)]
pub struct ThreadBuilder(());
#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad("ThreadPoolBuildError")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Debug, Default)]
pub struct ThreadPoolBuilder(());
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder(())
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(()))
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
