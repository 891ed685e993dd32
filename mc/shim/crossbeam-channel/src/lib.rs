//! crossbeam-channel's interface on top of the controlled scheduler (see ../mcsched).
use std::collections::VecDeque;
use std::fmt;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Shared<T> {
    id: u64,
    /// Made outside an exploration: no scheduling, one thread only.
    direct: bool,
    cap: Option<usize>,
    q: Mutex<VecDeque<T>>,
    counts: Mutex<(usize, usize)>,
}
impl<T> Shared<T> {
    fn controlled(&self) -> bool {
        !self.direct && mcsched::chan_known(self.id)
    }
}
pub struct Sender<T>(Arc<Shared<T>>);
pub struct Receiver<T>(Arc<Shared<T>>);

fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let id = mcsched::chan_new(cap);
    let s = Arc::new(Shared { id, direct: !mcsched::chan_known(id), cap, q: Mutex::new(VecDeque::new()), counts: Mutex::new((1, 1)) });
    (Sender(s.clone()), Receiver(s))
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    make(Some(cap))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    make(None)
}

#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
impl<T> SendError<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<T> fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        "SendError(..)".fmt(f)
    }
}
impl<T> fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        "sending on a disconnected channel".fmt(f)
    }
}
impl<T: Send> std::error::Error for SendError<T> {}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> {
    Full(T),
    Disconnected(T),
}
impl<T> TrySendError<T> {
    pub fn into_inner(self) -> T {
        match self {
            TrySendError::Full(v) | TrySendError::Disconnected(v) => v,
        }
    }
    pub fn is_full(&self) -> bool {
        matches!(self, TrySendError::Full(_))
    }
    pub fn is_disconnected(&self) -> bool {
        matches!(self, TrySendError::Disconnected(_))
    }
}
impl<T> fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            TrySendError::Full(_) => "Full(..)".fmt(f),
            TrySendError::Disconnected(_) => "Disconnected(..)".fmt(f),
        }
    }
}
impl<T> fmt::Display for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl<T: Send> std::error::Error for TrySendError<T> {}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
impl fmt::Display for RecvError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        "receiving on an empty and disconnected channel".fmt(f)
    }
}
impl std::error::Error for RecvError {}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError {
    Empty,
    Disconnected,
}
impl TryRecvError {
    pub fn is_empty(&self) -> bool {
        *self == TryRecvError::Empty
    }
    pub fn is_disconnected(&self) -> bool {
        *self == TryRecvError::Disconnected
    }
}
impl fmt::Display for TryRecvError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl std::error::Error for TryRecvError {}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum RecvTimeoutError {
    Timeout,
    Disconnected,
}
impl fmt::Display for RecvTimeoutError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl std::error::Error for RecvTimeoutError {}

impl<T> Sender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> {
        let s = &self.0;
        if !s.controlled() {
            if s.counts.lock().unwrap().1 == 0 {
                return Err(SendError(v));
            }
            s.q.lock().unwrap().push_back(v);
            return Ok(());
        }
        match mcsched::chan_send(s.id) {
            Err(()) => Err(SendError(v)),
            Ok(()) => {
                s.q.lock().unwrap().push_back(v);
                match mcsched::chan_offer_wait(s.id) {
                    Ok(()) => Ok(()),
                    // The receiver went away: the value comes back.
                    Err(()) => Err(SendError(s.q.lock().unwrap().pop_back().unwrap())),
                }
            }
        }
    }
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        let s = &self.0;
        if !s.controlled() {
            if s.counts.lock().unwrap().1 == 0 {
                return Err(TrySendError::Disconnected(v));
            }
            let mut q = s.q.lock().unwrap();
            if s.cap.map_or(false, |c| q.len() >= c) {
                return Err(TrySendError::Full(v));
            }
            q.push_back(v);
            return Ok(());
        }
        match mcsched::chan_try_send(s.id) {
            Ok(()) => {
                s.q.lock().unwrap().push_back(v);
                Ok(())
            }
            Err(true) => Err(TrySendError::Disconnected(v)),
            Err(false) => Err(TrySendError::Full(v)),
        }
    }
    pub fn send_timeout(&self, v: T, _: Duration) -> Result<(), SendError<T>> {
        self.send(v)
    }
    pub fn len(&self) -> usize {
        if self.0.controlled() {
            mcsched::chan_len(self.0.id)
        } else {
            self.0.q.lock().unwrap().len()
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        self.0.cap.map_or(false, |c| self.len() >= c)
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.cap
    }
}
impl<T> Receiver<T> {
    fn take(&self) -> T {
        self.0.q.lock().unwrap().pop_front().unwrap()
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        let s = &self.0;
        if !s.controlled() {
            return s.q.lock().unwrap().pop_front().ok_or_else(|| {
                assert_eq!(s.counts.lock().unwrap().0, 0, "recv outside an exploration would block for ever");
                RecvError
            });
        }
        mcsched::chan_recv(s.id).map(|_| self.take()).map_err(|_| RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let s = &self.0;
        if !s.controlled() {
            return s.q.lock().unwrap().pop_front().ok_or_else(|| {
                if s.counts.lock().unwrap().0 == 0 {
                    TryRecvError::Disconnected
                } else {
                    TryRecvError::Empty
                }
            });
        }
        mcsched::chan_try_recv(s.id).map(|_| self.take()).map_err(|d| if d { TryRecvError::Disconnected } else { TryRecvError::Empty })
    }
    /// Time does not pass in an exploration: a timeout may strike whenever the channel is empty.
    pub fn recv_timeout(&self, _: Duration) -> Result<T, RecvTimeoutError> {
        self.try_recv().map_err(|e| match e {
            TryRecvError::Empty => RecvTimeoutError::Timeout,
            TryRecvError::Disconnected => RecvTimeoutError::Disconnected,
        })
    }
    pub fn recv_deadline(&self, _: Instant) -> Result<T, RecvTimeoutError> {
        self.recv_timeout(Duration::from_secs(0))
    }
    pub fn len(&self) -> usize {
        if self.0.controlled() {
            mcsched::chan_len(self.0.id)
        } else {
            self.0.q.lock().unwrap().len()
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.cap
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for TryIter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        mcsched::chan_clone(self.0.id, true);
        self.0.counts.lock().unwrap().0 += 1;
        Sender(self.0.clone())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        mcsched::chan_clone(self.0.id, false);
        self.0.counts.lock().unwrap().1 += 1;
        Receiver(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        if self.0.controlled() {
            mcsched::chan_drop(self.0.id, true);
        }
        self.0.counts.lock().unwrap().0 -= 1;
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        if self.0.controlled() {
            mcsched::chan_drop(self.0.id, false);
        }
        let left = {
            let mut c = self.0.counts.lock().unwrap();
            c.1 -= 1;
            c.1
        };
        if left == 0 && self.0.cap != Some(0) {
            // What nobody can receive any more is dropped.
            let q: Vec<T> = self.0.q.lock().unwrap().drain(..).collect();
            drop(q);
        }
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Sender { .. }")
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Receiver { .. }")
    }
}

/// Replacements of the atomics of std::sync::atomic whose accesses are scheduling points.
pub mod mc_atomic {
    pub use std::sync::atomic::Ordering;
    use std::sync::atomic as real;
    macro_rules! int {
        ($name:ident, $real:ident, $t:ty, $to:expr, $from:expr) => {
            #[derive(Default)]
            pub struct $name(real::$real);
            #[allow(dead_code)]
            impl $name {
                pub const fn new(v: $t) -> Self {
                    $name(real::$real::new(v))
                }
                fn op(&self, write: bool, f: impl FnOnce($t) -> Option<$t>) -> $t {
                    if mcsched::active() {
                        let init = self.0.load(Ordering::SeqCst);
                        let to: fn($t) -> u64 = $to;
                        let from: fn(u64) -> $t = $from;
                        from(mcsched::atomic(self as *const _ as usize, to(init), write, |v| f(from(v)).map(to)))
                    } else {
                        let old = self.0.load(Ordering::SeqCst);
                        if let Some(v) = f(old) {
                            self.0.store(v, Ordering::SeqCst);
                        }
                        old
                    }
                }
                pub fn load(&self, _: Ordering) -> $t {
                    self.op(false, |_| None)
                }
                pub fn store(&self, v: $t, _: Ordering) {
                    self.op(true, |_| Some(v));
                }
                pub fn swap(&self, v: $t, _: Ordering) -> $t {
                    self.op(true, |_| Some(v))
                }
                pub fn compare_exchange(&self, cur: $t, new: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    let r = self.op(true, |v| if v == cur { Some(new) } else { None });
                    if r == cur {
                        Ok(r)
                    } else {
                        Err(r)
                    }
                }
                pub fn compare_exchange_weak(&self, cur: $t, new: $t, a: Ordering, b: Ordering) -> Result<$t, $t> {
                    self.compare_exchange(cur, new, a, b)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                    let mut ok = false;
                    let r = self.op(true, |v| {
                        let n = f(v);
                        ok = n.is_some();
                        n
                    });
                    if ok {
                        Ok(r)
                    } else {
                        Err(r)
                    }
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.load(Ordering::SeqCst)
                }
            }
            impl Drop for $name {
                fn drop(&mut self) {
                    mcsched::atomic_forget(self as *const _ as usize);
                }
            }
            impl std::fmt::Debug for $name {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    self.0.fmt(f)
                }
            }
        };
    }
    macro_rules! arith {
        ($name:ident, $real:ident, $t:ty) => {
            int!($name, $real, $t, |v| v as u64, |v| v as $t);
            #[allow(dead_code)]
            impl $name {
                pub fn fetch_add(&self, d: $t, _: Ordering) -> $t {
                    self.op(true, |v| Some(v.wrapping_add(d)))
                }
                pub fn fetch_sub(&self, d: $t, _: Ordering) -> $t {
                    self.op(true, |v| Some(v.wrapping_sub(d)))
                }
                pub fn fetch_max(&self, d: $t, _: Ordering) -> $t {
                    self.op(true, |v| Some(v.max(d)))
                }
                pub fn fetch_min(&self, d: $t, _: Ordering) -> $t {
                    self.op(true, |v| Some(v.min(d)))
                }
                pub fn fetch_and(&self, d: $t, _: Ordering) -> $t {
                    self.op(true, |v| Some(v & d))
                }
                pub fn fetch_or(&self, d: $t, _: Ordering) -> $t {
                    self.op(true, |v| Some(v | d))
                }
                pub fn fetch_xor(&self, d: $t, _: Ordering) -> $t {
                    self.op(true, |v| Some(v ^ d))
                }
            }
        };
    }
    arith!(AtomicUsize, AtomicUsize, usize);
    arith!(AtomicIsize, AtomicIsize, isize);
    arith!(AtomicU64, AtomicU64, u64);
    arith!(AtomicI64, AtomicI64, i64);
    arith!(AtomicU32, AtomicU32, u32);
    arith!(AtomicI32, AtomicI32, i32);
    int!(AtomicBool, AtomicBool, bool, |v| v as u64, |v| v != 0);
    impl AtomicBool {
        pub fn fetch_and(&self, d: bool, _: Ordering) -> bool {
            self.op(true, |v| Some(v & d))
        }
        pub fn fetch_or(&self, d: bool, _: Ordering) -> bool {
            self.op(true, |v| Some(v | d))
        }
    }
    pub fn fence(_: Ordering) {}
}
