//! Readers and writers with controlled chunking and faults.
use std::io::{self, ErrorKind, Read, Write};

#[derive(Clone, Debug)]
pub enum Fault {
    None,
    /// every call moves at most this many bytes
    Max(usize),
    /// the k-th call moves list[k % len] bytes; 0 = Interrupted
    Pattern(Vec<usize>),
    /// fail with this kind once `at` bytes were moved
    Error(usize, ErrorKind),
    /// end of file / zero-length write once `at` bytes were moved
    Stop(usize),
    /// fail with this kind once `at` bytes were moved, the first time only
    Once(usize, ErrorKind, std::cell::Cell<bool>),
    /// end of file / zero-length write once `at` bytes were moved, the first time only
    StopOnce(usize, std::cell::Cell<bool>),
}
impl Fault {
    pub fn once(at: usize, kind: ErrorKind) -> Fault { Fault::Once(at, kind, Default::default()) }
    pub fn stop_once(at: usize) -> Fault { Fault::StopOnce(at, Default::default()) }
}
pub struct FReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub calls: usize,
    pub fault: Fault,
}
impl<'a> FReader<'a> {
    pub fn new(data: &'a [u8], fault: Fault) -> Self {
        FReader { data, pos: 0, calls: 0, fault }
    }
}
fn amount(f: &Fault, pos: usize, calls: usize, want: usize) -> io::Result<usize> {
    Ok(match f {
        Fault::None => want,
        Fault::Max(k) => want.min(*k),
        Fault::Pattern(l) => {
            let k = l[calls % l.len()];
            if k == 0 {
                return Err(ErrorKind::Interrupted.into());
            }
            want.min(k)
        }
        Fault::Error(at, kind) => {
            if pos >= *at {
                return Err((*kind).into());
            }
            want.min(at - pos)
        }
        Fault::Stop(at) => want.min(at.saturating_sub(pos)),
        Fault::Once(at, kind, done) => {
            if pos < *at {
                want.min(at - pos)
            } else if done.replace(true) {
                want
            } else {
                return Err((*kind).into());
            }
        }
        Fault::StopOnce(at, done) => {
            if pos < *at {
                want.min(at - pos)
            } else if done.replace(true) {
                want
            } else {
                0
            }
        }
    })
}
impl<'a> Read for FReader<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        let n = amount(&self.fault, self.pos, self.calls - 1, b.len().min(self.data.len() - self.pos))?;
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub struct FWriter {
    pub data: Vec<u8>,
    pub calls: usize,
    pub fault: Fault,
}
impl FWriter {
    pub fn new(fault: Fault) -> Self {
        FWriter { data: vec![], calls: 0, fault }
    }
}
impl Write for FWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        let n = amount(&self.fault, self.data.len(), self.calls - 1, b.len())?;
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// All patterns of per-call sizes (0 = interrupted, last entry never 0) up to length n over `al`.
pub fn patterns(n: usize, al: &[usize]) -> Vec<Vec<usize>> {
    let mut r: Vec<Vec<usize>> = vec![];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        cur = cur.into_iter().flat_map(|v| al.iter().map(move |a| { let mut v = v.clone(); v.push(*a); v })).collect();
        r.extend(cur.iter().filter(|v| v.iter().any(|x| *x > 0)).cloned());
    }
    r
}
