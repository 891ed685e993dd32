//! Parameters with planted faults, and what proving with them must do.
use crate::groth::*;
use crate::toy::*;
use bellman::multiexp::{Source, SourceBuilder};
use bellman::SynthesisError;
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use groth16::{ParameterSource, Parameters, VerifyingKey};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

pub const QUERIES: [&str; 5] = ["h", "l", "a", "b_g1", "b_g2"];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// Query vector cut to this length.
    Trunc(usize, usize),
    /// This element replaced by the identity.
    Ident(usize, usize),
    DeltaG1,
    DeltaG2,
    /// This many extra elements at the end (every second one the identity).
    Extend(usize, usize),
    /// The n-th call to the parameter source fails.
    Call(usize),
    /// The source of this query fails whenever this position is read or skipped.
    At(usize, usize),
    /// ... only when it is read.
    Read(usize, usize),
    /// ... only the first time.
    Once(usize, usize),
    /// The k-th operation (read or skip) on any of the sources fails, all others work.
    Op(usize),
}

/// h(x) = (a(x) b(x) - c(x)) / (x^m - 1) by schoolbook polynomial arithmetic.
pub fn h_coeffs<F: PrimeField>(s: &Spec<F>) -> Vec<F> {
    let exp = s.exp();
    let m = 1usize << exp;
    let mut om = F::ROOT_OF_UNITY;
    for _ in exp..F::S {
        om = om.square();
    }
    let oi = om.invert().unwrap();
    let minv = F::from(m as u64).invert().unwrap();
    let mut ev = vec![vec![F::ZERO; m]; 3];
    for (j, c) in s.cons.iter().enumerate() {
        for k in 0..3 {
            ev[k][j] = s.eval(&c[k]);
        }
    }
    for i in 0..=s.inp.len() {
        ev[0][s.cons.len() + i] = s.val(input(i));
    }
    let interp = |e: &Vec<F>| -> Vec<F> { (0..m).map(|i| (0..m).map(|j| e[j] * oi.pow_vartime(&[(i * j) as u64])).sum::<F>() * minv).collect() };
    let (a, b, c) = (interp(&ev[0]), interp(&ev[1]), interp(&ev[2]));
    let mut p = vec![F::ZERO; 2 * m];
    for i in 0..m {
        for j in 0..m {
            p[i + j] += a[i] * b[j];
        }
        p[i] -= c[i];
    }
    let mut h = vec![F::ZERO; m];
    for i in (m..2 * m).rev() {
        let x = p[i];
        h[i - m] = x;
        p[i] = F::ZERO;
        p[i - m] += x;
    }
    assert!(p.iter().all(|x| x.is_zero_vartime()), "witness does not satisfy the circuit");
    h.truncate(m - 1);
    h
}
/// Per query, the exponents its elements are raised to, in order.
pub fn exponents<F: PrimeField>(s: &Spec<F>, q: &Qap<F>) -> Vec<Vec<F>> {
    let val = |i: usize| if i == 0 { F::ONE } else if i < q.ni { s.inp[i - 1] } else { s.aux[i - q.ni] };
    let n = q.ni + q.na;
    let b: Vec<F> = (0..n).filter(|i| q.dv[*i]).map(val).collect();
    vec![h_coeffs(s), (q.ni..n).map(val).collect(), (0..n).filter(|i| *i < q.ni || q.du[*i]).map(val).collect(), b.clone(), b]
}
pub fn single_faults(ex: &[Vec<impl Field>]) -> Vec<Fault> {
    let mut f = vec![Fault::DeltaG1, Fault::DeltaG2];
    for (q, e) in ex.iter().enumerate() {
        for n in 0..e.len() {
            f.push(Fault::Trunc(q, n));
            f.push(Fault::Ident(q, n));
            f.push(Fault::At(q, n));
            f.push(Fault::Read(q, n));
            f.push(Fault::Once(q, n));
        }
        for k in [1, 2, 5] {
            f.push(Fault::Extend(q, k));
        }
    }
    f.extend((0..6).map(Fault::Call));
    f
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Expect {
    Error,
    SameProof,
    Either,
}
pub fn expect<F: Field>(ex: &[Vec<F>], faults: &[Fault]) -> Expect {
    let mut r = Expect::SameProof;
    for f in faults {
        let nonzero = |q: usize, i: usize| !ex[q][i].is_zero_vartime();
        let e = match *f {
            Fault::DeltaG1 | Fault::DeltaG2 | Fault::Trunc(..) | Fault::Call(_) | Fault::At(..) => Expect::Error,
            Fault::Ident(q, i) if nonzero(q, i) => Expect::Error,
            Fault::Ident(..) | Fault::Extend(..) => Expect::SameProof,
            Fault::Read(q, i) if nonzero(q, i) => Expect::Error,
            Fault::Read(..) => Expect::Either,
            Fault::Once(..) | Fault::Op(..) => Expect::Error,
        };
        r = match (r, e) {
            (Expect::Error, _) | (_, Expect::Error) => Expect::Error,
            (Expect::Either, _) | (_, Expect::Either) => Expect::Either,
            _ => Expect::SameProof,
        };
    }
    r
}

#[derive(Clone)]
pub struct Elems<G> {
    v: Arc<Vec<G>>,
    pos: usize,
    fail: Vec<(usize, u8)>,
    once: Arc<AtomicUsize>,
    ops: Arc<AtomicUsize>,
    bad_op: Option<usize>,
}
fn planted() -> SynthesisError {
    std::io::Error::new(std::io::ErrorKind::Other, "planted").into()
}
impl<G: PrimeCurveAffine> SourceBuilder<G> for Elems<G> {
    type Source = Elems<G>;
    fn build(self) -> Elems<G> {
        self
    }
}
impl<G: PrimeCurveAffine> Elems<G> {
    fn hit(&self, from: usize, to: usize, read: bool) -> Result<(), SynthesisError> {
        if Some(self.ops.fetch_add(1, Ordering::SeqCst)) == self.bad_op {
            return Err(planted());
        }
        for &(p, mode) in &self.fail {
            if (from..to).contains(&p) {
                let bad = match mode {
                    0 => true,
                    1 => read,
                    _ => self.once.fetch_add(1, Ordering::SeqCst) == 0,
                };
                if bad {
                    return Err(planted());
                }
            }
        }
        Ok(())
    }
}
impl<G: PrimeCurveAffine> Source<G> for Elems<G> {
    fn next(&mut self) -> Result<&G, SynthesisError> {
        self.hit(self.pos, self.pos + 1, true)?;
        let mut inner = (self.v.clone(), self.pos);
        Source::<G>::next(&mut inner)?;
        self.pos += 1;
        Ok(&self.v[self.pos - 1])
    }
    fn skip(&mut self, amt: usize) -> Result<(), SynthesisError> {
        self.hit(self.pos, self.pos + amt, false)?;
        let mut inner = (self.v.clone(), self.pos);
        Source::<G>::skip(&mut inner, amt)?;
        self.pos += amt;
        Ok(())
    }
}
#[derive(Clone)]
pub struct Bad<F: TF> {
    p: Arc<Parameters<Toy<F>>>,
    faults: Vec<Fault>,
    calls: usize,
    once: Arc<AtomicUsize>,
    /// operations on the sources so far
    pub ops: Arc<AtomicUsize>,
}
/// The parameters with the faults planted, as a parameter source.
pub fn plant<F: TF>(p: &Parameters<Toy<F>>, faults: &[Fault]) -> Bad<F> {
    fn edit<G: Clone>(v: &mut Arc<Vec<G>>, q: usize, f: &Fault, id: G) {
        let v = Arc::make_mut(v);
        match *f {
            Fault::Trunc(x, n) if x == q => v.truncate(n),
            Fault::Ident(x, n) if x == q && n < v.len() => v[n] = id,
            Fault::Extend(x, n) if x == q => {
                for i in 0..n {
                    let e = if i % 2 == 0 && !v.is_empty() { v[0].clone() } else { id.clone() };
                    v.push(e);
                }
            }
            _ => {}
        }
    }
    let mut p = p.clone();
    for f in faults {
        edit(&mut p.h, 0, f, P1(F::ZERO));
        edit(&mut p.l, 1, f, P1(F::ZERO));
        edit(&mut p.a, 2, f, P1(F::ZERO));
        edit(&mut p.b_g1, 3, f, P1(F::ZERO));
        edit(&mut p.b_g2, 4, f, P2(F::ZERO));
        match f {
            Fault::DeltaG1 => p.vk.delta_g1 = P1(F::ZERO),
            Fault::DeltaG2 => p.vk.delta_g2 = P2(F::ZERO),
            _ => {}
        }
    }
    Bad { p: Arc::new(p), faults: faults.to_vec(), calls: 0, once: Arc::new(AtomicUsize::new(0)), ops: Arc::new(AtomicUsize::new(0)) }
}
/// Whether plain `&Parameters` can carry the faults (otherwise a failing source is needed).
pub fn plain(faults: &[Fault]) -> bool {
    faults.iter().all(|f| matches!(f, Fault::Trunc(..) | Fault::Ident(..) | Fault::DeltaG1 | Fault::DeltaG2 | Fault::Extend(..)))
}
impl<F: TF> Bad<F> {
    pub fn params(&self) -> &Parameters<Toy<F>> {
        &self.p
    }
    fn call(&mut self) -> Result<(), SynthesisError> {
        self.calls += 1;
        if self.faults.contains(&Fault::Call(self.calls - 1)) {
            return Err(planted());
        }
        Ok(())
    }
    fn src<G>(&self, v: &Arc<Vec<G>>, q: usize, pos: usize) -> Elems<G> {
        let fail = self
            .faults
            .iter()
            .filter_map(|f| match *f {
                Fault::At(x, n) if x == q => Some((n, 0)),
                Fault::Read(x, n) if x == q => Some((n, 1)),
                Fault::Once(x, n) if x == q => Some((n, 2)),
                _ => None,
            })
            .collect();
        let bad_op = self.faults.iter().find_map(|f| match *f { Fault::Op(k) => Some(k), _ => None });
        Elems { v: v.clone(), pos, fail, once: self.once.clone(), ops: self.ops.clone(), bad_op }
    }
}
impl<F: TF> ParameterSource<Toy<F>> for Bad<F> {
    type G1Builder = Elems<P1<F>>;
    type G2Builder = Elems<P2<F>>;
    fn get_vk(&mut self, _: usize) -> Result<VerifyingKey<Toy<F>>, SynthesisError> {
        self.call()?;
        Ok(self.p.vk.clone())
    }
    fn get_h(&mut self, _: usize) -> Result<Self::G1Builder, SynthesisError> {
        self.call()?;
        Ok(self.src(&self.p.h, 0, 0))
    }
    fn get_l(&mut self, _: usize) -> Result<Self::G1Builder, SynthesisError> {
        self.call()?;
        Ok(self.src(&self.p.l, 1, 0))
    }
    fn get_a(&mut self, ni: usize, _: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> {
        self.call()?;
        Ok((self.src(&self.p.a, 2, 0), self.src(&self.p.a, 2, ni)))
    }
    fn get_b_g1(&mut self, ni: usize, _: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> {
        self.call()?;
        Ok((self.src(&self.p.b_g1, 3, 0), self.src(&self.p.b_g1, 3, ni)))
    }
    fn get_b_g2(&mut self, ni: usize, _: usize) -> Result<(Self::G2Builder, Self::G2Builder), SynthesisError> {
        self.call()?;
        Ok((self.src(&self.p.b_g2, 4, 0), self.src(&self.p.b_g2, 4, ni)))
    }
}
