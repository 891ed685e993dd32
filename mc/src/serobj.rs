//! Serialisable objects for C08/C09.
use crate::toy::*;
use groth16::{Parameters, Proof, VerifyingKey};
use std::sync::Arc;

pub fn proof<F: TF>(k: u64) -> Proof<Toy<F>> {
    let f = |x: u64| F::from(x);
    Proof { a: P1(f(1 + k)), b: P2(f(2 + k * 3)), c: P1(f(5 + k * 7)) }
}
pub fn vk<F: TF>(ic: usize, k: u64) -> VerifyingKey<Toy<F>> {
    let f = |x: u64| F::from(x + k);
    VerifyingKey {
        alpha_g1: P1(f(11)),
        beta_g1: P1(f(12)),
        beta_g2: P2(f(13)),
        gamma_g2: P2(f(14)),
        delta_g1: P1(f(15)),
        delta_g2: P2(f(16)),
        ic: (0..ic as u64).map(|i| P1(F::from(17 + i % 70))).collect(),
    }
}
pub fn params<F: TF>(ic: usize, l: [usize; 5]) -> Parameters<Toy<F>> {
    let p1 = |n: usize, o: u64| Arc::new((0..n as u64).map(|i| P1(F::from(1 + (o + i * 3) % 90))).collect::<Vec<_>>());
    let p2 = |n: usize, o: u64| Arc::new((0..n as u64).map(|i| P2(F::from(1 + (o + i * 5) % 90))).collect::<Vec<_>>());
    Parameters { vk: vk(ic, 0), h: p1(l[0], 1), l: p1(l[1], 20), a: p1(l[2], 40), b_g1: p1(l[3], 60), b_g2: p2(l[4], 70) }
}
