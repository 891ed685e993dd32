//! C15: number gadgets.
use ff::{Field, PrimeField};

use mc::gad::*;
use mc::gadlib::*;
use mc::gadbits::bits;
use mc::bit_primes;
use mc::rec::{vid, Mode};
use mc::report::{par_for, Ctx};
use mc::toy::*;

fn ops(nums: u8, bits: u8) -> Vec<NOp> {
    let mut v = vec![];
    for a in 0..nums {
        v.push(NOp::Square(a));
        v.push(NOp::Nonzero(a));
        v.push(NOp::Inputize(a));
        for b in 0..nums {
            v.push(NOp::Mul(a, b));
            v.push(NOp::MulSq(a, b));
            v.push(NOp::InputProduct(a, b));
            for k in K::all(bits) { v.push(NOp::Reverse(a, b, k)); }
        }
    }
    v
}
/// All values of a small field, all satisfying assignments.
fn small<F: TF>(cx: &Ctx, f: &str, vals: &[F], th: usize) {
    let list = ops(2, 1);
    par_for(list.len(), th, |i| {
        let two = matches!(list[i], NOp::Mul(..) | NOp::MulSq(..) | NOp::InputProduct(..) | NOp::Reverse(..));
        let bits = matches!(list[i], NOp::Reverse(..)) as u8;
        let g = NumG { bits, nums: if two { 2 } else { 2 }, op: list[i].clone() };
        let vecs = vectors(&Gadget::<F>::ins(&g), vals);
        verify::<F, _>(cx, &format!("{} {:?}", f, g), &g, &vecs, if F::NUM_BITS <= 9 { Sound::All } else { Sound::PerVector });
    });
    cx.bound(f, format!("multiplication, squaring, non-zero, reversal, inputization: all operand pairs over {} values, aliased ones included", vals.len()));
}
fn big_vals<F: TF>(th: bool) -> Vec<F> {
    let mut v = vec![F::ZERO, F::ONE, -F::ONE, -F::from(2), F::TWO_INV, F::ROOT_OF_UNITY, F::MULTIPLICATIVE_GENERATOR];
    let mut x = F::ONE;
    let mut y = -F::ONE;
    for i in 0..F::NUM_BITS {
        if th || i % 5 == 0 || i + 4 > F::NUM_BITS { v.push(x); v.push(x - F::ONE); v.push(y); v.push(-x); }
        x = x.double();
        y = y - x; // -1 - 2 - 4 ...
    }
    v
}
fn main() {
    let cx = Ctx::new("C15");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match cx.part.as_str() {
        "ops" => {
            small::<F2>(&cx, "F3", &F2::all().collect::<Vec<_>>(), th);
            small::<F5>(&cx, "F5", &F5::all().collect::<Vec<_>>(), th);
            small::<F17>(&cx, "F17", &F17::all().collect::<Vec<_>>(), th);
            small::<F97>(&cx, "F97", &F97::all().collect::<Vec<_>>(), th);
            if cx.thorough { small::<F193>(&cx, "F193", &F193::all().collect::<Vec<_>>(), th); small::<F257>(&cx, "F257", &F257::all().collect::<Vec<_>>(), th); }
            let v = big_vals::<Bls>(false);
            small::<Bls>(&cx, "BLS12-381 scalar", &v[..cx.tier(24, v.len())], th);
            small::<Gold>(&cx, "Goldilocks", &big_vals::<Gold>(false), th);
        }
        "bits" => {
            bit_primes!(&cx, th; 3 5 7 11 13 17 19 29 31 37 61 67 97 127 131 193 251 257);
            bit_primes!(&cx, th; 509 521 1021 1031 4099 8191 12289);
        }
        "bits-big" => {
            let b = big_vals::<Bls>(cx.thorough);
            let g = big_vals::<Gold>(true);
            let m = big_vals::<M61>(true);
            let fs: Vec<Box<dyn Fn() + Sync>> = vec![Box::new(|| bits::<Gold>(&cx, "Goldilocks", &g, false)), Box::new(|| bits::<M61>(&cx, "M61", &m, false))];
            par_for(fs.len(), th, |i| fs[i]());
            par_for(b.len(), th, |i| bits::<Bls>(&cx, "BLS12-381 scalar", &b[i..i + 1], false));
            cx.bound("large fields", format!("{} BLS12-381, {} Goldilocks and {} Mersenne-61 values: powers of two, their predecessors and negatives, and modulus - 2^k", b.len(), g.len(), m.len()));
        }
        "acc" => {
            fn acc<F: TF>(cx: &Ctx, f: &str, depth: usize, coeffs: &[F], th: usize) {
                let ks = K::all(2);
                let terms: Vec<(K, F)> = ks.iter().flat_map(|k| coeffs.iter().map(move |c| (*k, *c))).collect();
                let mut seqs: Vec<Vec<(K, F)>> = vec![vec![]];
                let mut all = seqs.clone();
                for _ in 0..depth { seqs = seqs.iter().flat_map(|s| terms.iter().map(move |t| { let mut s = s.clone(); s.push(*t); s })).collect(); all.extend(seqs.clone()); }
                par_for(all.len(), th, |i| for start in [false, true] {
                    let g = NumAcc { nv: 2, start, terms: all[i].clone(), scale: coeffs[i % coeffs.len()] };
                    verify::<F, _>(cx, &format!("{} {:?}", f, g), &g, &vectors(&Gadget::<F>::ins(&g), coeffs), Sound::PerVector);
                });
                cx.bound(&format!("{} accumulation", f), format!("all sequences of up to {} terms over {} (operand, coefficient) pairs", depth, terms.len()));
            }
            acc::<F5>(&cx, "F5", 2, &[Fp(0), Fp(1), Fp(2), Fp(4)], th);
            acc::<F2>(&cx, "F3", 3, &[Fp(1), Fp(2)], th);
            acc::<Bls>(&cx, "BLS12-381 scalar", 2, &[Bls::ONE, -Bls::ONE, Bls::TWO_INV], th);
            // long accumulations: every length, every kind of operand in rotation, repeated operands
            fn long<F: TF>(cx: &Ctx, f: &str, lens: &[usize], th: usize) {
                par_for(lens.len() * 6, th, |j| {
                    let (n, pat) = (lens[j / 6], j % 6);
                    let nv = if pat < 3 { n } else { n.min(5) };
                    let terms: Vec<(K, F)> = (0..n).map(|i| {
                        let v = (i % nv.max(1)) as u16;
                        let k = match (pat % 3, i % 4) { (0, _) => K::Is(v), (1, 0) => K::C(i % 8 < 4), (1, 1) => K::Not(v), (2, _) => K::Not(v), _ => K::Is(v) };
                        (k, match pat { 0 | 3 => F::from(2).pow_vartime(&[i as u64]), 1 | 4 => F::from(i as u64 + 1), _ => if i % 2 == 0 { -F::ONE } else { F::from(3) } })
                    }).collect();
                    let g = NumAcc { nv, start: pat % 2 == 1, terms, scale: F::from(n as u64 + 2) };
                    let x = |f: &dyn Fn(usize) -> bool| { let mut v: Vec<F> = (0..nv).map(|i| fb(f(i))).collect(); if pat % 2 == 1 { v.push(F::from(77)) } v };
                    let vecs = vec![x(&|_| false), x(&|_| true), x(&|i| i % 2 == 0), x(&|i| i + 1 == nv), x(&|i| i + 1 != nv), x(&|i| i % 64 == 63)];
                    verify::<F, _>(cx, &format!("{} accumulation of {} terms, pattern {}", f, n, pat), &g, &vecs, Sound::PerVector);
                });
                cx.bound(&format!("{} long accumulations", f), format!("{} lengths to {}", lens.len(), lens.last().unwrap()));
            }
            let mut l: Vec<usize> = (0..=70).collect();
            l.extend([99, 127, 128, 129, 200, 253, 254, 255, 256, 257, 300]);
            if cx.thorough { l.extend([511, 512, 513, 1023, 1024, 1025]); }
            long::<Gold>(&cx, "Goldilocks", &l, th);
            long::<Bls>(&cx, "BLS12-381 scalar", &l, th);
            if cx.thorough { acc::<F7>(&cx, "F7", 3, &[Fp(1), Fp(2), Fp(6)], th); }
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| "to_bits_le_strict over F97: all 97 values honest; all satisfying assignments enumerated: exactly one bit string per value, the canonical one".into());
    cx.finish();
}
