//! C18: packing bits into public inputs.
use bellman::gadgets::multipack::{bytes_to_bits, bytes_to_bits_le, compute_multipacking};
use mc::gad::*;
use mc::gadlib::*;
use mc::report::{par_for, Ctx};
use mc::toy::*;
use std::collections::HashSet;
use std::marker::PhantomData;

fn pack<F: TF>(bits: Vec<K>, nv: usize) -> Pack<F> { Pack { nv, bits, p: PhantomData } }
/// every string of operand kinds over `nv` variables of length n
fn kinds<F: TF>(cx: &Ctx, f: &str, maxn: usize, nv: u8, th: usize) {
    let ks = K::all(nv);
    let mut strings: Vec<Vec<K>> = vec![vec![]];
    let mut all = strings.clone();
    for _ in 0..maxn { strings = strings.into_iter().flat_map(|s| ks.iter().map(move |k| { let mut s = s.clone(); s.push(*k); s }).collect::<Vec<_>>()).collect(); all.extend(strings.clone()); }
    par_for(all.len(), th, |i| {
        let g = pack::<F>(all[i].clone(), nv as usize);
        verify::<F, _>(cx, &format!("{} pack {:?}", f, all[i]), &g, &vectors(&vec![Ty::Bit; nv as usize], &[]), Sound::All);
    });
    cx.bound(&format!("{} kinds", f), format!("all {} strings of up to {} constant, allocated, negated or repeated bits over {} variables; every satisfying assignment", all.len(), maxn, nv));
}
/// every length, kinds in rotation
fn lengths<F: TF>(cx: &Ctx, f: &str, lens: Vec<usize>, all_vectors: usize, th: usize) {
    par_for(lens.len(), th, |li| {
        let n = lens[li];
        for rot in 0..3usize {
            let bits: Vec<K> = (0..n).map(|i| match (rot, (i + rot) % 4) { (0, _) => K::Is(i as u16), (_, 0) => K::C(i % 8 < 4), (_, 1) => K::Not(i as u16), _ => K::Is(i as u16) }).collect();
            let mut vecs: Vec<Vec<F>> = vec![];
            if n <= all_vectors { vecs = vectors(&vec![Ty::Bit; n], &[]); }
            else {
                vecs.push(vec![F::ZERO; n]);
                vecs.push(vec![F::ONE; n]);
                vecs.push((0..n).map(|i| fb(i % 2 == 0)).collect());
                let cap = F::CAPACITY as usize;
                for p in [0, 1, cap - 1, cap, cap + 1, 2 * cap - 1, 2 * cap, n - 1, n - 2] { if p < n { vecs.push((0..n).map(|i| fb(i == p)).collect()); vecs.push((0..n).map(|i| fb(i != p)).collect()); } }
            }
            verify::<F, _>(cx, &format!("{} pack length {} rotation {}", f, n, rot), &pack::<F>(bits, n), &vecs, Sound::PerVector);
        }
    });
    cx.bound(&format!("{} lengths", f), format!("{} lengths to {}", lens.len(), lens.iter().max().unwrap()));
}
/// the native packing: every bit string of a length, all different
fn native<F: TF>(cx: &Ctx, f: &str, maxn: usize) {
    for n in 0..=maxn {
        cx.check(1 << n, || format!("{} native packing of all strings of length {}", f, n), || {
            let mut seen: HashSet<Vec<[u8; 32]>> = HashSet::new();
            for m in 0..1u64 << n {
                let bits: Vec<bool> = (0..n).map(|i| (m >> i) & 1 == 1).collect();
                let got = compute_multipacking::<F>(&bits);
                if got != native_pack::<F>(&bits) { return Err(format!("{:?} -> {:?}", bits, got)); }
                if got.len() != (n + F::CAPACITY as usize - 1) / F::CAPACITY as usize { return Err("wrong number of elements".into()); }
                let k: Vec<[u8; 32]> = got.iter().map(|x| { let mut b = [0u8; 32]; let r = x.to_repr(); b[..r.as_ref().len()].copy_from_slice(r.as_ref()); b }).collect();
                if !seen.insert(k) { return Err(format!("{:?} packs like another string of the same length", bits)); }
            }
            cx.states(1 << n);
            Ok(())
        });
    }
}
fn main() {
    let cx = Ctx::new("C18");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match cx.part.as_str() {
        "kinds" => {
            kinds::<F2>(&cx, "F3", 4, 2, th);
            kinds::<F5>(&cx, "F5", 4, 2, th);
            kinds::<F11>(&cx, "F11", cx.tier(4, 5), 2, th);
            kinds::<F17>(&cx, "F17", cx.tier(4, 5), 2, th);
            kinds::<Bls>(&cx, "BLS12-381 scalar", 3, 2, th);
        }
        "lengths" => {
            let cap = |c: u32| (0..=(3 * c as usize + 2)).collect::<Vec<_>>();
            lengths::<F2>(&cx, "F3", cap(1), 8, th);
            lengths::<F5>(&cx, "F5", cap(2), 8, th);
            lengths::<F17>(&cx, "F17", cap(4), cx.tier(8, 12), th);
            lengths::<F97>(&cx, "F97", cap(6), cx.tier(8, 12), th);
            lengths::<F257>(&cx, "F257", cap(8), cx.tier(8, 12), th);
            lengths::<F12289>(&cx, "F12289", cap(13), 8, th);
            lengths::<Gold>(&cx, "Goldilocks", cap(63), 8, th);
            lengths::<M61>(&cx, "M61", cap(60), 8, th);
            let l: Vec<usize> = if cx.thorough { (0..=765).collect() } else { (0..=765).filter(|n| n % 16 == 0 || n % 254 <= 2 || n % 254 >= 252).collect() };
            lengths::<Bls>(&cx, "BLS12-381 scalar", l, 6, th);
            // many chunks
            let many = |c: usize, top: usize| (3..=top).flat_map(|k| [k * c - 1, k * c, k * c + 1]).filter(|n| n / c < 20 || [31, 32, 33, 63, 64, 65, 99, 127, 128, 129, 254, 255, 256, 257, 300].contains(&(n / c))).collect::<Vec<_>>();
            lengths::<F2>(&cx, "F3 many chunks", many(1, 300), 0, th);
            lengths::<F5>(&cx, "F5 many chunks", many(2, 260), 0, th);
            lengths::<F17>(&cx, "F17 many chunks", many(4, 130), 0, th);
            lengths::<F12289>(&cx, "F12289 many chunks", many(13, 66), 0, th);
            lengths::<Gold>(&cx, "Goldilocks many chunks", many(63, cx.tier(17, 33)), 0, th);
            lengths::<Bls>(&cx, "BLS12-381 scalar many chunks", many(254, cx.tier(6, 17)), 0, th);
        }
        "native" => {
            native::<F2>(&cx, "F3", 12);
            native::<F5>(&cx, "F5", 12);
            native::<F17>(&cx, "F17", 13);
            native::<F97>(&cx, "F97", 14);
            native::<F12289>(&cx, "F12289", cx.tier(14, 18));
            native::<Bls>(&cx, "BLS12-381 scalar", 12);
            // all lengths, every single bit set or cleared
            fn bits<F: TF>(cx: &Ctx, f: &str, max: usize) {
                for n in 0..=max {
                    cx.check(2 * n as u64 + 2, || format!("{} native single bits, length {}", f, n), || {
                        let one = |b: &[bool]| { let g = compute_multipacking::<F>(b); if g == native_pack::<F>(b) { Ok(()) } else { Err(format!("length {}: wrong packing of {:?}", n, b.iter().position(|x| *x))) } };
                        one(&vec![false; n])?;
                        one(&vec![true; n])?;
                        for i in 0..n { let mut b = vec![false; n]; b[i] = true; one(&b)?; let mut b = vec![true; n]; b[i] = false; one(&b)?; }
                        Ok(())
                    });
                }
            }
            bits::<Bls>(&cx, "BLS12-381 scalar", cx.tier(520, 780));
            bits::<Gold>(&cx, "Goldilocks", 200);
            bits::<F2>(&cx, "F3", 300);
            bits::<F17>(&cx, "F17", 300);
            bits::<F12289>(&cx, "F12289", 300);
            // long strings: every length around many multiples of the capacity
            fn long<F: TF>(cx: &Ctx, f: &str, top: usize) {
                let c = F::CAPACITY as usize;
                for k in (4..=top).step_by(1 + top / 80) { for n in [k * c - 1, k * c, k * c + 1] {
                    cx.check(3, || format!("{} native packing of {} bits", f, n), || {
                        for m in [1usize, 3, 7] { let b: Vec<bool> = (0..n).map(|i| i % m == 0 || (i * i) % 5 == 1).collect(); if compute_multipacking::<F>(&b) != native_pack::<F>(&b) { return Err(format!("pattern {}", m)); } }
                        Ok(())
                    });
                } }
            }
            long::<Bls>(&cx, "BLS12-381 scalar", cx.tier(300, 1100));
            long::<Gold>(&cx, "Goldilocks", cx.tier(1100, 5000));
            long::<F5>(&cx, "F5", 5000);
        }
        "bytes" => {
            let one = |b: &[u8]| -> Result<(), String> {
                let be: Vec<bool> = b.iter().flat_map(|x| (0..8).map(move |i| x & (0x80 >> i) != 0)).collect();
                let le: Vec<bool> = b.iter().flat_map(|x| (0..8).map(move |i| x & (1 << i) != 0)).collect();
                if bytes_to_bits(b) != be { return Err(format!("bytes_to_bits({:?})", b)); }
                if bytes_to_bits_le(b) != le { return Err(format!("bytes_to_bits_le({:?})", b)); }
                Ok(())
            };
            cx.check(65536, || "all one- and two-byte strings".into(), || { one(&[])?; for a in 0..=255u8 { one(&[a])?; for b in 0..=255u8 { one(&[a, b])?; } } Ok(()) });
            for n in 3..=64usize {
                cx.check(n as u64 * 8, || format!("{} bytes", n), || { for p in 0..n { for k in 0..8 { let mut b = vec![0u8; n]; b[p] = 1 << k; one(&b)?; let mut b = vec![255u8; n]; b[p] = !(1 << k); one(&b)?; } } Ok(()) });
            }
            for n in [65usize, 127, 128, 129, 255, 256, 257, 300, 1000, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 100000] {
                cx.check(4, || format!("{} bytes", n), || { for m in [1usize, 3, 7, 255] { one(&(0..n).map(|i| ((i * m) ^ (i >> 8)) as u8).collect::<Vec<_>>())?; } Ok(()) });
            }
            cx.bound("bytes", "all strings of up to 2 bytes, every single bit set or cleared to 64 bytes, patterns to 100,000 bytes");
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| "F17, capacity 4, 9 bits (constant, negated, allocated): 3 inputs, equal to the native packing; no satisfying assignment with other inputs".into());
    cx.finish();
}
