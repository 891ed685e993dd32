//! C09: deserialisation of malformed input.
use ff::PrimeField;
use groth16::{Parameters, Proof, VerifyingKey};
use mc::faulty::*;
use mc::report::{par_for, Ctx};
use mc::serobj;
use mc::toy::*;
use std::io::ErrorKind;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Proof,
    Vk,
    Params(bool),
}
/// Ok(bytes written again) if an object was returned.
fn read<F: TF>(k: Kind, r: &mut FReader) -> Result<Vec<u8>, std::io::Error> {
    let mut w = FWriter::new(Fault::None);
    match k {
        Kind::Proof => Proof::<Toy<F>>::read(r)?.write(&mut w).unwrap(),
        Kind::Vk => VerifyingKey::<Toy<F>>::read(r)?.write(&mut w).unwrap(),
        Kind::Params(c) => Parameters::<Toy<F>>::read(r, c)?.write(&mut w).unwrap(),
    }
    Ok(w.data)
}
fn encode<F: TF>(k: Kind, l: usize) -> Vec<u8> {
    let mut w = FWriter::new(Fault::None);
    match k {
        Kind::Proof => serobj::proof::<F>(1).write(&mut w).unwrap(),
        Kind::Vk => serobj::vk::<F>(l, 0).write(&mut w).unwrap(),
        Kind::Params(_) => serobj::params::<F>(l, [l, l, l, l, l]).write(&mut w).unwrap(),
    }
    w.data
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Role {
    Proof,
    VkFixed,
    Ic,
    Query,
}
/// (offset, length, tag, role) of every group element; offsets of the length fields.
fn layout(k: Kind, l: usize) -> (Vec<(usize, usize, u8, Role)>, Vec<usize>) {
    let mut v = vec![];
    let mut lens = vec![];
    let mut o = 0;
    let mut el = |v: &mut Vec<_>, o: &mut usize, n: usize, tag: u8, r: Role| { v.push((*o, n, tag, r)); *o += n; };
    match k {
        Kind::Proof => {
            el(&mut v, &mut o, 33, 0x11, Role::Proof);
            el(&mut v, &mut o, 37, 0x21, Role::Proof);
            el(&mut v, &mut o, 33, 0x11, Role::Proof);
        }
        _ => {
            for g2 in [false, false, true, true, false, true] {
                if g2 { el(&mut v, &mut o, 39, 0x22, Role::VkFixed) } else { el(&mut v, &mut o, 35, 0x12, Role::VkFixed) }
            }
            lens.push(o);
            o += 4;
            for _ in 0..l { el(&mut v, &mut o, 35, 0x12, Role::Ic); }
            if let Kind::Params(_) = k {
                for q in 0..5 {
                    lens.push(o);
                    o += 4;
                    for _ in 0..l { if q == 4 { el(&mut v, &mut o, 39, 0x22, Role::Query) } else { el(&mut v, &mut o, 35, 0x12, Role::Query) } }
                }
            }
        }
    }
    (v, lens)
}
const KINDS: [Kind; 4] = [Kind::Proof, Kind::Vk, Kind::Params(true), Kind::Params(false)];

fn must_fail<F: TF>(cx: &Ctx, k: Kind, key: String, b: &[u8]) {
    cx.check(1, || key.clone(), || match read::<F>(k, &mut FReader::new(b, Fault::None)) {
        Err(_) => Ok(()),
        Ok(_) => Err("an object was returned".into()),
    });
}
fn elements<F: TF>(cx: &Ctx, fname: &str, l: usize) {
    for k in KINDS {
        let b = encode::<F>(k, l);
        let (els, lens) = layout(k, l);
        for (i, (o, n, tag, role)) in els.iter().enumerate() {
            let mut put = |what: &str, f: &dyn Fn(&mut [u8])| {
                let mut x = b.clone();
                f(&mut x[*o..*o + *n]);
                must_fail::<F>(cx, k, format!("{} {:?} l={} element {} {}", fname, k, l, i, what), &x);
            };
            for t in 0..=255u8 {
                if t != *tag && t != tag | 0x80 {
                    put(&format!("tag {:#x}", t), &|e| e[0] = t);
                }
            }
            // outside the subgroup
            if *role != Role::Query || k == Kind::Params(true) {
                put("outside the subgroup", &|e| e[0] |= 0x80);
            }
            // identity
            if *role != Role::VkFixed {
                put("identity", &|e| e[1..33].fill(0));
                put("identity outside the subgroup", &|e| { e[0] |= 0x80; e[1..33].fill(0) });
            }
            // not a field element: the modulus, modulus + 1, all ones, a high byte
            let m = {
                let mut m = (-F::ONE).to_repr();
                for x in m.iter_mut() { let (y, c) = x.overflowing_add(1); *x = y; if !c { break; } }
                m
            };
            put("modulus", &|e| e[1..33].copy_from_slice(&m));
            put("modulus outside the subgroup", &|e| { e[0] |= 0x80; e[1..33].copy_from_slice(&m) });
            put("all ones", &|e| e[1..33].fill(255));
            for p in 33..*n {
                for v in [1u8, 0x80, 255] { put(&format!("padding {} {}", p, v), &|e| e[p] = v); }
            }
        }
        // declared lengths beyond the data
        for (i, o) in lens.iter().enumerate() {
            let last = i + 1 == lens.len();
            for v in [l as u32 + 1, l as u32 + 2, 255, 256, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX] {
                let mut x = b.clone();
                x[*o..*o + 4].copy_from_slice(&v.to_be_bytes());
                if last || v > 200 {
                    must_fail::<F>(cx, k, format!("{} {:?} l={} length field {} = {}", fname, k, l, i, v), &x);
                }
            }
        }
    }
    cx.bound(&format!("{} elements", fname), format!("every element of a proof, key and parameters with vectors of {}, 250+ malformations each, both modes", l));
}
/// Every byte set to every value: an object may be returned only if it writes the same bytes.
fn bytes_all<F: TF>(cx: &Ctx, fname: &str, l: usize, th: usize) {
    for k in KINDS {
        let b = encode::<F>(k, l);
        let tags: Vec<usize> = layout(k, l).0.iter().filter(|e| e.3 == Role::Query).map(|e| e.0).collect();
        par_for(b.len(), th, |p| {
            for v in 0..=255u8 {
                if v == b[p] || cx.failed() { continue; }
                cx.check(1, || format!("{} {:?} l={} byte {} = {}", fname, k, l, p, v), || {
                    let mut x = b.clone();
                    x[p] = v;
                    let mut r = FReader::new(&x, Fault::None);
                    match read::<F>(k, &mut r) {
                        Err(_) => Ok(()),
                        Ok(w) => {
                            // the unchecked mode may drop the out-of-subgroup marker
                            let mut y = x[..r.pos].to_vec();
                            if k == Kind::Params(false) && v == b[p] | 0x80 && tags.contains(&p) { y[p] = b[p]; }
                            if w == y { Ok(()) } else { Err("an object was returned that does not stand for these bytes".into()) }
                        }
                    }
                });
            }
        });
    }
    cx.bound(&format!("{} bytes", fname), format!("every byte set to every value (vectors of {})", l));
}
fn truncation<F: TF>(cx: &Ctx, fname: &str, l: usize) {
    for k in KINDS {
        let b = encode::<F>(k, l);
        for at in 0..b.len() {
            for f in [Fault::Stop(at), Fault::Error(at, ErrorKind::Other), Fault::Error(at, ErrorKind::BrokenPipe), Fault::Error(at, ErrorKind::TimedOut)] {
                cx.check(1, || format!("{} {:?} l={} {:?}", fname, k, l, f), || match read::<F>(k, &mut FReader::new(&b, f.clone())) {
                    Err(e) => match (&f, e.kind()) {
                        (Fault::Error(_, want), got) if *want != got => Err(format!("error {:?} reported as {:?}", want, got)),
                        _ => Ok(()),
                    },
                    Ok(_) => Err("an object was returned from a truncated input".into()),
                });
            }
        }
        cx.check(1, || format!("{} {:?} l={} unaltered", fname, k, l), || match read::<F>(k, &mut FReader::new(&b, Fault::None)) {
            Ok(w) if w == b => Ok(()),
            _ => Err("the unaltered object is not read back".into()),
        });
    }
    cx.bound(&format!("{} truncation", fname), format!("end of file or an error at every byte (vectors of {})", l));
}
fn real(cx: &Ctx) {
    use bls12_381::{Bls12, G1Affine, G2Affine};
    // points on the curve outside the subgroup
    let g1bad: [u8; 96] = {
        let mut r = None;
        for i in 1..200u8 {
            let mut c = [0u8; 48];
            c[0] = 0x80;
            c[47] = i;
            let p = G1Affine::from_compressed_unchecked(&c);
            if bool::from(p.is_some()) && !bool::from(p.unwrap().is_torsion_free()) { r = Some(p.unwrap().to_uncompressed()); break; }
        }
        r.unwrap()
    };
    let g2bad: [u8; 192] = {
        let mut r = None;
        for i in 1..200u8 {
            let mut c = [0u8; 96];
            c[0] = 0x80;
            c[95] = i;
            let p = G2Affine::from_compressed_unchecked(&c);
            if bool::from(p.is_some()) && !bool::from(p.unwrap().is_torsion_free()) { r = Some(p.unwrap().to_uncompressed()); break; }
        }
        r.unwrap()
    };
    let g1 = G1Affine::generator();
    let g2 = G2Affine::generator();
    let vk = VerifyingKey::<Bls12> { alpha_g1: g1, beta_g1: g1, beta_g2: g2, gamma_g2: g2, delta_g1: g1, delta_g2: g2, ic: vec![g1] };
    let a1 = std::sync::Arc::new(vec![g1]);
    let p = Parameters::<Bls12> { vk, h: a1.clone(), l: a1.clone(), a: a1.clone(), b_g1: a1, b_g2: std::sync::Arc::new(vec![g2]) };
    let mut b = vec![];
    p.write(&mut b).unwrap();
    // layout: 96,96,192,192,96,192, 4, 96, then 4 x (4, 96), (4, 192)
    let mut els = vec![];
    let mut o = 0;
    for n in [96usize, 96, 192, 192, 96, 192] { els.push((o, n, Role::VkFixed)); o += n; }
    o += 4;
    els.push((o, 96, Role::Ic));
    o += 96;
    for n in [96usize, 96, 96, 96, 192] { o += 4; els.push((o, n, Role::Query)); o += n; }
    for (i, (o, n, role)) in els.iter().enumerate() {
        for what in ["subgroup", "identity", "not on curve"] {
            for checked in [true, false] {
                let mut x = b.clone();
                match what {
                    "subgroup" => if *n == 96 { x[*o..*o + n].copy_from_slice(&g1bad) } else { x[*o..*o + n].copy_from_slice(&g2bad) },
                    "identity" => { x[*o..*o + n].fill(0); x[*o] = 0x40; }
                    _ => { x[*o + n - 1] ^= 1; }
                }
                if (what == "identity" && *role == Role::VkFixed) || (what != "identity" && !checked && *role == Role::Query) { continue; }
                cx.check(1, || format!("BLS12-381 parameters element {} {} checked={}", i, what, checked), || match Parameters::<Bls12>::read(&x[..], checked) { Err(_) => Ok(()), Ok(_) => Err("an object was returned".into()) });
            }
        }
    }
    let pr = Proof::<Bls12> { a: g1, b: g2, c: g1 };
    let mut b = vec![];
    pr.write(&mut b).unwrap();
    let bits = b.len() * 8;
    let step = cx.tier(1, 1);
    for bit in (0..bits).step_by(step) {
        cx.check(1, || format!("BLS12-381 proof bit {}", bit), || {
            let mut x = b.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            match Proof::<Bls12>::read(&x[..]) {
                Err(_) => Ok(()),
                Ok(p) => { let mut w = vec![]; p.write(&mut w).unwrap(); if w == x { Ok(()) } else { Err("other bytes".into()) } }
            }
        });
    }
    for at in 0..b.len() {
        cx.check(1, || format!("BLS12-381 proof cut at {}", at), || match Proof::<Bls12>::read(&b[..at]) { Err(_) => Ok(()), Ok(_) => Err("read".into()) });
    }
    for (o, n) in [(0usize, 48usize), (48, 96), (144, 48)] {
        cx.check(1, || format!("BLS12-381 proof identity at {}", o), || { let mut x = b.clone(); x[o..o + n].fill(0); x[o] = 0xc0; match Proof::<Bls12>::read(&x[..]) { Err(_) => Ok(()), Ok(_) => Err("read".into()) } });
        cx.check(1, || format!("BLS12-381 proof subgroup at {}", o), || {
            let mut x = b.clone();
            if n == 48 { let g = G1Affine::from_uncompressed_unchecked(&g1bad).unwrap(); x[o..o + n].copy_from_slice(&g.to_compressed()); } else { let g = G2Affine::from_uncompressed_unchecked(&g2bad).unwrap(); x[o..o + n].copy_from_slice(&g.to_compressed()); }
            match Proof::<Bls12>::read(&x[..]) { Err(_) => Ok(()), Ok(_) => Err("read".into()) }
        });
    }
    cx.bound("BLS12-381", "every parameter element outside the subgroup / identity / off the curve; every bit of a proof flipped; every truncation of a proof");
}
fn main() {
    let cx = Ctx::new("C09");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match cx.part.as_str() {
        "elements" => {
            for l in 0..=cx.tier(2, 3) { elements::<F97>(&cx, "F97", l); }
            elements::<Gold>(&cx, "Goldilocks", 2);
            elements::<Bls>(&cx, "BLS12-381 scalar", 1);
        }
        "bytes" => {
            for l in 0..=cx.tier(2, 3) { bytes_all::<F97>(&cx, "F97", l, th); }
            bytes_all::<Bls>(&cx, "BLS12-381 scalar", cx.tier(1, 2), th);
        }
        "truncation" => {
            for l in 0..=3 { truncation::<F97>(&cx, "F97", l); }
        }
        "real" => real(&cx),
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| format!("part {}: malformed encodings of proofs, keys and parameters must not be accepted", cx.part));
    cx.finish();
}
