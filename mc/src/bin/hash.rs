//! C20 (SHA-256) and C21 (BLAKE2s).
use mc::gad::*;
use mc::gadlib::*;
use mc::report::{par_for, Ctx};
use mc::toy::*;

/// kinds of the n input bits: 0 all allocated, 1 mixed, 2 negated, 3 constant but for one, 4 all constant, 5 all the same variable, 6 bytes alternately constant and allocated,
/// 7 zeros, 8 ones, 9-11 constants repeating every block, word, byte, 12 the same variables in every block, 13 zeros but for the last bit, 14 mixed kinds repeating every block,
/// 15 allocated but for the last partial block (zeros), 16 zeros but for the last partial block (allocated)
fn mk(kind: HashKind, n: usize, pat: usize) -> Hash {
    let h = |i: usize| (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 17) & 1 == 1;
    let bits = (0..n).map(|i| match pat {
        0 => KBig::Is(i as u32),
        1 => match (i + i / 8) % 4 { 0 => KBig::C(h(i)), 1 => KBig::Not(i as u32), _ => KBig::Is(i as u32) },
        2 => KBig::Not(i as u32),
        3 => if i == n / 2 { KBig::Is(0) } else { KBig::C(h(i)) },
        4 => KBig::C(h(i)),
        5 => if i % 3 == 0 { KBig::Not(0) } else { KBig::Is(0) },
        7 => KBig::C(false),
        8 => KBig::C(true),
        9 => KBig::C(h(i % 512)),
        10 => KBig::C(h(i % 32)),
        11 => KBig::C(h(i % 8 + 3)),
        12 => KBig::Is((i % 512) as u32),
        13 => KBig::C(i + 1 == n),
        14 => match (i % 512 + i % 512 / 8) % 4 { 0 => KBig::C(h(i % 512)), 1 => KBig::Not((i % 512) as u32), _ => KBig::Is((i % 512) as u32) },
        15 => if i < (n.max(1) - 1) / 512 * 512 { KBig::Is(i as u32) } else { KBig::C(false) },
        16 => if i >= (n.max(1) - 1) / 512 * 512 { KBig::Is((i - (n.max(1) - 1) / 512 * 512) as u32) } else { KBig::C(false) },
        _ => if (i / 8) % 2 == 0 { KBig::C(h(i)) } else { KBig::Is(i as u32) },
    }).collect();
    let nv = match pat { 3 | 5 => if n > 0 { 1 } else { 0 }, 4 | 7..=11 | 13 => 0, 12 | 14 => n.min(512), 15 => (n.max(1) - 1) / 512 * 512, 16 => n - (n.max(1) - 1) / 512 * 512, _ => n };
    Hash { kind, nv, bits }
}
fn values<F: TF>(nv: usize, salt: usize, all: bool) -> Vec<Vec<F>> {
    if nv == 0 { return vec![vec![]]; }
    if nv == 1 { return vec![vec![F::ZERO], vec![F::ONE]]; }
    let mut r = SplitMix(salt as u64 * 77 + 5);
    let rnd: Vec<F> = (0..nv).map(|_| fb(r.next() & 1 == 1)).collect();
    if all { vec![vec![F::ZERO; nv], vec![F::ONE; nv], rnd] } else { vec![rnd] }
}
fn one<F: TF>(cx: &Ctx, f: &str, h: &Hash, pat: usize, sound: Sound, all: bool) {
    let key = format!("{} {:?} {} bits pattern {}", f, h.kind, h.bits.len(), pat);
    verify::<F, _>(cx, &key, h, &values::<F>(h.nv, h.bits.len() + pat, all), sound);
}
fn main() {
    let which = std::env::args().skip_while(|a| a != "--part").nth(1).unwrap_or_default();
    let sha = which.starts_with("sha");
    let cx = Ctx::new(if sha { "C20" } else { "C21" });
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let person = |i: usize| -> [u8; 8] { match i { 0 => [0; 8], 1 => [255; 8], 2 => *b"12345678", _ => { let mut p = [0u8; 8]; p[(i - 3) % 8] = 1 << ((i - 3) / 8 % 8); p } } };
    let kind = |i: usize| if sha { HashKind::Sha } else { HashKind::Blake(person(i % 3)) };
    match cx.part.as_str() {
        "sha" | "blake" => {
            // every whole-byte length; the satisfying assignments for fixed input bits enumerated exactly
            let max = cx.tier(if sha { 125 } else { 133 }, 260);
            let pats = 7;
            par_for((max + 1) * pats, th, |j| {
                let (len, pat) = (max - j / pats, j % pats);
                if !cx.thorough && pat > 1 && len % 8 > 1 && len % 64 < 54 && len != max { return; }
                one::<Gold>(&cx, "Goldilocks", &mk(kind(len + pat), 8 * len, pat), pat, Sound::PerVector, len % 8 < 2 || cx.thorough);
            });
            cx.bound("lengths", format!("every byte length to {}; 7 patterns of constant, allocated, negated and repeated bits; all satisfying assignments for fixed input bits", max));
        }
        "sha-bls" | "blake-bls" => {
            let lens: Vec<usize> = if cx.thorough { (0..=130).collect() } else { vec![0, 1, 3, 31, 32, 55, 56, 63, 64, 65, 80, 119, 120, 128] };
            par_for(lens.len() * 2, th, |j| one::<Bls>(&cx, "BLS12-381 scalar", &mk(kind(j), 8 * lens[j / 2], j % 2), j % 2, Sound::PerVector, false));
            cx.bound("BLS12-381", format!("{:?}", lens));
        }
        "sha-block" => {
            for pat in 0..7 { one::<Gold>(&cx, "Goldilocks", &mk(HashKind::ShaBlock, 512, pat), pat, Sound::PerVector, true); }
            // every single bit set
            par_for(512, th, |b| {
                let h = Hash { kind: HashKind::ShaBlock, nv: 1, bits: (0..512).map(|i| if i == b { KBig::Is(0) } else { KBig::C(false) }).collect() };
                verify::<Gold, _>(&cx, &format!("Goldilocks block bit {}", b), &h, &values::<Gold>(1, 0, true), Sound::PerVector);
            });
            one::<Bls>(&cx, "BLS12-381 scalar", &mk(HashKind::ShaBlock, 512, 1), 1, Sound::PerVector, true);
            cx.bound("block", "every single-bit block (the bit allocated), 7 kind patterns");
        }
        "blake-personal" => {
            par_for(67, th, |i| {
                for (len, pat) in [(0usize, 0usize), (5, 1), (64, 0)] { one::<Gold>(&cx, &format!("Goldilocks personal {:?}", person(i)), &mk(HashKind::Blake(person(i)), 8 * len, pat), pat, Sound::PerVector, false); }
            });
            cx.bound("personalisations", "every single-bit personalisation, all zero, all ones");
        }
        "sha-lengths" | "blake-lengths" => {
            // constants only (no constraints): every length to several blocks, and a long one
            let max = cx.tier(400, 1400);
            par_for(max + 3, th, |len| { let len = match len { x if x == max + 1 => 8192, x if x == max + 2 => 65536 + 7, x => x }; one::<Gold>(&cx, "Goldilocks constants", &mk(kind(len), 8 * len, 4), 4, Sound::Skip, true); });
            let pats = [7, 8, 9, 10, 11, 13];
            par_for((max + 1) * pats.len(), th, |j| { let (len, pat) = (j / pats.len(), pats[j % pats.len()]); one::<Gold>(&cx, "Goldilocks constants", &mk(kind(len), 8 * len, pat), pat, Sound::Skip, true); });
            let lens: Vec<usize> = if cx.thorough { (0..=260).chain([319, 320, 321, 384, 448, 512]).collect() } else { vec![65, 70, 80, 100, 120, 127, 128, 129, 140, 183, 184, 191, 192, 193, 256] };
            par_for(lens.len() * 4, th, |j| { let (len, pat) = (lens[j / 4], [12, 14, 15, 16][j % 4]); one::<Gold>(&cx, "Goldilocks repeated blocks", &mk(kind(len), 8 * len, pat), pat, Sound::PerVector, true); });
            cx.bound("repeating inputs", format!("zeros, ones, constants repeating every block, word and byte, zeros but for the last bit: every byte length to {}; the same variables in every block, a constant zero last block after and before allocated ones: {} lengths to {}", max, lens.len(), lens.last().unwrap()));
            cx.bound("constant inputs", format!("every byte length to {}, 8192, 65543", max));
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| "64-byte input, every 4th bit constant, some negated: one satisfying output for the fixed input bits, equal to the reference digest".into());
    cx.finish();
}
