//! C16: 32-bit words.
use mc::gad::*;
use mc::gadlib::*;
use mc::report::{par_for, Ctx};
use mc::toy::*;

/// A word whose bit i has kind `(pat >> 2i) & 3`: constant 0, constant 1, allocated, negated; inputs from `base`.
fn word(pat: u64, base: u16) -> Vec<K> {
    (0..32u16).map(|i| match (pat >> (2 * i)) & 3 { 0 => K::C(false), 1 => K::C(true), 2 => K::Is(base + i), _ => K::Not(base + i) }).collect()
}
fn values() -> Vec<u32> { vec![0, u32::MAX, 0x8000_0000, 1, 0x7fff_ffff, 0xdead_beef, 0x5555_5555, 0xffff_0000] }
fn bits<F: TF>(v: u32) -> Vec<F> { (0..32).map(|i| fb((v >> i) & 1 == 1)).collect() }
/// kind patterns: 16 combinations of kinds of two words in rotation so that every pair of kinds meets at every position over the rotations
fn pats(k: usize, rot: u32) -> u64 {
    let p: [u64; 3] = [0xE4E4_E4E4_E4E4_E4E4, 0xFFAA_5500_FFAA_5500, 0xAAFF_0055_5500_FFAA];
    p[k].rotate_left(2 * rot)
}
fn bitwise<F: TF>(cx: &Ctx, f: &str, th: usize, rots: u32) {
    let vs = values();
    let mut progs = vec![];
    for r in 0..rots {
        for be in [false, true] {
            for probe in [false, true] {
                if probe && F::NUM_BITS < 64 { continue; }
                let w = |k: usize, n: u16| { let b = word(pats(k, r * (k as u32 + 1)), 32 * n); if be { W::Be(b) } else { W::Bits(b) } };
                progs.push(WordProg { nv: 64, words: vec![w(0, 0), w(1, 1)], ops: vec![WOp::Xor(0, 1)], be, probe });
                progs.push(WordProg { nv: 96, words: vec![w(0, 0), w(1, 1), w(2, 2)], ops: vec![WOp::Ch(0, 1, 2)], be, probe });
                progs.push(WordProg { nv: 96, words: vec![w(0, 0), w(1, 1), w(2, 2)], ops: vec![WOp::Maj(0, 1, 2)], be, probe });
                // aliased operands
                progs.push(WordProg { nv: 32, words: vec![w(0, 0)], ops: vec![WOp::Xor(0, 0)], be, probe });
                progs.push(WordProg { nv: 64, words: vec![w(0, 0), w(1, 1)], ops: vec![WOp::Ch(0, 1, 0), WOp::Maj(0, 2, 2)], be, probe });
                // words made of the same bits: equal, complementary and constant ones meet at every position
                progs.push(WordProg { nv: 32, words: vec![w(0, 0), w(1, 0)], ops: vec![WOp::Xor(0, 1), WOp::Xor(1, 0)], be, probe });
                progs.push(WordProg { nv: 32, words: vec![w(0, 0), w(1, 0), w(2, 0)], ops: vec![WOp::Ch(0, 1, 2), WOp::Maj(0, 1, 2)], be, probe });
                progs.push(WordProg { nv: 64, words: vec![w(0, 1), w(1, 0), w(2, 0)], ops: vec![WOp::Ch(0, 1, 2), WOp::Maj(0, 1, 2), WOp::Ch(1, 0, 2), WOp::Maj(1, 0, 2), WOp::Ch(1, 2, 0), WOp::Maj(1, 2, 0)], be, probe });
                // rotated against itself, as the hash functions do
                progs.push(WordProg { nv: 32, words: vec![w(0, 0)], ops: vec![WOp::Rotr(0, 7), WOp::Rotr(0, 18), WOp::Xor(1, 2), WOp::Shr(0, 3), WOp::Xor(3, 4)], be, probe });
            }
        }
    }
    par_for(progs.len(), th, |i| {
        let g = &progs[i];
        let n = g.nv / 32;
        let mut vecs = vec![];
        for a in &vs { for b in &vs {
            let mut x = bits::<F>(*a);
            if n > 1 { x.extend(bits::<F>(*b)); }
            if n > 2 { x.extend(bits::<F>(a.wrapping_mul(0x9E37_79B9) ^ b.rotate_left(5))); }
            vecs.push(x);
            if n == 1 { break; }
        } }
        verify::<F, _>(cx, &format!("{} #{} {:?}", f, i, short(g)), g, &vecs, Sound::PerVector);
    });
    cx.bound(&format!("{} bitwise", f), format!("xor/ch/maj with all kind combinations over {} rotations, {} values per word, both bit orders, tracked value probed", rots, vs.len()));
}
fn short(g: &WordProg) -> String { format!("{:?} be={} probe={}", g.ops, g.be, g.probe) }
fn shifts<F: TF>(cx: &Ctx, f: &str, th: usize) {
    let mut progs = vec![];
    for by in 0..=96usize {
        for be in [false, true] { for probe in [false, true] {
            if probe && F::NUM_BITS < 64 { continue; }
            let w = W::Bits(word(pats(0, by as u32), 0));
            progs.push(WordProg { nv: 32, words: vec![w.clone()], ops: vec![WOp::Rotr(0, by)], be, probe });
            progs.push(WordProg { nv: 32, words: vec![W::Const(0xdead_beef ^ by as u32)], ops: vec![WOp::Rotr(0, by)], be, probe });
            if by < 32 {
                progs.push(WordProg { nv: 32, words: vec![w.clone()], ops: vec![WOp::Shr(0, by)], be, probe });
                progs.push(WordProg { nv: 32, words: vec![W::Const(0xdead_beef ^ by as u32)], ops: vec![WOp::Shr(0, by)], be, probe });
            }
            if by == 0 { progs.push(WordProg { nv: 32, words: vec![w.clone()], ops: vec![WOp::Same(0)], be, probe }); progs.push(WordProg { nv: 32, words: vec![W::Be(word(pats(1, 3), 0))], ops: vec![WOp::Same(0)], be, probe }); }
        } }
    }
    par_for(progs.len(), th, |i| {
        let g = &progs[i];
        let mut vecs: Vec<Vec<F>> = values().into_iter().map(bits).collect();
        for k in 0..32 { vecs.push(bits(1 << k)); }
        verify::<F, _>(cx, &format!("{} {:?} words {:?}", f, short(g), match &g.words[0] { W::Const(c) => format!("{}", c), W::Be(_) => "be".into(), _ => "bits".into() }), g, &vecs, Sound::PerVector);
    });
    cx.bound(&format!("{} rotations and shifts", f), "every rotation 0..96, every shift 0..31, one-bit and boundary words, constants and mixed words");
}
fn adds<F: TF>(cx: &Ctx, f: &str, th: usize, deep: bool) {
    let al: Vec<u32> = vec![0, u32::MAX, 0x8000_0000, 1];
    let wide = values();
    let mut many = values();
    for i in 0..32 { if deep || i % 2 == 0 { many.push(1 << i); many.push(u32::MAX << i); } }
    let mut jobs: Vec<(WordProg, Vec<Vec<F>>)> = vec![];
    // kinds of an operand: all constant, all allocated, mixed, negated
    let kinds: Vec<u64> = vec![0xAAAA_AAAA_AAAA_AAAA, 0xE4E4_E4E4_E4E4_E4E4, u64::MAX, 0x5555_0000_5500_1144];
    let vecs = |n: usize, vals: &Vec<u32>, cap: usize| -> Vec<Vec<F>> {
        let mut out: Vec<Vec<F>> = vec![vec![]];
        for _ in 0..n { out = out.into_iter().flat_map(|v| vals.iter().map(move |x| { let mut w = v.clone(); w.extend(bits::<F>(*x)); w }).collect::<Vec<_>>()).collect(); }
        let step = (out.len() + cap - 1) / cap;
        out.into_iter().step_by(step.max(1)).collect()
    };
    for n in 2..=3usize {
        let m = kinds.len().pow(n as u32);
        for c in 0..m {
            for probe in [false, true] {
                let mut words = vec![];
                let mut d = c;
                for j in 0..n { words.push(W::Bits(word(kinds[d % kinds.len()].rotate_left(2 * j as u32), 32 * j as u16))); d /= kinds.len(); }
                if n == 3 && probe && c % 3 != 0 { continue; }
                jobs.push((WordProg { nv: 32 * n, words, ops: vec![WOp::Add((0..n).collect())], be: c % 2 == 1, probe }, vecs(n, if n == 2 { &many } else { &al }, if n == 2 && c < 4 { 2000 } else { 64 })));
            }
        }
    }
    for n in 4..=10usize {
        for c in 0..if deep { 8 } else { 4 } {
            let words: Vec<W> = (0..n).map(|j| if c == 3 && j % 3 == 1 { W::Const(0xffff_ffff - j as u32) } else { W::Bits(word(kinds[(c + j) % 4].rotate_left(2 * (j as u32 + c as u32)), 32 * j as u16)) }).collect();
            // every operand from {0, max}: all 2^n for n <= 7, in steps beyond; and all equal to each boundary value
            let mut v = vecs(n, &vec![0, u32::MAX], if deep { 1024 } else { 128 });
            for x in &wide { v.push((0..n).flat_map(|_| bits::<F>(*x)).collect()); }
            for j in 0..n { v.push((0..n).flat_map(|i| bits::<F>(if i == j { 0 } else { u32::MAX })).collect()); }
            jobs.push((WordProg { nv: 32 * n, words, ops: vec![WOp::Add((0..n).collect())], be: false, probe: c == 0 }, v));
        }
    }
    // only constants: a constant and no constraints
    for n in 2..=10usize {
        for c in 0..6u32 {
            let words: Vec<W> = (0..n).map(|j| W::Const([0, u32::MAX, 0x8000_0001, 7][(j + c as usize) % 4].wrapping_add(c * j as u32))).collect();
            for probe in [false, true] { jobs.push((WordProg { nv: 0, words: words.clone(), ops: vec![WOp::Add((0..n).collect())], be: false, probe }, vec![vec![]])); }
        }
    }
    // sums of sums, and the same operand several times
    for c in 0..3u32 {
        let w = |j: u16| W::Bits(word(kinds[((c as u16 + j) % 3) as usize], 32 * j));
        jobs.push((WordProg { nv: 64, words: vec![w(0), w(1)], ops: vec![WOp::Add(vec![0, 1]), WOp::Rotr(2, 9), WOp::Xor(3, 0), WOp::Add(vec![4, 2, 4, 1]), WOp::Add(vec![5, 5])], be: false, probe: true }, vecs(2, &wide, 64)));
        // words made of the same bits
        let a = |j: usize| W::Bits(word(kinds[(c as usize + j) % 4].rotate_left(2 * j as u32), 0));
        jobs.push((WordProg { nv: 32, words: vec![a(0), a(1), a(2), a(3)], ops: vec![WOp::Add(vec![0, 1]), WOp::Add(vec![0, 1, 2, 3]), WOp::Add(vec![4, 0])], be: false, probe: c == 0 }, vecs(1, &many, 64)));
        jobs.push((WordProg { nv: 64, words: vec![w(0), w(1)], ops: vec![WOp::Add(vec![0, 0]), WOp::Add(vec![1, 1, 1, 1, 1, 1, 1, 1, 1, 1]), WOp::Add(vec![2, 3])], be: true, probe: false }, vecs(2, &wide, 64)));
    }
    let n = jobs.len();
    par_for(n, th, |i| {
        let (g, v) = &jobs[i];
        verify::<F, _>(cx, &format!("{} #{} {:?}", f, i, short(g)), g, v, Sound::PerVector);
    });
    cx.bound(&format!("{} additions", f), format!("{} programs: 2-3 operands with every kind combination, 4-10 operands at every extreme, constants only, nested and repeated operands", n));
}
fn main() {
    let cx = Ctx::new("C16");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match cx.part.as_str() {
        "bitwise" => {
            bitwise::<Gold>(&cx, "Goldilocks", th, cx.tier(16, 32));
            bitwise::<Bls>(&cx, "BLS12-381 scalar", th, cx.tier(4, 32));
            bitwise::<F7>(&cx, "F7", th, 32);
            bitwise::<F97>(&cx, "F97", th, cx.tier(16, 32));
        }
        "shifts" => {
            shifts::<Gold>(&cx, "Goldilocks", th);
            shifts::<F5>(&cx, "F5", th);
            for i in 0..32 { for v in [1u32 << i, !(1 << i), (1u32 << i) - 1] {
                verify::<Gold, _>(&cx, &format!("Goldilocks alloc {}", v), &WordAlloc(v), &[vec![]], Sound::Skip);
                verify::<Bls, _>(&cx, &format!("BLS12-381 alloc {}", v), &WordAlloc(v), &[vec![]], Sound::Skip);
            } }
        }
        "adds" => {
            adds::<Gold>(&cx, "Goldilocks", th, cx.thorough);
        }
        "adds-bls" => {
            adds::<Bls>(&cx, "BLS12-381 scalar", th, cx.thorough);
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| "addmany of 10 operands (mixed constant, allocated and negated bits), operand bits fixed: the packed constraint is enumerated exactly over the integers, one satisfying result, equal to the wrapping sum".into());
    cx.finish();
}
