//! C14: boolean gadgets.
use ff::{Field, PrimeField};
use mc::explore::{explore, Limits, Sys};
use mc::gad::*;
use mc::gadlib::*;
use mc::rec::{vid, Mode};
use mc::report::{par_for, Ctx};
use mc::toy::*;

fn gates<F: TF>(cx: &Ctx, f: &str, th: usize, full3: bool) {
    // AllocatedBit operations, aliased operands included
    for op in [AOp::Xor, AOp::And, AOp::AndNot, AOp::Nor] {
        for (nv, a, b) in [(2u8, 0u8, 1u8), (2, 1, 0), (1, 0, 0)] {
            let g = ABit { op, nv, a, b };
            verify::<F, _>(cx, &format!("{} {:?}", f, g), &g, &vectors(&vec![Ty::Bit; nv as usize], &[]), Sound::All);
        }
    }
    verify::<F, _>(cx, &format!("{} Cond", f), &Cond, &vectors(&[Ty::Bit; 2], &[]), Sound::All);
    // two-operand operations: every combination of constant, allocated, negated, aliased
    let mut progs = vec![];
    let o2 = operands(4);
    for a in &o2 { for b in &o2 {
        for op in [BOp::And(*a, *b), BOp::Xor(*a, *b), BOp::Eq(*a, *b)] { progs.push(BoolProg { nv: 2, ops: vec![op] }); }
    } }
    let o3 = operands(if full3 { 5 } else { 4 });
    for a in &o3 { for b in &o3 { for c in &o3 {
        for op in [BOp::Ch(*a, *b, *c), BOp::Maj(*a, *b, *c)] { progs.push(BoolProg { nv: if full3 { 3 } else { 2 }, ops: vec![op] }); }
    } } }
    par_for(progs.len(), th, |i| {
        let g = &progs[i];
        verify::<F, _>(cx, &format!("{} {:?}", f, g), g, &vectors(&vec![Ty::Bit; g.nv as usize], &[]), Sound::All);
    });
    for k in K::all(2) {
        for c in [F::ONE, F::ZERO, -F::ONE, F::from(2), F::from(7)] {
            verify::<F, _>(cx, &format!("{} lc {:?} {:?}", f, k, c), &LcOf { k, c }, &vectors(&[Ty::Bit; 2], &[]), Sound::All);
        }
    }
    cx.bound(f, "every operand combination of every gate (constants, allocated, negated, aliased), every truth assignment, every satisfying assignment enumerated");
}
fn sequences<F: TF>(cx: &Ctx, f: &str, depth: usize, nv: u8, ops3: bool, th: usize) {
    // every program of `depth` operations over `nv` inputs
    fn gen(nv: u8, pool: u8, depth: usize, ops3: bool, cur: &mut Vec<BOp>, out: &mut Vec<BoolProg>) {
        if depth == 0 { out.push(BoolProg { nv, ops: cur.clone() }); return; }
        let o = operands(pool);
        for a in &o { for b in &o {
            if a <= b {
                for op in [BOp::And(*a, *b), BOp::Xor(*a, *b)] { cur.push(op); gen(nv, pool + 1, depth - 1, ops3, cur, out); cur.pop(); }
                if depth > 1 || !ops3 { cur.push(BOp::Eq(*a, *b)); gen(nv, pool, depth - 1, ops3, cur, out); cur.pop(); }
            }
            if ops3 && a.0 >= 2 && b.0 >= 2 { for c in &o { if c.0 < 2 { continue; }
                for op in [BOp::Ch(*a, *b, *c), BOp::Maj(*a, *b, *c)] { cur.push(op); gen(nv, pool + 1, depth - 1, ops3, cur, out); cur.pop(); }
            } }
        } }
    }
    let mut progs = vec![];
    gen(nv, 2 + nv, depth, ops3, &mut vec![], &mut progs);
    par_for(progs.len(), th, |i| {
        let g = &progs[i];
        verify::<F, _>(cx, &format!("{} {:?}", f, g), g, &vectors(&vec![Ty::Bit; g.nv as usize], &[]), Sound::All);
    });
    cx.bound(&format!("{} programs of {} operations over {} inputs", f, depth, nv), progs.len());
}
/// Each bit of a decomposition is constrained to be boolean, by itself.
fn each_bit<F: TF, G: Gadget<F>>(cx: &Ctx, key: String, g: &G) {
    cx.check(1, || format!("{} bitwise", key), || {
        let r = run::<F, _>(g, Mode::Prove, &[])?;
        let sys = Sys::new(&r.rec);
        let n = r.rec.aux.len();
        for i in 0..n {
            let fixed: Vec<_> = (0..n).filter(|j| *j != i).map(|j| (((j as u32) << 1) | 1, r.rec.aux[j])).collect();
            let v = ((i as u32) << 1) | 1;
            let mut bad = None;
            let mut seen = 0;
            let out = explore(&sys, &fixed, &[v], Limits::default(), &mut |get| { let x = get(v); seen += 1; if x != F::ZERO && x != F::ONE { bad = Some(x); } true });
            cx.trans(out.props);
            if let Some(x) = bad { return Err(format!("bit {} may be {:?}", i, x)); }
            if seen != 2 { return Err(format!("bit {} has {} values", i, seen)); }
        }
        Ok(())
    });
}
fn decomp<F: TF>(cx: &Ctx, f: &str) {
    let mut vs: Vec<u64> = vec![0, 1, u64::MAX, u64::MAX - 1, 0x8000_0000_0000_0000, 0xdead_beef_0bad_cafe, 0x5555_5555_5555_5555];
    for i in 0..64 { vs.push(1 << i); vs.push(!(1 << i)); vs.push((1u64 << i).wrapping_sub(1)); }
    for v in vs {
        verify::<F, _>(cx, &format!("{} u64 {}", f, v), &U64Bits(v), &[vec![]], Sound::Skip);
    }
    each_bit::<F, _>(cx, format!("{} u64", f), &U64Bits(0x0123_4567_89ab_cdef));
}
fn field_bits<F: TF, G: TF>(cx: &Ctx, f: &str, vals: &[G]) {
    for v in vals {
        for bools in [true, false] {
            let g = FieldBitsG { v: *v, bools };
            verify::<F, _>(cx, &format!("{} bits of {:?} ({})", f, v, bools), &g, &[vec![]], if G::NUM_BITS <= 7 { Sound::All } else { Sound::Skip });
        }
    }
    if let Some(v) = vals.last() { each_bit::<F, _>(cx, format!("{} field bits", f), &FieldBitsG { v: *v, bools: false }); }
}
fn bls_vals() -> Vec<Bls> {
    let mut v = vec![Bls::ZERO, Bls::ONE, -Bls::ONE, -Bls::from(2), Bls::TWO_INV, Bls::ROOT_OF_UNITY];
    let mut x = Bls::ONE;
    for _ in 0..255u64 { v.push(x); v.push(x - Bls::ONE); x = x.double(); }
    v
}
/// The explorer against brute force, on systems over every kind of constraint it treats specially.
fn selftest<F: TF>(cx: &Ctx, f: &str, p: u64, th: usize) {
    use bellman::ConstraintSystem;
    use mc::rec::Rec;
    // over variables 0 (one), 1..=4
    let lcs: Vec<Vec<(usize, u64)>> = vec![vec![], vec![(0, 1)], vec![(1, 1)], vec![(2, 1)], vec![(3, 1)], vec![(0, 1), (1, p - 1)], vec![(1, 1), (2, 2)], vec![(1, 1), (2, 2), (3, 4 % p)], vec![(3, 1), (4, 1)], vec![(0, 2), (4, 1)]];
    let mut cons: Vec<(usize, usize, usize)> = vec![];
    for a in 0..lcs.len() { for b in 0..lcs.len() { for c in 0..lcs.len() { if a <= b && (a * 31 + b * 17 + c * 7) % 5 == 0 || c == 0 && a <= b { cons.push((a, b, c)); } } } }
    let n = cons.len();
    let all: Vec<F> = (0..p).map(F::from).collect();
    // with 0..=4 of the variables boolean
    par_for(n * 5, th, |i| {
        let (first, bools) = (i % n, i / n);
        for second in (first % 3..n).step_by(if p > 5 { 7 } else { 3 }) {
            cx.check(1, || format!("explorer over {}: {:?} {:?} {} booleans", f, cons[first], cons[second], bools), || {
                let mut r: Rec<F> = Rec::new(Mode::Keygen);
                let mut v = vec![Rec::<F>::one()];
                for _ in 0..4 { v.push(r.alloc(|| "", || Ok(F::ZERO)).unwrap()); }
                let mk = |l: &Vec<(usize, u64)>| l.iter().fold(bellman::LinearCombination::<F>::zero(), |a, (i, c)| a + (F::from(*c), v[*i]));
                for b in 1..=bools { r.enforce(|| "", |lc| lc + v[0] - v[b], |lc| lc + v[b], |lc| lc); }
                for c in [first, second] { let (x, y, z) = cons[c]; r.enforce(|| "", |_| mk(&lcs[x]), |_| mk(&lcs[y]), |_| mk(&lcs[z])); }
                let sys = Sys::new(&r);
                let watch: Vec<u32> = v[1..].iter().map(|x| vid(*x)).collect();
                let mut seen = std::collections::HashSet::new();
                let mut dup = false;
                let out = explore(&sys, &[], &watch, Limits::default(), &mut |get| { let k: Vec<u64> = watch.iter().map(|w| { let x = get(*w).to_repr(); x.as_ref()[0] as u64 }).collect(); dup |= !seen.insert(k); true });
                let mut want = 0u64;
                let vals: Vec<u64> = (0..p).collect();
                for a in &vals { for b in &vals { for c in &vals { for d in &vals {
                    let k = [1, *a, *b, *c, *d];
                    if k[1..=bools].iter().any(|x| *x > 1) { continue; }
                    let e = |l: &Vec<(usize, u64)>| l.iter().map(|(i, x)| k[*i] * x).sum::<u64>() % p;
                    if [first, second].iter().all(|c| { let (x, y, z) = cons[*c]; e(&lcs[x]) * e(&lcs[y]) % p == e(&lcs[z]) }) { want += 1; if !seen.contains(&k[1..].to_vec()) { return Err(format!("missed {:?}", &k[1..])); } }
                } } } }
                if dup || !out.complete || out.solutions != want { return Err(format!("{} solutions instead of {}", out.solutions, want)); }
                Ok(())
            });
        }
    });
    let _ = all;
    // linear constraints over many booleans: carries, wraps of the modulus, negative weights
    for shape in 0..24u64 {
        let nb = 10usize;
        let w: Vec<F> = (0..nb).map(|i| match shape % 4 { 0 => F::from(1 << i), 1 => F::from((1 << i) % p) , 2 => if i >= 5 { -F::from(1u64 << (i - 5)) } else { F::from(1u64 << i) }, _ => F::from(shape * 7 + i as u64 * i as u64 + 1) }).collect();
        for k in 0..p.min(60) {
            cx.check(1, || format!("explorer over {}: weights {} constant {}", f, shape, k), || {
                let mut r: Rec<F> = Rec::new(Mode::Keygen);
                let v: Vec<_> = (0..nb).map(|_| { let x = r.alloc(|| "", || Ok(F::ZERO)).unwrap(); r.enforce(|| "", |lc| lc + Rec::<F>::one() - x, |lc| lc + x, |lc| lc); x }).collect();
                let c = F::from(k * (shape / 4 + 1));
                r.enforce(|| "", |lc| v.iter().zip(&w).fold(lc, |a, (v, w)| a + (*w, *v)), |lc| lc + Rec::<F>::one(), |lc| lc + (c, Rec::<F>::one()));
                let want = (0..1u32 << nb).filter(|m| (0..nb).map(|i| if (m >> i) & 1 == 1 { w[i] } else { F::ZERO }).sum::<F>() == c).count() as u64;
                let watch: Vec<u32> = v.iter().map(|x| vid(*x)).collect();
                let out = explore(&Sys::new(&r), &[], &watch, Limits::default(), &mut |_| true);
                if !out.complete || out.solutions != want { return Err(format!("{} solutions instead of {}", out.solutions, want)); }
                Ok(())
            });
        }
    }
}
fn main() {
    let cx = Ctx::new("C14");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match cx.part.as_str() {
        "gates" => {
            gates::<F2>(&cx, "F3", th, true);
            gates::<F5>(&cx, "F5", th, true);
            gates::<F7>(&cx, "F7", th, true);
            gates::<F17>(&cx, "F17", th, true);
            gates::<F97>(&cx, "F97", th, true);
            gates::<Gold>(&cx, "Goldilocks", th, false);
            gates::<Bls>(&cx, "BLS12-381 scalar", th, cx.thorough);
        }
        "sequences" => {
            sequences::<F5>(&cx, "F5", 2, 2, true, th);
            sequences::<F7>(&cx, "F7", 3, 1, false, th);
            sequences::<F2>(&cx, "F3", 2, 2, true, th);
            if cx.thorough {
                sequences::<F5>(&cx, "F5", 3, 2, false, th);
                sequences::<F2>(&cx, "F3", 3, 2, false, th);
                sequences::<F17>(&cx, "F17", 2, 3, true, th);
                sequences::<Bls>(&cx, "BLS12-381 scalar", 2, 2, true, th);
            }
        }
        "explorer" => {
            selftest::<F2>(&cx, "F3", 3, th);
            selftest::<F5>(&cx, "F5", 5, th);
            selftest::<F7>(&cx, "F7", 7, th);
            selftest::<F11>(&cx, "F11", 11, th);
            cx.bound("explorer", "all solutions of systems of two constraints over four variables (0 to 4 of them boolean) and of 10-bit linear constraints, against brute force");
        }
        "decomp" => {
            decomp::<F5>(&cx, "F5");
            decomp::<Gold>(&cx, "Goldilocks");
            decomp::<Bls>(&cx, "BLS12-381 scalar");
            field_bits::<F5, F17>(&cx, "F17 in F5", &F17::all().collect::<Vec<_>>());
            field_bits::<F97, F97>(&cx, "F97 in F97", &F97::all().collect::<Vec<_>>());
            field_bits::<F17, F5>(&cx, "F5 in F17", &F5::all().collect::<Vec<_>>());
            field_bits::<F5, F2>(&cx, "F3 in F5", &F2::all().collect::<Vec<_>>());
            field_bits::<F17, F12289>(&cx, "F12289 in F17", &F12289::all().collect::<Vec<_>>());
            field_bits::<F97, F65537>(&cx, "F65537 in F97", &F65537::all().step_by(cx.tier(7, 1)).collect::<Vec<_>>());
            field_bits::<Bls, Bls>(&cx, "BLS12-381 scalar", &bls_vals());
            field_bits::<Bls, Gold>(&cx, "Goldilocks in BLS12-381 scalar", &(0..64).flat_map(|i| [Gold::new(1 << i), -Gold::new(1 << i), Gold::new((1u64 << i) - 1)]).collect::<Vec<_>>());
            cx.bound("decompositions", "u64: boundary and one-bit patterns; field: every element of F3, F5, F17, F97, F12289 (F65537 in steps); powers of two and their predecessors for Goldilocks and BLS12-381; each bit's constraint explored by itself");
        }
        x => panic!("unknown part {}", x),
    }
    let _ = vid;
    cx.sample(|| "Boolean::sha256_maj over (Not(0), Is(1), Const(true)): 8 honest runs, all satisfying assignments of the emitted constraints enumerated and compared with the truth table".into());
    cx.finish();
}
