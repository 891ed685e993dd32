//! C22: the circuit shape does not depend on witness values.
use bellman::gadgets::boolean::{self, AllocatedBit, Boolean};
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::num::AllocatedNum;
use bellman::gadgets::uint32::UInt32;
use bellman::{ConstraintSystem, SynthesisError};
use mc::gad::*;
use mc::gadlib::*;
use mc::rec::{norm, Lc, Mode, Rec};
use mc::report::{guard, par_for, Ctx};
use mc::toy::*;
use std::marker::PhantomData;

fn bitvecs<F: TF>(n: usize) -> Vec<Vec<F>> {
    if n <= 4 { return vectors(&vec![Ty::Bit; n], &[]); }
    let mut r = SplitMix(n as u64);
    vec![vec![F::ZERO; n], vec![F::ONE; n], (0..n).map(|i| fb(i % 2 == 0)).collect(), (0..n).map(|_| fb(r.next() & 1 == 1)).collect()]
}
fn bools<F: TF>(cx: &Ctx, f: &str, th: usize) {
    for op in [AOp::Xor, AOp::And, AOp::AndNot, AOp::Nor] { for (nv, a, b) in [(2u8, 0u8, 1u8), (1, 0, 0)] { let g = ABit { op, nv, a, b }; shape::<F, _>(cx, &format!("{} {:?}", f, g), &g, &bitvecs(nv as usize)); } }
    shape::<F, _>(cx, &format!("{} Cond", f), &Cond, &bitvecs(2));
    for k in K::all(2) { shape::<F, _>(cx, &format!("{} lc {:?}", f, k), &LcOf { k, c: F::from(3) }, &bitvecs(2)); }
    let mut progs = vec![];
    let o2 = operands(4);
    for a in &o2 { for b in &o2 { for op in [BOp::And(*a, *b), BOp::Xor(*a, *b), BOp::Eq(*a, *b)] {
        progs.push(BoolProg { nv: 2, ops: vec![op.clone()] });
        // the result used again, so that the kind of the result matters
        if let BOp::Eq(..) = op { continue; }
        for n in [false, true] { progs.push(BoolProg { nv: 2, ops: vec![op.clone(), BOp::Xor((4, n), (2, false)), BOp::Ch((3, false), (4, n), (5, false))] }); }
    } } }
    let o3 = operands(5);
    for a in &o3 { for b in &o3 { for c in &o3 { for op in [BOp::Ch(*a, *b, *c), BOp::Maj(*a, *b, *c)] { progs.push(BoolProg { nv: 3, ops: vec![op, BOp::And((5, true), (2, false))] }); } } } }
    par_for(progs.len(), th, |i| shape::<F, _>(cx, &format!("{} {:?}", f, progs[i]), &progs[i], &bitvecs(progs[i].nv as usize)));
    cx.bound(&format!("{} booleans", f), format!("{} programs over every operand kind, every truth assignment, unknown, partly unknown", progs.len()));
}
fn nums<F: TF>(cx: &Ctx, f: &str, vals: &[F], th: usize) {
    let mut l = vec![];
    for a in 0..2u8 {
        for o in [NOp::Square(a), NOp::Nonzero(a), NOp::Inputize(a), NOp::Strict(a), NOp::Plain(a)] { l.push(NumG { bits: 0, nums: 2, op: o }); }
        for b in 0..2u8 {
            for o in [NOp::Mul(a, b), NOp::MulSq(a, b), NOp::InputProduct(a, b)] { l.push(NumG { bits: 0, nums: 2, op: o }); }
            for k in K::all(1) { l.push(NumG { bits: 1, nums: 2, op: NOp::Reverse(a, b, k) }); }
        }
    }
    par_for(l.len(), th, |i| shape::<F, _>(cx, &format!("{} {:?}", f, l[i]), &l[i], &vectors(&Gadget::<F>::ins(&l[i]), vals)));
    for start in [false, true] { for a in K::all(2) { for b in K::all(2) {
        let g = NumAcc { nv: 2, start, terms: vec![(a, F::from(2)), (b, -F::ONE)], scale: F::ONE };
        shape::<F, _>(cx, &format!("{} {:?}", f, g), &g, &vectors(&Gadget::<F>::ins(&g), &vals[..vals.len().min(4)]));
    } } }
    cx.bound(&format!("{} numbers", f), format!("every operation on pairs of {} values", vals.len()));
}
fn words<F: TF>(cx: &Ctx, f: &str, th: usize) {
    let mut progs = vec![];
    let kinds: [u64; 4] = [0xAAAA_AAAA_AAAA_AAAA, 0xE4E4_E4E4_E4E4_E4E4, u64::MAX, 0x5555_0000_5500_1144];
    let w = |pat: u64, base: u16| W::Bits((0..32u16).map(|i| match (pat >> (2 * i)) & 3 { 0 => K::C(false), 1 => K::C(true), 2 => K::Is(base + i), _ => K::Not(base + i) }).collect());
    for a in 0..4usize { for b in 0..4usize {
        let c = (a + b) % 4;
        let ws = vec![w(kinds[a], 0), w(kinds[b].rotate_left(2), 32), w(kinds[c].rotate_left(6), 64), W::Const(0xdead_beef)];
        for ops in [vec![WOp::Xor(0, 1)], vec![WOp::Ch(0, 1, 2)], vec![WOp::Maj(0, 1, 2)], vec![WOp::Xor(0, 3)], vec![WOp::Ch(0, 3, 1)], vec![WOp::Maj(3, 0, 1)], vec![WOp::Rotr(0, 7), WOp::Shr(4, 3), WOp::Xor(5, 1)], vec![WOp::Add(vec![0, 1])], vec![WOp::Add(vec![0, 1, 2, 3]), WOp::Rotr(4, 5), WOp::Add(vec![5, 0])], vec![WOp::Add(vec![3, 3])], vec![WOp::Add(vec![3, 0])]] {
            let adds = ops.iter().any(|o| matches!(o, WOp::Add(_)));
            progs.push(WordProg { nv: 96, words: ws.clone(), ops, be: a % 2 == 0, probe: adds && b % 2 == 0 });
        }
    } }
    par_for(progs.len(), th, |i| shape::<F, _>(cx, &format!("{} word program {} {:?}", f, i, progs[i].ops), &progs[i], &bitvecs(96)));
    cx.bound(&format!("{} words", f), format!("{} programs", progs.len()));
}
fn rest<F: TF>(cx: &Ctx, f: &str, th: usize, hashes: bool) {
    for (n, entries) in [(8usize, 8usize), (4, 4)] {
        let _ = n;
        let t: Vec<(F, F)> = (0..entries as u64).map(|i| (F::from(i * i + 3), F::from(7 * i + 1))).collect();
        let ks = K::all(3);
        par_for(512, th, |c| { let g = Lookup { nv: 3, sel: [ks[c % 8], ks[c / 8 % 8], ks[c / 64]], table: t.clone() }; shape::<F, _>(cx, &format!("{} {}-entry lookup {:?}", f, entries, g.sel), &g, &bitvecs(3)); });
    }
    let cap = F::CAPACITY as usize;
    for n in [0, 1, 2, 3, cap - 1, cap, cap + 1, 2 * cap, 2 * cap + 1] {
        for rot in 0..3usize {
            let bits: Vec<K> = (0..n).map(|i| match (rot, (i + rot) % 4) { (0, _) => K::Is(i as u16), (_, 0) => K::C(i % 8 < 4), (_, 1) => K::Not(i as u16), _ => K::Is(i as u16) }).collect();
            shape::<F, _>(cx, &format!("{} pack {} {}", f, n, rot), &Pack::<F> { nv: n, bits, p: PhantomData }, &bitvecs(n));
        }
    }
    if !hashes { return; }
    let lens = [0usize, 1, 55, 56, 64, 65];
    par_for(lens.len() * 4, th, |i| {
        let n = 8 * lens[i / 4];
        let kind = if i % 2 == 0 { HashKind::Sha } else { HashKind::Blake(*b"abcdefgh") };
        let bits = (0..n).map(|j| if i % 4 < 2 { KBig::Is(j as u32) } else { match j % 4 { 0 => KBig::C(true), 1 => KBig::Not(j as u32), 2 => KBig::C(false), _ => KBig::Is(j as u32) } }).collect();
        let h = Hash { kind, nv: n, bits };
        shape::<F, _>(cx, &format!("{} {:?} {} bits", f, h.kind, n), &h, &bitvecs(n));
    });
    let h = Hash { kind: HashKind::ShaBlock, nv: 512, bits: (0..512).map(KBig::Is).collect() };
    shape::<F, _>(cx, &format!("{} block", f), &h, &bitvecs(512));
}
/// Gadgets that take their value as an argument: the same variables and constraints for every value and for none,
/// and AssignmentMissing without one when values are needed.
fn alloc_like<F: TF>(cx: &Ctx, key: &str, vals: usize, f: &dyn Fn(&mut Rec<F>, Option<usize>) -> Result<Vec<Out<F>>, SynthesisError>) {
    cx.check(vals as u64 + 2, || key.to_string(), || {
        let go = |m: Mode, v: Option<usize>| -> Result<(Rec<F>, Result<Vec<Out<F>>, SynthesisError>), String> { let mut r = Rec::new(m); r.names = Some(Default::default()); let o = guard(|| f(&mut r, v))?; if let Some(e) = r.names.as_ref().and_then(|n| n.bad.clone()) { return Err(e); } if r.depth != 0 { return Err("unbalanced".into()); } Ok((r, o)) };
        let (kr, ko) = go(Mode::Keygen, None)?;
        let ko = ko.map_err(|e| format!("without a value: {:?}", e))?;
        if ko.iter().any(|o| o.val.is_some() && !o.constant) { return Err("a value is reported although none is known".into()); }
        let lcs = |o: &[Out<F>]| -> Vec<(Lc<F>, bool)> { o.iter().map(|o| (norm(&o.lc), o.constant)).collect() };
        for v in 0..vals {
            for m in [Mode::Prove, Mode::Keygen] {
                let (r, o) = go(m, Some(v))?;
                let o = o.map_err(|e| format!("value #{}: {:?}", v, e))?;
                r.same_shape(&kr).map_err(|e| format!("value #{}: {}", v, e))?;
                if lcs(&o) != lcs(&ko) { return Err(format!("value #{}: other variables", v)); }
                if m == Mode::Prove { for o in &o { if o.val != Some(r.eval_lc(&o.lc)) { return Err(format!("value #{}: reported value differs from the assignment", v)); } } }
            }
        }
        match go(Mode::Prove, None)?.1 { Err(SynthesisError::AssignmentMissing) => Ok(()), Err(e) => Err(format!("{:?} instead of AssignmentMissing", e)), Ok(_) => Err("no AssignmentMissing".into()) }
    });
}
fn allocs<F: TF, G: TF>(cx: &Ctx, f: &str) {
    let words = [0u32, u32::MAX, 1, 0x8000_0000, 0xdead_beef];
    alloc_like::<F>(cx, &format!("{} AllocatedBit::alloc", f), 2, &|cs, v| Ok(vec![ob(&Boolean::from(AllocatedBit::alloc(cs, v.map(|v| v == 1))?))]));
    alloc_like::<F>(cx, &format!("{} AllocatedNum::alloc", f), 3, &|cs, v| Ok(vec![on(&AllocatedNum::alloc(cs, || v.map(|v| F::from(v as u64)).ok_or(SynthesisError::AssignmentMissing))?)]));
    alloc_like::<F>(cx, &format!("{} UInt32::alloc", f), words.len(), &|cs, v| Ok(obs(&UInt32::alloc(cs, v.map(|v| words[v]))?.into_bits())));
    alloc_like::<F>(cx, &format!("{} u64_into_boolean_vec_le", f), words.len(), &|cs, v| Ok(obs(&boolean::u64_into_boolean_vec_le(cs, v.map(|v| (words[v] as u64) << 20 | 5))?)));
    let gs = [G::ZERO, G::ONE, -G::ONE, G::TWO_INV, G::ROOT_OF_UNITY];
    alloc_like::<F>(cx, &format!("{} field_into_boolean_vec_le", f), gs.len(), &|cs, v| Ok(obs(&boolean::field_into_boolean_vec_le::<F, _, G>(cs, v.map(|v| gs[v]))?)));
    alloc_like::<F>(cx, &format!("{} field_into_allocated_bits_le", f), gs.len(), &|cs, v| Ok(boolean::field_into_allocated_bits_le::<F, _, G>(cs, v.map(|v| gs[v]))?.into_iter().map(|b| ob(&Boolean::from(b))).collect()));
    // alloc_conditionally: a known condition and an unknown value
    for c in [false, true] {
        let (k, p) = { let go = |m: Mode, v: Option<bool>| { let mut r: Rec<F> = Rec::new(m); let b = AllocatedBit::alloc(r.namespace(|| "c"), Some(c)).unwrap(); let o = guard(|| AllocatedBit::alloc_conditionally(r.namespace(|| "x"), v, &b)); (r, o) }; (go(Mode::Keygen, None), go(Mode::Prove, None)) };
        cx.check(2, || format!("{} alloc_conditionally unknown, condition {}", f, c), || {
            if !matches!(k.1, Ok(Ok(ref b)) if b.get_value().is_none()) { return Err(format!("without values: {:?}", k.1.as_ref().map(|r| r.is_ok()))); }
            match &p.1 { Ok(Err(SynthesisError::AssignmentMissing)) => Ok(()), x => Err(format!("{:?} instead of AssignmentMissing", x.as_ref().map(|r| r.as_ref().err().map(|e| err_name(e))))) }
        });
    }
    if F::CAPACITY >= 63 {
        alloc_like::<F>(cx, &format!("{} UInt32::alloc and addmany", f), words.len(), &|cs, v| {
            let a = UInt32::alloc(cs.namespace(|| "a"), v.map(|v| words[v]))?;
            let b = UInt32::alloc(cs.namespace(|| "b"), v.map(|v| words[v].rotate_left(7)))?;
            let mut m = MultiEq::new(cs);
            let r = UInt32::addmany(m.namespace(|| "s"), &[a, b, UInt32::constant(77)])?;
            Ok(obs(&r.into_bits()))
        });
    }
}
fn main() {
    let cx = Ctx::new("C22");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    fn edge<F: TF>() -> Vec<F> { vec![F::ZERO, F::ONE, -F::ONE, F::from(2), -F::from(2), F::TWO_INV, F::ROOT_OF_UNITY] }
    match cx.part.as_str() {
        "bools" => { bools::<F5>(&cx, "F5", th); bools::<F17>(&cx, "F17", th); bools::<Bls>(&cx, "BLS12-381 scalar", th); }
        "nums" => {
            nums::<F2>(&cx, "F3", &F2::all().collect::<Vec<_>>(), th);
            nums::<F17>(&cx, "F17", &F17::all().collect::<Vec<_>>(), th);
            nums::<F97>(&cx, "F97", &F97::all().step_by(cx.tier(5, 1)).collect::<Vec<_>>(), th);
            nums::<Gold>(&cx, "Goldilocks", &edge(), th);
            nums::<M61>(&cx, "M61", &edge(), th);
            nums::<Bls>(&cx, "BLS12-381 scalar", &edge(), th);
        }
        "words" => { words::<Gold>(&cx, "Goldilocks", th); words::<Bls>(&cx, "BLS12-381 scalar", th); }
        "rest" => {
            rest::<F17>(&cx, "F17", th, false);
            rest::<Gold>(&cx, "Goldilocks", th, true);
            rest::<Bls>(&cx, "BLS12-381 scalar", th, cx.thorough);
            allocs::<F5, F17>(&cx, "F17 in F5");
            allocs::<F97, Bls>(&cx, "BLS in F97");
            allocs::<Bls, Bls>(&cx, "BLS12-381 scalar");
            allocs::<Gold, F12289>(&cx, "F12289 in Goldilocks");
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| "addmany over mixed words: the same variables and constraints for 4 value patterns, evaluated or not, and for unknown values; AssignmentMissing in a proving context without values".into());
    cx.finish();
}
