//! C17: packed equality constraints.
use bellman::gadgets::multieq::MultiEq;
use bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable};
use mc::explore::{explore, Limits, Sys};
use mc::gad::fb;
use mc::rec::{vid, Mode, Rec, V};
use mc::report::{guard, par_for, Ctx};
use mc::toy::*;

fn compositions(max: usize, total: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    while !cur.is_empty() {
        let mut next = vec![];
        for c in &cur { let s: usize = c.iter().sum(); for w in 1..=max { if s + w <= total { let mut d = c.clone(); d.push(w); next.push(d); } } }
        out.extend(next.clone());
        cur = next;
    }
    out
}
/// How the operands of equality i are made.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Style {
    /// x_i = y_i
    Vars,
    /// x_i = x_{i+1}: shared variables
    Shared,
    /// x_i - y_i + y_i = y_i: several terms
    Terms,
    /// a constant on the left
    Const,
    /// x_i = 0, 0 = x_i and 0 = 0 in turn, with a side that has no terms at all
    Empty,
}
fn num<F: TF>(cs: &mut impl ConstraintSystem<F>, n: &str) -> Variable { cs.alloc(|| n.to_string(), || Ok(F::ZERO)).unwrap() }
/// All in-width assignments of a sequence of equalities over a small field.
fn direct<F: TF>(cx: &Ctx, f: &str, ws: &[usize], st: Style, nested: bool) {
    let key = || format!("{} {:?} {:?} nested={}", f, ws, st, nested);
    cx.check(1, key, || {
        let n = ws.len();
        let mut rec: Rec<F> = Rec::new(Mode::Keygen);
        let mut vars: Vec<(Variable, usize)> = vec![];
        let mut eqs: Vec<(usize, usize)> = vec![]; // indices into vars
        match st {
            Style::Vars | Style::Terms => for w in ws { let (a, b) = (num(&mut rec, "x"), num(&mut rec, "y")); vars.push((a, *w)); vars.push((b, *w)); eqs.push((vars.len() - 2, vars.len() - 1)); },
            Style::Shared => for i in 0..=n { let w = if i == 0 { ws[0] } else if i == n { ws[n - 1] } else { ws[i - 1].min(ws[i]) }; vars.push((num(&mut rec, "x"), w)); if i > 0 { eqs.push((i - 1, i)); } },
            Style::Const | Style::Empty => for w in ws { vars.push((num(&mut rec, "x"), *w)); eqs.push((vars.len() - 1, usize::MAX)); },
        }
        let kconst = |i: usize| F::from((0x5555_5555u64 >> (i & 1)) & ((1 << ws[i]) - 1));
        let z = LinearCombination::<F>::zero;
        let emit = |m: &mut dyn FnMut(usize, &LinearCombination<F>, &LinearCombination<F>)| {
            for (i, (a, b)) in eqs.iter().enumerate() {
                let (l, r) = match st {
                    Style::Vars | Style::Shared => (z() + vars[*a].0, z() + vars[*b].0),
                    Style::Terms => (z() + vars[*a].0 - vars[*b].0 + (F::from(2), vars[*b].0) - vars[*b].0, z() + (F::from(3), vars[*b].0) - (F::from(2), vars[*b].0)),
                    Style::Empty => match i % 3 { 0 => (z() + vars[*a].0, z()), 1 => (z(), z() + vars[*a].0), _ => (z(), z()) },
                    Style::Const => (z() + (kconst(i), Rec::<F>::one()), z() + vars[*a].0),
                };
                m(ws[i], &l, &r);
            }
        };
        if nested {
            let mut ns = rec.namespace(|| "outer");
            let mut m = MultiEq::new(&mut ns);
            // through the root of a namespace, as UInt32::addmany does
            emit(&mut |w, l, r| { let mut n2 = m.namespace(|| "eq"); n2.get_root().enforce_equal(w, l, r); });
        } else {
            let mut m = MultiEq::new(&mut rec);
            emit(&mut |w, l, r| m.enforce_equal(w, l, r));
        }
        if rec.depth != 0 { return Err("namespaces are not balanced".into()); }
        if n == 0 && !rec.cons.is_empty() { return Err("a constraint for no equalities".into()); }
        let bits: usize = vars.iter().map(|v| v.1).sum();
        let ids: Vec<usize> = vars.iter().map(|v| (vid(v.0) >> 1) as usize).collect();
        let mut sat = 0u64;
        for m in 0..1u64 << bits {
            let mut k = 0;
            let mut vals = vec![0u64; vars.len()];
            for (i, v) in vars.iter().enumerate() { vals[i] = (m >> k) & ((1 << v.1) - 1); k += v.1; rec.aux[ids[i]] = F::from(vals[i]); }
            let want = eqs.iter().enumerate().all(|(i, (a, b))| if st == Style::Empty { i % 3 == 2 || vals[*a] == 0 } else if st == Style::Const { F::from(vals[*a]) == kconst(i) } else { vals[*a] == vals[*b] });
            let got = rec.first_violated().is_none();
            if want != got { return Err(format!("values {:?}: constraints {}, equalities {}", vals, got, want)); }
            sat += got as u64;
        }
        cx.states(1 << bits);
        cx.count("in-width assignments evaluated", 1 << bits);
        cx.count("satisfying assignments", sat);
        Ok(())
    });
}
/// Fixed left sides, unknown bits on the right: the satisfying bit strings are enumerated exactly.
fn exact<F: TF>(cx: &Ctx, f: &str, ws: &[usize], pattern: usize) {
    let key = || if ws.len() > 12 { format!("{} {} widths from {:?} pattern {}", f, ws.len(), &ws[..12], pattern) } else { format!("{} {:?} pattern {}", f, ws, pattern) };
    cx.check(1, key, || {
        let mut rec: Rec<F> = Rec::new(Mode::Keygen);
        let bit = |i: usize, j: usize| match pattern { 0 => false, 1 => true, 2 => (i + j) % 2 == 0, 3 => j + 1 == ws[i], 4 => j == 0 && i % 2 == 0, _ => (i * 7 + j * 3) % 5 < 2 };
        let mut fixed: Vec<(V, F)> = vec![];
        let mut bits: Vec<Vec<Variable>> = vec![];
        let mut lhs: Vec<Variable> = vec![];
        for (i, w) in ws.iter().enumerate() {
            let l = num(&mut rec, "l");
            let v = (0..*w).rev().fold(F::ZERO, |a, j| a.double() + fb::<F>(bit(i, j)));
            fixed.push((vid(l), v));
            lhs.push(l);
            bits.push((0..*w).map(|_| { let b = num(&mut rec, "b"); rec.enforce(|| "bool", |lc| lc + Rec::<F>::one() - b, |lc| lc + b, |lc| lc); b }).collect());
        }
        {
            let mut m = MultiEq::new(&mut rec);
            for (i, w) in ws.iter().enumerate() {
                let mut r = LinearCombination::<F>::zero();
                let mut c = F::ONE;
                for b in &bits[i] { r = r + (c, *b); c = c.double(); }
                let l = LinearCombination::<F>::zero() + lhs[i];
                if i % 2 == 0 { m.enforce_equal(*w, &l, &r) } else { m.enforce_equal(*w, &r, &l) }
            }
        }
        let sys = Sys::new(&rec);
        let watch: Vec<V> = bits.iter().flatten().map(|v| vid(*v)).collect();
        let mut bad = Ok(());
        let out = explore(&sys, &fixed, &watch, Limits::default(), &mut |get| {
            for (i, b) in bits.iter().enumerate() { for (j, v) in b.iter().enumerate() { if get(vid(*v)) != fb::<F>(bit(i, j)) { bad = Err(format!("satisfied although equality {} does not hold (bit {})", i, j)); return false; } } }
            true
        });
        bad?;
        if out.solutions != 1 { return Err(format!("{} satisfying assignments instead of one", out.solutions)); }
        if !out.complete { cx.not_exhaustive(); }
        cx.count("exact explorations", 1);
        cx.trans(out.props);
        Ok(())
    });
}
// ---- pass-through
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Alloc, Input, Enforce, Push, Pop, Eq(usize), FailAlloc, FailInput }
fn through<F: TF>(cx: &Ctx, f: &str, ops: &[Op]) {
    cx.check(1, || format!("{} pass-through {:?}", f, ops), || {
        fn go<F: TF, CS: ConstraintSystem<F>>(cs: &mut CS, ops: &[Op], eq: &mut dyn FnMut(&mut CS, usize, Variable)) -> Result<Vec<Variable>, SynthesisError> {
            let mut vs = vec![CS::one()];
            for (i, o) in ops.iter().enumerate() {
                match o {
                    Op::Alloc => vs.push(cs.alloc(|| format!("a{}", i), || Ok(F::from(i as u64 + 2)))?),
                    Op::Input => vs.push(cs.alloc_input(|| format!("i{}", i), || Ok(F::from(i as u64 + 2)))?),
                    Op::FailAlloc => vs.push(cs.alloc(|| format!("a{}", i), || Err(SynthesisError::DivisionByZero))?),
                    Op::FailInput => vs.push(cs.alloc_input(|| format!("i{}", i), || Err(SynthesisError::Unsatisfiable))?),
                    Op::Enforce => { let v = *vs.last().unwrap(); cs.enforce(|| format!("c{}", i), |lc| lc + v + (F::from(3), CS::one()), |lc| lc - v, |lc| lc + (F::from(2), v)); }
                    Op::Push => cs.push_namespace(|| format!("n{}", i)),
                    Op::Pop => cs.pop_namespace(),
                    Op::Eq(w) => { let v = *vs.last().unwrap(); eq(cs, *w, v); }
                }
            }
            Ok(vs)
        }
        let mut plain: Rec<F> = Rec::new(Mode::Prove);
        plain.log_events = true;
        let want = go(&mut plain, ops, &mut |_, _, _| {});
        let mut rec: Rec<F> = Rec::new(Mode::Prove);
        rec.log_events = true;
        let got = guard(|| { let mut m = MultiEq::new(&mut rec); go(&mut m, ops, &mut |m, w, v| { let l = LinearCombination::<F>::zero() + v; m.enforce_equal(w, &l, &l) }) })?;
        match (&want, &got) {
            (Ok(a), Ok(b)) if a.iter().map(|v| vid(*v)).eq(b.iter().map(|v| vid(*v))) => {}
            (Err(a), Err(b)) if format!("{:?}", a) == format!("{:?}", b) => {}
            _ => return Err(format!("{:?} instead of {:?}", got, want)),
        }
        // constraints of the packing are those whose names the caller did not use
        let mut ev = vec![];
        let mut cons = vec![];
        let mut ci = 0;
        for e in &rec.events { let own = e.starts_with("enforce") && !plain.events.contains(e); if e.starts_with("enforce") { if !own { cons.push(rec.cons[ci].clone()); } ci += 1; } if !own { ev.push(e.clone()); } }
        if ev != plain.events { return Err(format!("events {:?} instead of {:?}", ev, plain.events)); }
        if cons != plain.cons { return Err("a constraint was changed on its way through".into()); }
        if rec.aux != plain.aux || rec.inputs != plain.inputs { return Err("values were changed on their way through".into()); }
        if rec.depth != plain.depth { return Err("namespaces differ".into()); }
        // x = x always holds
        let own: usize = rec.cons.len() - cons.len();
        let has = ops.iter().take_while(|o| !matches!(o, Op::FailAlloc | Op::FailInput)).any(|o| matches!(o, Op::Eq(_)));
        if !has && own != 0 { return Err("constraints without equalities".into()); }
        Ok(())
    });
}
fn main() {
    let cx = Ctx::new("C17");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match cx.part.as_str() {
        "direct" => {
            fn all<F: TF>(cx: &Ctx, f: &str, total: usize, th: usize) {
                let cap = F::CAPACITY as usize;
                let seqs = compositions(cap - 1, total);
                par_for(seqs.len(), th, |i| {
                    let ws = &seqs[i];
                    for nested in [false, true] {
                        direct::<F>(cx, f, ws, Style::Vars, nested);
                        if !nested { direct::<F>(cx, f, ws, Style::Terms, nested); direct::<F>(cx, f, ws, Style::Const, nested); direct::<F>(cx, f, ws, Style::Empty, nested); }
                        if !ws.is_empty() { direct::<F>(cx, f, ws, Style::Shared, nested); }
                    }
                });
                cx.bound(f, format!("capacity {}: all {} width sequences with a total of at most {} bits, every in-width assignment", cap, seqs.len(), total));
            }
            all::<F5>(&cx, "F5", cx.tier(8, 9), th);
            all::<F11>(&cx, "F11", cx.tier(8, 9), th);
            all::<F17>(&cx, "F17", cx.tier(7, 9), th);
            all::<F97>(&cx, "F97", cx.tier(7, 9), th);
            all::<F193>(&cx, "F193", cx.tier(7, 9), th);
            all::<F257>(&cx, "F257", cx.tier(7, 9), th);
        }
        "exact" => {
            fn seqs<F: TF>(cx: &Ctx, f: &str, th: usize, list: Vec<Vec<usize>>) {
                par_for(list.len(), th, |i| for p in 0..6 { exact::<F>(cx, f, &list[i], p); });
                cx.bound(&format!("{} exact", f), format!("{} width sequences, 6 value patterns each", list.len()));
            }
            seqs::<F17>(&cx, "F17", th, compositions(3, cx.tier(9, 12)));
            seqs::<F97>(&cx, "F97", th, compositions(5, cx.tier(10, 13)));
            // three equalities of all widths, a larger capacity
            let mut l = vec![];
            for a in 1..=12 { for b in 1..=12 { for c in 1..=12 { if cx.thorough || (a + b + c) % 3 == 0 || a + b == 13 || a + b == 12 { l.push(vec![a, b, c]); } } } }
            for w in 1..=12 { l.push(vec![w; 40 / w]); }
            seqs::<F12289>(&cx, "F12289", th, l);
            fn big<F: TF>(cx: &Ctx) -> Vec<Vec<usize>> {
                let cap = F::CAPACITY as usize;
                let mut l = vec![];
                for w in (1..cap).filter(|w| cx.thorough || *w < 40 || *w > cap - 3 || (cap % w) <= 1 || (cap % w) == w - 1) { l.push(vec![w; (2 * cap) / w + 2]); }
                // every split of the capacity (and one beside it) into two, then more
                for a in 1..cap { for e in [cap - 1, cap, cap + 1] { if e > a && e - a < cap && (cx.thorough || a % 5 == 0 || a < 4 || a > cap - 4) { l.push(vec![a, e - a, 2]); } } }
                for w in [32, 33, 34, 35, 36] { if w < cap { l.push((0..20).map(|i| if i % 3 == 1 { w } else { 32.min(cap - 1) }).collect()); } }
                l
            }
            seqs::<Gold>(&cx, "Goldilocks", th, big::<Gold>(&cx));
            seqs::<M61>(&cx, "M61", th, big::<M61>(&cx));
            let b = big::<Bls>(&cx);
            seqs::<Bls>(&cx, "BLS12-381 scalar", th, b);
        }
        "through" => {
            let al = [Op::Alloc, Op::Input, Op::Enforce, Op::Push, Op::Pop, Op::Eq(1), Op::Eq(3), Op::FailAlloc, Op::FailInput];
            let depth = cx.tier(5, 6);
            let mut seqs: Vec<Vec<Op>> = vec![vec![]];
            let mut all = seqs.clone();
            for _ in 0..depth {
                seqs = seqs.into_iter().flat_map(|s| al.iter().map(move |o| { let mut s = s.clone(); s.push(*o); s }).collect::<Vec<_>>()).filter(|s| {
                    let mut d = 0;
                    for (i, o) in s.iter().enumerate() { match o { Op::Push => d += 1, Op::Pop => { if d == 0 { return false; } d -= 1; } Op::FailAlloc | Op::FailInput if i + 1 != s.len() => return false, _ => {} } }
                    true
                }).collect();
                all.extend(seqs.clone());
            }
            par_for(all.len(), th, |i| through::<F17>(&cx, "F17", &all[i]));
            cx.bound("pass-through", format!("all {} operation sequences to depth {}", all.len(), depth));
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| "widths [3,1,2] over F17 (capacity 4): constraints hold for exactly the 64 of 4096 in-width assignments with all three equalities".into());
    cx.finish();
}
