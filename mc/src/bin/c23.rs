//! C23: the testing constraint system.
use bellman::gadgets::test::TestConstraintSystem;
use bellman::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::Field;
use mc::report::{guard, par_for, Ctx};
use mc::toy::*;
use std::collections::{BTreeMap, HashMap};

// ---- names and paths
#[derive(Clone, Debug, PartialEq)]
enum Op { Alloc(&'static str), Input(&'static str), Fail(&'static str), FailInput(&'static str), Enforce(&'static str), Push(&'static str), Pop, Set(&'static str) }
#[derive(Clone, Debug, PartialEq)]
enum Obj { In(usize), Aux(usize), Con(usize), Ns }
#[derive(Clone, Default)]
struct Model { objs: BTreeMap<Vec<String>, Obj>, ns: Vec<String>, inputs: Vec<(Fp<97>, Vec<String>)>, aux: Vec<Fp<97>>, cons: Vec<Vec<String>> }
enum Eff { Fine, Panic, Err }
impl Model {
    fn new() -> Model {
        let mut m = Model::default();
        m.objs.insert(vec!["ONE".into()], Obj::In(0));
        m.inputs.push((Fp(1), vec!["ONE".into()]));
        m
    }
    fn path(&self, n: &str) -> Vec<String> { let mut p = self.ns.clone(); p.push(n.into()); p }
    fn put(&mut self, n: &str, o: Obj) -> Eff {
        let p = self.path(n);
        if n.contains('/') || self.objs.contains_key(&p) { return Eff::Panic; }
        self.objs.insert(p, o);
        Eff::Fine
    }
    fn step(&mut self, i: usize, o: &Op) -> Eff {
        match o {
            Op::Fail(n) | Op::FailInput(n) => if n.contains('/') { Eff::Panic } else { Eff::Err },
            Op::Alloc(n) => { let k = self.aux.len(); let e = self.put(n, Obj::Aux(k)); self.aux.push(Fp(i as u64 + 2)); e }
            Op::Input(n) => { let k = self.inputs.len(); let e = self.put(n, Obj::In(k)); let p = self.path(n); self.inputs.push((Fp(i as u64 + 2), p)); e }
            Op::Enforce(n) => { let k = self.cons.len(); let p = self.path(n); let e = self.put(n, Obj::Con(k)); self.cons.push(p); e }
            Op::Push(n) => { let e = self.put(n, Obj::Ns); self.ns.push(n.to_string()); e }
            Op::Pop => if self.ns.pop().is_some() { Eff::Fine } else { Eff::Panic },
            Op::Set(p) => {
                let p: Vec<String> = p.split('/').map(|s| s.to_string()).collect();
                match self.objs.get(&p) { Some(Obj::In(k)) => { self.inputs[*k].0 = Fp(50 + i as u64); Eff::Fine } Some(Obj::Aux(k)) => { self.aux[*k] = Fp(50 + i as u64); Eff::Fine } _ => Eff::Panic }
            }
        }
    }
}
fn real(cs: &mut TestConstraintSystem<F97>, i: usize, o: &Op) -> Result<Option<Variable>, String> {
    let r = guard(|| match o {
        Op::Alloc(n) => cs.alloc(|| *n, || Ok(Fp(i as u64 + 2))).map(Some),
        Op::Input(n) => cs.alloc_input(|| *n, || Ok(Fp(i as u64 + 2))).map(Some),
        Op::Fail(n) => cs.alloc(|| *n, || Err(SynthesisError::DivisionByZero)).map(Some),
        Op::FailInput(n) => cs.alloc_input(|| *n, || Err(SynthesisError::Unsatisfiable)).map(Some),
        Op::Enforce(n) => { cs.enforce(|| *n, |lc| lc, |lc| lc, |lc| lc); Ok(None) }
        Op::Push(n) => { cs.push_namespace(|| *n); Ok(None) }
        Op::Pop => { cs.pop_namespace(); Ok(None) }
        Op::Set(p) => { cs.set(p, Fp(50 + i as u64)); Ok(None) }
    });
    match r { Err(p) => Err(p), Ok(Ok(v)) => Ok(v), Ok(Err(SynthesisError::DivisionByZero)) if matches!(o, Op::Fail(_)) => Ok(None), Ok(Err(SynthesisError::Unsatisfiable)) if matches!(o, Op::FailInput(_)) => Ok(None), Ok(Err(e)) => Err(format!("error {:?}", e)) }
}
fn history(cx: &Ctx, ops: &[Op]) {
    cx.check(ops.len() as u64, || format!("history {:?}", ops), || {
        let mut m = Model::new();
        let mut cs: TestConstraintSystem<F97> = TestConstraintSystem::new();
        for (i, o) in ops.iter().enumerate() {
            let e = m.step(i, o);
            let r = real(&mut cs, i, o);
            match (e, r) {
                (Eff::Panic, Err(_)) => return Ok(()),
                (Eff::Panic, Ok(_)) => return Err(format!("step {} {:?} is accepted", i, o)),
                (_, Err(p)) => return Err(format!("step {} {:?}: {}", i, o, p)),
                (Eff::Fine, Ok(v)) => {
                    let want = match o { Op::Alloc(_) => Some(Index::Aux(m.aux.len() - 1)), Op::Input(_) => Some(Index::Input(m.inputs.len() - 1)), _ => None };
                    if v.map(|v| v.get_unchecked()) != want { return Err(format!("step {} {:?} returned {:?}", i, o, v.map(|v| v.get_unchecked()))); }
                }
                (Eff::Err, Ok(_)) => {}
            }
        }
        if cs.num_constraints() != m.cons.len() || cs.num_inputs() != m.inputs.len() { return Err("counts differ".into()); }
        if !cs.is_satisfied() { return Err("empty constraints are not satisfied".into()); }
        for (p, o) in &m.objs {
            let p = p.join("/");
            match o {
                Obj::In(k) => { if cs.get(&p) != m.inputs[*k].0 { return Err(format!("get({:?})", p)); } if cs.get_input(*k, &p) != m.inputs[*k].0 { return Err(format!("get_input({}, {:?})", k, p)); } }
                Obj::Aux(k) => if cs.get(&p) != m.aux[*k] { return Err(format!("get({:?})", p)); },
                _ => { if guard(|| cs.get(&p)).is_ok() { return Err(format!("get({:?}) of something that is no variable", p)); } if guard(|| cs.set(&p, Fp(1))).is_ok() { return Err(format!("set({:?}) of something that is no variable", p)); } }
            }
        }
        for p in ["zz", "a/zz", "b/zz", "", "/", "a", "a/a", "a/b", "b/a", "/a", "a/", "b"] {
            let k: Vec<String> = p.split('/').map(|s| s.to_string()).collect();
            if !m.objs.contains_key(&k) && guard(|| cs.get(p)).is_ok() { return Err(format!("get({:?}) of nothing", p)); }
        }
        let ins: Vec<F97> = m.inputs[1..].iter().map(|x| x.0).collect();
        if !cs.verify(&ins) { return Err("verify rejects the inputs".into()); }
        for k in 0..ins.len() { let mut w = ins.clone(); w[k] += Fp(1); if cs.verify(&w) { return Err(format!("verify accepts a wrong input {}", k)); } }
        Ok(())
    });
}
// ---- satisfaction
type L = Vec<(usize, u64)>; // variable (0 one, 1 input, 2.. aux), coefficient
fn mk<F: TF>(v: &[Variable], l: &L) -> LinearCombination<F> { l.iter().fold(LinearCombination::zero(), |a, (i, c)| a + (F::from(*c), v[*i])) }
fn lcs(vars: usize, coeffs: &[u64], max: usize) -> Vec<L> {
    let mut cur: Vec<L> = vec![vec![]];
    let mut out = cur.clone();
    for _ in 0..max { cur = cur.into_iter().flat_map(|l| (0..vars).flat_map(move |v| { let l = l.clone(); coeffs.iter().map(move |c| { let mut l = l.clone(); l.push((v, *c)); l }).collect::<Vec<_>>() }).collect::<Vec<_>>()).collect(); out.extend(cur.clone()); }
    out
}
fn satisfaction<F: TF>(cx: &Ctx, f: &str, all: &[F], lib: &[L], cons: usize, th: usize) {
    let n = lib.len();
    let per = n * n * n;
    par_for(per.pow(cons as u32), th, |c| {
        let pick = |j: usize| { let d = c / per.pow(j as u32) % per; (&lib[d % n], &lib[d / n % n], &lib[d / n / n]) };
        let ks: Vec<_> = (0..cons).map(pick).collect();
        cx.check((all.len() * all.len()) as u64, || format!("{} {:?}", f, ks), || {
            let mut cs: TestConstraintSystem<F> = TestConstraintSystem::new();
            let mut ns = cs.namespace(|| "n");
            let i = ns.alloc_input(|| "i", || Ok(F::ZERO)).unwrap();
            let a = ns.alloc(|| "a", || Ok(F::ZERO)).unwrap();
            let vars = [TestConstraintSystem::<F>::one(), i, a];
            for (j, k) in ks.iter().enumerate() { ns.enforce(|| format!("c{}", j), |_| mk(&vars, k.0), |_| mk(&vars, k.1), |_| mk(&vars, k.2)); }
            drop(ns);
            for x in all { for y in all {
                cs.set("n/i", *x);
                cs.set("n/a", *y);
                let v = [F::ONE, *x, *y];
                let e = |l: &L| l.iter().map(|(i, c)| v[*i] * F::from(*c)).sum::<F>();
                let bad = ks.iter().position(|k| e(k.0) * e(k.1) != e(k.2));
                let want = bad.map(|b| format!("n/c{}", b));
                if cs.which_is_unsatisfied().map(|s| s.to_string()) != want { return Err(format!("at {:?}: {:?} instead of {:?}", v, cs.which_is_unsatisfied(), want)); }
                if cs.is_satisfied() != bad.is_none() { return Err(format!("at {:?}: is_satisfied() {}", v, cs.is_satisfied())); }
                if cs.verify(&[*x]) != true || cs.verify(&[*x + F::ONE]) { return Err("verify".into()); }
            } }
            Ok(())
        });
    });
    cx.bound(&format!("{} {} constraints", f, cons), format!("all systems over {} linear combinations, every assignment", n));
}
// ---- the public inputs, compared with every list of the same and of other lengths
fn verifying<F: TF>(cx: &Ctx, f: &str, lists: &[Vec<F>], th: usize) {
    par_for(lists.len(), th, |i| {
        let ins = &lists[i];
        cx.check(lists.len() as u64, || format!("{} inputs {:?}", f, ins), || {
            let mut cs: TestConstraintSystem<F> = TestConstraintSystem::new();
            for (j, x) in ins.iter().enumerate() {
                cs.alloc(|| format!("a{}", j), || Ok(*x + F::ONE)).unwrap();
                cs.alloc_input(|| format!("i{}", j), || Ok(*x)).unwrap();
            }
            for w in lists {
                // a list of another length may panic, but does not verify
                match guard(|| cs.verify(w)) {
                    Ok(v) if v == (w == ins) => {}
                    Err(_) if w.len() != ins.len() => {}
                    r => return Err(format!("verify({:?}) is {:?}", w, r)),
                }
            }
            for (j, x) in ins.iter().enumerate() {
                if cs.get_input(j + 1, &format!("i{}", j)) != *x { return Err(format!("get_input({})", j + 1)); }
                for p in ["ONE", "a0", "i0", "i1", "i2", "i"] { if p != format!("i{}", j) && guard(|| cs.get_input(j + 1, p)).is_ok() { return Err(format!("get_input({}, {:?}) is accepted", j + 1, p)); } }
            }
            if guard(|| cs.get_input(ins.len() + 1, "i0")).is_ok() { return Err("get_input past the end".into()); }
            Ok(())
        });
    });
    cx.bound(&format!("{} public inputs", f), format!("all {} pairs of lists of up to {} inputs", lists.len() * lists.len(), lists.iter().map(|l| l.len()).max().unwrap_or(0)));
}
fn tuples<F: TF>(all: &[F], max: usize) -> Vec<Vec<F>> {
    let mut cur: Vec<Vec<F>> = vec![vec![]];
    let mut out = cur.clone();
    for _ in 0..max { cur = cur.into_iter().flat_map(|t| all.iter().map(move |x| { let mut t = t.clone(); t.push(*x); t }).collect::<Vec<_>>()).collect(); out.extend(cur.clone()); }
    out
}
fn perms<F: TF>(all: &[F]) -> Vec<Vec<F>> {
    if all.is_empty() { return vec![vec![]]; }
    (0..all.len()).flat_map(|i| { let mut r = all.to_vec(); let x = r.remove(i); perms(&r).into_iter().map(move |mut p| { p.push(x); p }).collect::<Vec<_>>() }).collect()
}
// ---- hashes
fn hash_of<F: TF>(ni: usize, na: usize, ks: &[(&L, &L, &L)]) -> String {
    let mut cs: TestConstraintSystem<F> = TestConstraintSystem::new();
    let mut v = vec![TestConstraintSystem::<F>::one()];
    for i in 0..ni { v.push(cs.alloc_input(|| format!("i{}", i), || Ok(F::from(i as u64 + 3))).unwrap()); }
    for i in 0..na { v.push(cs.alloc(|| format!("a{}", i), || Ok(F::from(i as u64 + 5))).unwrap()); }
    for (j, k) in ks.iter().enumerate() { cs.enforce(|| format!("c{}", j), |_| mk(&v, k.0), |_| mk(&v, k.1), |_| mk(&v, k.2)); }
    cs.hash()
}
type Key = (usize, usize, Vec<[Vec<(usize, u64)>; 3]>);
fn key<F: TF>(p: u64, ni: usize, na: usize, ks: &[(&L, &L, &L)]) -> Key {
    let nl = |l: &L| { let mut m: BTreeMap<usize, u64> = BTreeMap::new(); for (v, c) in l { *m.entry(*v).or_insert(0) += c; } m.into_iter().map(|(v, c)| (v, c % p)).filter(|x| x.1 != 0).collect::<Vec<_>>() };
    (ni, na, ks.iter().map(|k| [nl(k.0), nl(k.1), nl(k.2)]).collect())
}
fn hashes<F: TF>(cx: &Ctx, f: &str, p: u64, shapes: &[(usize, usize)], libs: &dyn Fn(usize) -> Vec<L>, cons: usize) {
    let mut by_hash: HashMap<String, Key> = HashMap::new();
    let mut by_key: HashMap<Key, String> = HashMap::new();
    let mut n = 0u64;
    for (ni, na) in shapes {
        let lib = libs(1 + ni + na);
        let per = lib.len().pow(3);
        for c in 0..per.pow(cons as u32) {
            if cx.failed() { return; }
            let ks: Vec<_> = (0..cons).map(|j| { let d = c / per.pow(j as u32) % per; (&lib[d % lib.len()], &lib[d / lib.len() % lib.len()], &lib[d / lib.len() / lib.len()]) }).collect();
            let h = hash_of::<F>(*ni, *na, &ks);
            let k = key::<F>(p, *ni, *na, &ks);
            n += 1;
            if let Some(o) = by_hash.get(&h) { if *o != k { cx.violation(format!("{} {:?}", f, ks), format!("hashes equal: {:?} and {:?}", o, k)); return; } }
            if let Some(o) = by_key.get(&k) { if *o != h { cx.violation(format!("{} {:?}", f, ks), "the same structure with another term order hashes differently"); return; } }
            by_hash.entry(h.clone()).or_insert_with(|| k.clone());
            by_key.entry(k).or_insert(h);
        }
    }
    cx.check(n, || format!("{} {} systems, {} structures", f, n, by_key.len()), || Ok(()));
    cx.states(n);
    cx.bound(&format!("{} hashes, {} constraints", f, cons), format!("{} systems with {} distinct structures", n, by_key.len()));
}
// ---- scale: indices, counts, lengths and depths around every power of two
fn sized<F: TF>(ni: usize, na: usize, f: &dyn Fn(usize) -> F) -> (TestConstraintSystem<F>, Vec<Variable>, Vec<Variable>) {
    let mut cs = TestConstraintSystem::<F>::new();
    let i = (0..ni).map(|k| cs.alloc_input(|| format!("i{}", k), || Ok(f(k))).unwrap()).collect();
    let a = (0..na).map(|k| cs.alloc(|| format!("a{}", k), || Ok(f(ni + k))).unwrap()).collect();
    (cs, i, a)
}
/// one constraint on one variable of a large system: its hash, its value and its satisfaction are that variable's own
fn wide<F: TF>(cx: &Ctx, f: &str, n: usize, at: &[usize], th: usize) {
    let hs: std::sync::Mutex<HashMap<String, (bool, usize, usize)>> = Default::default();
    par_for(at.len() * 2, th, |t| {
        let (inp, i) = (t % 2 == 0, at[t / 2]);
        cx.check(4, || format!("{} {} {} of {}", f, if inp { "input" } else { "aux" }, i, n), || {
            for side in 0..3 {
                let (mut cs, vi, va) = sized::<F>(n, n, &|k| F::from(k as u64 + 2));
                if cs.num_inputs() != n + 1 { return Err("num_inputs".into()); }
                let v = if inp { vi[i] } else { va[i] };
                let want = F::from((if inp { i } else { n + i }) as u64 + 2);
                let p = format!("{}{}", if inp { "i" } else { "a" }, i);
                let one = TestConstraintSystem::<F>::one();
                // v * 1 = want
                cs.enforce(|| "c", |lc| if side == 0 { lc + v } else if side == 1 { lc + one } else { lc + (want, one) }, |lc| if side == 1 { lc + v } else { lc + one }, |lc| if side == 2 { lc + v } else { lc + (want, one) });
                if let Some(o) = hs.lock().unwrap().insert(cs.hash(), (inp, i, side)) { return Err(format!("hash equals that of {:?}", o)); }
                if cs.get(&p) != want || (inp && cs.get_input(i + 1, &p) != want) { return Err("value".into()); }
                if !cs.is_satisfied() { return Err("not satisfied".into()); }
                cs.set(&p, want + F::ONE);
                if cs.which_is_unsatisfied() != Some("c") || cs.get(&p) != want + F::ONE { return Err("changed value unnoticed".into()); }
                if side == 0 {
                    let mut l: Vec<F> = (0..n).map(|k| F::from(k as u64 + 2)).collect();
                    if cs.verify(&l) == inp { return Err("verify".into()); }
                    if inp { l[i] += F::ONE; } else { l[i] -= F::ONE; }
                    if cs.verify(&l) != inp { return Err("verify of the changed list".into()); }
                }
            }
            Ok(())
        });
    });
    cx.bound(&format!("{} wide systems of {}+{} variables", f, n, n), format!("{} variables of each kind, pairwise distinct hashes on each side", at.len()));
}
/// n constraints, one of them different
fn tall<F: TF>(cx: &Ctx, f: &str, n: usize, th: usize) {
    let hs: std::sync::Mutex<HashMap<String, String>> = Default::default();
    let build = |n: usize, odd: Option<(usize, usize)>| {
        let (mut cs, _, va) = sized::<F>(1, 2, &|_| F::ONE);
        for k in 0..n {
            let s = if let Some((j, s)) = odd { if j == k { s } else { 9 } } else { 9 };
            cs.enforce(|| format!("c{}", k), |lc| lc + va[(s == 0) as usize], |lc| lc + va[(s == 1) as usize], |lc| lc + va[(s == 2) as usize]);
        }
        cs
    };
    par_for(n + 1, th, |i| {
        cx.check(4, || format!("{} {} constraints", f, i), || {
            let mut cs = build(i, None);
            if cs.num_constraints() != i || !cs.is_satisfied() { return Err("count or satisfaction".into()); }
            if let Some(o) = hs.lock().unwrap().insert(cs.hash(), format!("{} plain", i)) { return Err(format!("hash equals that of {}", o)); }
            cs.set("a1", F::ZERO);
            if !cs.is_satisfied() { return Err("an unused variable matters".into()); }
            Ok(())
        });
        if i == n { return; }
        cx.check(6, || format!("{} constraint {} of {} differs", f, i, n), || {
            for s in 0..3 {
                let mut cs = build(n, Some((i, s)));
                if let Some(o) = hs.lock().unwrap().insert(cs.hash(), format!("{} odd {}", i, s)) { return Err(format!("hash equals that of {}", o)); }
                cs.set("a1", F::from(3));
                if cs.which_is_unsatisfied() != Some(&*format!("c{}", i)) || cs.is_satisfied() { return Err(format!("violated is {:?}", cs.which_is_unsatisfied())); }
                cs.set("a0", F::from(7));
                if cs.which_is_unsatisfied() != Some("c0") { return Err(format!("first violated is {:?}", cs.which_is_unsatisfied())); }
            }
            Ok(())
        });
    });
    cx.bound(&format!("{} tall systems", f), format!("all counts to {}, a different or violated constraint at every position", n));
}
/// combinations of n terms in several orders, with one coefficient changed, one term missing, one cancelled
fn long<F: TF>(cx: &Ctx, f: &str, lens: &[usize], th: usize) {
    let hash = |n: usize, terms: &[(usize, F)]| {
        let (mut cs, vi, va) = sized::<F>(n, n, &|k| F::from(k as u64 + 2));
        let v = |k: usize| if k < n { vi[k] } else { va[k - n] };
        let val: F = terms.iter().map(|(k, c)| F::from(*k as u64 + 2) * c).sum();
        let one = TestConstraintSystem::<F>::one();
        cs.enforce(|| "c", |lc| terms.iter().fold(lc, |l, (k, c)| l + (*c, v(*k))), |lc| lc + one, |lc| lc + (val, one));
        // the value sits on the right side, which is not part of the comparison: evaluate, then hash the left side alone
        let ok = cs.is_satisfied();
        let (mut cs, vi, va) = sized::<F>(n, n, &|_| F::ZERO);
        let v = |k: usize| if k < n { vi[k] } else { va[k - n] };
        cs.enforce(|| "c", |lc| terms.iter().fold(lc, |l, (k, c)| l + (*c, v(*k))), |lc| lc, |lc| lc);
        (ok, cs.hash())
    };
    par_for(lens.len(), th, |i| {
        let n = lens[i];
        cx.check(8 * n as u64, || format!("{} {} terms", f, 2 * n), || {
            let base: Vec<(usize, F)> = (0..2 * n).map(|k| (k, F::from(k as u64 % 5 + 1))).collect();
            let (ok, h) = hash(n, &base);
            if !ok { return Err("a true long equation is not satisfied".into()); }
            let mut same = vec![base.iter().rev().cloned().collect::<Vec<_>>()];
            for r in [1, n / 2, n] { let mut b = base.clone(); b.rotate_left(r.min(2 * n)); same.push(b); }
            let step = (1..).find(|s| *s > n / 2 && gcd(*s, 2 * n) == 1).unwrap();
            same.push((0..2 * n).map(|k| base[k * step % (2 * n)]).collect());
            let mut b = base.clone(); b.push((0, F::ONE)); b.push((0, -F::ONE)); same.push(b);
            let mut b = vec![(2 * n - 1, F::from(9))]; b.extend(base.clone()); b.push((2 * n - 1, -F::from(9))); same.push(b);
            for b in same { let (ok, g) = hash(n, &b); if !ok { return Err("reordered: not satisfied".into()); } if g != h { return Err("another order or a cancelled term hashes differently".into()); } }
            let mut seen = std::collections::HashSet::new();
            seen.insert(h);
            for k in 0..2 * n {
                let mut b = base.clone(); b[k].1 += F::ONE;
                if !seen.insert(hash(n, &b).1) { return Err(format!("coefficient {} is not hashed", k)); }
                let mut b = base.clone(); b.remove(k);
                if !seen.insert(hash(n, &b).1) { return Err(format!("missing term {} is not hashed", k)); }
            }
            Ok(())
        });
    });
    cx.bound(&format!("{} long combinations", f), format!("{:?} variables of each kind", lens));
}
fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }
/// coefficients that differ in few bits or bytes
fn coefficients<F: TF>(cx: &Ctx, f: &str) {
    let mut cs: Vec<F> = (0..2048).map(F::from).collect();
    let mut x = F::ONE;
    for _ in 0..F::NUM_BITS - 1 { for d in [0u64, 1, 2, 3] { cs.push(x + F::from(d)); cs.push(x - F::from(d)); cs.push(-x + F::from(d)); cs.push(-x - F::from(d)); } x = x.double(); }
    let mut u: BTreeMap<Vec<u8>, F> = BTreeMap::new();
    for c in cs { u.insert(c.to_repr().as_ref().to_vec(), c); }
    let mut hs: HashMap<String, F> = HashMap::new();
    for c in u.values() {
        cx.check(2, || format!("{} coefficient {:?}", f, c), || {
            for l in [vec![(1usize, *c)], vec![(1, F::ONE), (2, *c)]] {
                let (mut cs, vi, va) = sized::<F>(1, 1, &|k| F::from(k as u64 + 2));
                let v = [TestConstraintSystem::<F>::one(), vi[0], va[0]];
                let val: F = l.iter().map(|(k, c)| F::from(*k as u64 + 1) * c).sum();
                cs.enforce(|| "c", |x| l.iter().fold(x, |a, (k, c)| a + (*c, v[*k])), |x| x + v[0], |x| x);
                let h = cs.hash();
                if cs.is_satisfied() != (val == F::ZERO) { return Err("satisfaction".into()); }
                if !c.is_zero_vartime() { if let Some(o) = hs.insert(h, *c) { return Err(format!("hash equals that of {:?}", o)); } }
            }
            Ok(())
        });
    }
    cx.bound(&format!("{} coefficients", f), format!("{} coefficients around powers of two and small numbers, pairwise distinct hashes", u.len()));
}
/// names: every one-character name of the first 0x250 code points, a slash at every position, long names with long common parts, deep namespaces
fn names(cx: &Ctx, depth: usize) {
    cx.check(0x250, || "one-character names".into(), || {
        let mut cs = TestConstraintSystem::<F97>::new();
        let mut all = vec![];
        for c in (0..0x250u32).filter_map(char::from_u32) {
            let n = c.to_string();
            let r = guard(|| cs.alloc(|| n.clone(), || Ok(Fp(all.len() as u64 % 97))));
            if r.is_ok() == (c == '/') { return Err(format!("name {:?}: accepted {}", n, r.is_ok())); }
            if c != '/' { all.push(n); } else { cs = TestConstraintSystem::new(); for (k, n) in all.iter().enumerate() { cs.alloc(|| n.clone(), || Ok(Fp(k as u64 % 97))).unwrap(); } }
        }
        for (k, n) in all.iter().enumerate() { if cs.get(n) != Fp(k as u64 % 97) { return Err(format!("value of {:?}", n)); } if guard(|| cs.num_inputs()).is_err() { return Err("?".into()); } }
        for n in &all { if cs.named_again(n) { return Err(format!("{:?} twice", n)); } }
        Ok(())
    });
    for len in [1usize, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1025] {
        cx.check(3 * len as u64, || format!("names of {} bytes", len), || {
            let mut cs = TestConstraintSystem::<F97>::new();
            let base: String = "n".repeat(len);
            let at = |k: usize, c: &str| { let mut s = base.clone(); s.replace_range(k..k + 1, c); s };
            for k in 0..len { cs.alloc(|| at(k, "x"), || Ok(Fp(k as u64 % 89))).unwrap(); }
            for k in 0..len { if cs.get(&at(k, "x")) != Fp(k as u64 % 89) { return Err(format!("value of the name differing at {}", k)); } }
            for k in 0..len {
                for what in 0..4 {
                    let mut cs = TestConstraintSystem::<F97>::new();
                    let n = at(k, "/");
                    let r = guard(|| match what { 0 => { let _ = cs.alloc(|| n.clone(), || Ok(Fp(1))); } 1 => { let _ = cs.alloc_input(|| n.clone(), || Ok(Fp(1))); } 2 => cs.enforce(|| n.clone(), |l| l, |l| l, |l| l), _ => cs.push_namespace(|| n.clone()) });
                    if r.is_ok() { return Err(format!("a slash at {} is accepted ({})", k, what)); }
                }
            }
            Ok(())
        });
    }
    for d in 0..=depth {
        cx.check(d as u64 + 1, || format!("namespace depth {}", d), || {
            // a/b/.. with the same variable name at every level, then siblings on the way out
            let mut cs = TestConstraintSystem::<F97>::new();
            let seg = |k: usize| format!("{}{}", if k % 2 == 0 { "s" } else { "t" }, k % 3);
            let mut path: Vec<String> = vec![];
            let mut want: Vec<(String, Fp<97>)> = vec![];
            for k in 0..=d {
                cs.alloc(|| "v", || Ok(Fp(k as u64 % 97))).unwrap();
                want.push((path.iter().cloned().chain(Some("v".into())).collect::<Vec<_>>().join("/"), Fp(k as u64 % 97)));
                if k < d { cs.push_namespace(|| seg(k)); path.push(seg(k)); }
            }
            for k in 0..=d {
                cs.alloc_input(|| "w", || Ok(Fp((k as u64 + 31) % 97))).unwrap();
                cs.enforce(|| "c", |l| l, |l| l, |l| if k == d / 2 { l + TestConstraintSystem::<F97>::one() } else { l });
                want.push((path.iter().cloned().chain(Some("w".into())).collect::<Vec<_>>().join("/"), Fp((k as u64 + 31) % 97)));
                if k == d / 2 { let u: Vec<String> = path.iter().cloned().chain(Some("c".into())).collect(); if cs.which_is_unsatisfied() != Some(&*u.join("/")) { return Err(format!("violated is {:?}", cs.which_is_unsatisfied())); } }
                if k < d { cs.pop_namespace(); path.pop(); }
            }
            if guard(|| cs.pop_namespace()).is_ok() { return Err("a namespace too many".into()); }
            for (p, v) in want { if cs.get(&p) != v { return Err(format!("value at {:?}", p)); } }
            Ok(())
        });
    }
    cx.bound("names", format!("all one-character names below U+250, a slash at every position of names to 1025 bytes, namespaces to depth {}", depth));
}
trait Again { fn named_again(&mut self, n: &str) -> bool; }
impl Again for TestConstraintSystem<F97> { fn named_again(&mut self, n: &str) -> bool { guard(|| self.enforce(|| n.to_string(), |l| l, |l| l, |l| l)).is_ok() } }
/// printed text: equal exactly for equal structure and names
fn printing<F: TF>(cx: &Ctx, f: &str, p: u64, libs: &[L], cons: usize) {
    let per = libs.len().pow(3);
    let mut by_text: HashMap<String, Key> = HashMap::new();
    let mut by_key: HashMap<Key, String> = HashMap::new();
    for c in 0..per.pow(cons as u32) {
        if cx.failed() { return; }
        let ks: Vec<_> = (0..cons).map(|j| { let d = c / per.pow(j as u32) % per; (&libs[d % libs.len()], &libs[d / libs.len() % libs.len()], &libs[d / libs.len() / libs.len()]) }).collect();
        let (mut cs, vi, va) = sized::<F>(1, 1, &|k| F::from(k as u64));
        let v = [TestConstraintSystem::<F>::one(), vi[0], va[0]];
        for (j, k) in ks.iter().enumerate() { cs.enforce(|| format!("c{}", j), |_| mk(&v, k.0), |_| mk(&v, k.1), |_| mk(&v, k.2)); }
        let t = cs.pretty_print();
        let k = key::<F>(p, 1, 1, &ks);
        if let Some(o) = by_text.get(&t) { if *o != k { cx.violation(format!("{} {:?}", f, ks), format!("prints like {:?}: {}", o, t)); return; } }
        if let Some(o) = by_key.get(&k) { if *o != t { cx.violation(format!("{} {:?}", f, ks), format!("the same structure prints differently: {} and {}", o, t)); return; } }
        for j in 0..cons { if !t.contains(&format!("c{}", j)) { cx.violation(format!("{} {:?}", f, ks), "a constraint is not named"); return; } }
        by_text.entry(t.clone()).or_insert_with(|| k.clone());
        by_key.entry(k).or_insert(t);
    }
    cx.check(per.pow(cons as u32) as u64, || format!("{} printing", f), || Ok(()));
    cx.states(per.pow(cons as u32) as u64);
    cx.bound(&format!("{} printed, {} constraints", f, cons), format!("{} systems, {} structures", per.pow(cons as u32), by_key.len()));
}
fn main() {
    let cx = Ctx::new("C23");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match cx.part.as_str() {
        "histories" => {
            let mut al = vec![Op::Pop, Op::Fail("a"), Op::FailInput("a"), Op::Alloc("x/y"), Op::Push("a/b"), Op::Enforce("/"), Op::Input("a/"), Op::Alloc("ONE"), Op::Set("a"), Op::Set("a/b"), Op::Set("b"), Op::Set("ONE")];
            for n in ["a", "b", ""] { al.extend([Op::Alloc(n), Op::Input(n), Op::Enforce(n), Op::Push(n)]); }
            let depth = cx.tier(4, 5);
            let m = al.len();
            let mut total = 0;
            for d in 0..=depth {
                let c = m.pow(d as u32);
                total += c;
                par_for(c, th, |i| { let ops: Vec<Op> = (0..d).map(|j| al[i / m.pow(j as u32) % m].clone()).collect(); history(&cx, &ops); });
            }
            cx.bound("histories", format!("all {} histories of up to {} operations over {} operations", total, depth, m));
        }
        "satisfaction" => {
            satisfaction::<F2>(&cx, "F3", &F2::all().collect::<Vec<_>>(), &lcs(3, &[1, 2], 2), 1, th);
            satisfaction::<F5>(&cx, "F5", &F5::all().collect::<Vec<_>>(), &lcs(3, &[1, 4], 1), 2, th);
            satisfaction::<F97>(&cx, "F97", &[Fp(0), Fp(1), Fp(96), Fp(50)], &lcs(3, &[1, 96, 0], 1), 1, th);
            satisfaction::<Bls>(&cx, "BLS12-381 scalar", &[Bls::ZERO, Bls::ONE, -Bls::ONE], &lcs(3, &[1, 3], 1), 1, th);
            if cx.thorough { satisfaction::<F5>(&cx, "F5", &F5::all().collect::<Vec<_>>(), &lcs(3, &[1, 2, 3], 2), 1, th); }
        }
        "hashes" => {
            hashes::<F2>(&cx, "F3", 3, &[(1, 1), (0, 2), (2, 0)], &|v| lcs(v, &[0, 1, 2], 1), 1);
            hashes::<F2>(&cx, "F3", 3, &[(1, 1)], &|v| lcs(v, &[0, 1, 2], 2), 1);
            hashes::<F5>(&cx, "F5", 5, &[(0, 0), (0, 1), (1, 0), (1, 1)], &|v| lcs(v, &[1, 4], 1), 2);
            hashes::<F97>(&cx, "F97", 97, &[(1, 1)], &|_| vec![vec![], vec![(0, 1)], vec![(1, 1)], vec![(2, 1)], vec![(0, 1), (1, 2)], vec![(1, 2), (0, 1)], vec![(1, 96), (1, 1)], vec![(2, 1), (2, 1)], vec![(2, 2)]], 2);
            hashes::<Bls>(&cx, "BLS12-381 scalar", u64::MAX, &[(1, 1), (2, 1), (1, 2)], &|v| lcs(v, &[1, 256], 1), 1);
        }
        "scale" => {
            wide::<Gold>(&cx, "Goldilocks", 600, &(0..600).collect::<Vec<_>>(), th);
            wide::<Gold>(&cx, "Goldilocks", (1 << 16) + 4, &[0, 1, 255, 256, 257, 65534, 65535, 65536, 65537, 65538], th.min(2));
            if cx.thorough { wide::<Gold>(&cx, "Goldilocks", (1 << 20) + 2, &[0, 1, 65536, 1 << 17, (1 << 20) - 1, 1 << 20, (1 << 20) + 1], 2); wide::<Bls>(&cx, "BLS12-381 scalar", 1100, &(0..1100).collect::<Vec<_>>(), th); }
            tall::<F97>(&cx, "F97", cx.tier(600, 2100), th);
            long::<Gold>(&cx, "Goldilocks", &[1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 64, 65, 127, 128, 129, cx.tier(130, 260)], th);
            long::<Bls>(&cx, "BLS12-381 scalar", &[1, 2, 3, 8, 33, 64], th);
            coefficients::<Bls>(&cx, "BLS12-381 scalar");
            coefficients::<Gold>(&cx, "Goldilocks");
            names(&cx, cx.tier(80, 300));
        }
        "printing" => {
            printing::<F2>(&cx, "F3", 3, &lcs(3, &[1, 2], 2), 1);
            printing::<F5>(&cx, "F5", 5, &lcs(3, &[1, 4], 1), 2);
            printing::<F5>(&cx, "F5", 5, &lcs(3, &[0, 1, 2, 4], 1), 1);
            printing::<F97>(&cx, "F97", 97, &lcs(3, &[0, 1, 3, 32, 64, 65, 96], 1), 1);
            printing::<Bls>(&cx, "BLS12-381 scalar", u64::MAX, &lcs(3, &[1, 2, 3, 1 << 40, (1 << 40) + 1], 1), 1);
        }
        "verify" => {
            verifying::<F2>(&cx, "F3", &tuples(&F2::all().collect::<Vec<_>>(), cx.tier(5, 6)), th);
            verifying::<F5>(&cx, "F5", &tuples(&F5::all().collect::<Vec<_>>(), cx.tier(3, 4)), th);
            verifying::<F97>(&cx, "F97", &perms(&(3..3 + cx.tier(5, 6)).map(Fp).collect::<Vec<_>>()), th);
            verifying::<Bls>(&cx, "BLS12-381 scalar", &tuples(&[Bls::ZERO, Bls::ONE, -Bls::ONE, Bls::from(1 << 40)], 3), th);
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| "push a; alloc b; pop; alloc b: paths a/b and b are different variables; push a again panics".into());
    cx.finish();
}
