//! C24: linear combinations and constraint-system wrappers.
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::test::TestConstraintSystem;
use bellman::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::{Field, PrimeField};
use group::Group;
use mc::rec::{norm, Mode, Rec};
use mc::report::{guard, par_for, Ctx};
use mc::toy::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

// ---- linear combinations
#[derive(Clone, Copy, Debug)]
enum L { AddV(usize), SubV(usize), AddC(usize, usize), SubC(usize, usize), AddL(usize), SubL(usize), AddCL(usize, usize), SubCL(usize, usize), AddSelf, SubSelf, AddCSelf(usize) }
fn lc_ops(nv: usize, nc: usize, nl: usize) -> Vec<L> {
    let mut v = vec![L::AddSelf, L::SubSelf];
    for i in 0..nv { v.push(L::AddV(i)); v.push(L::SubV(i)); for c in 0..nc { v.push(L::AddC(i, c)); v.push(L::SubC(i, c)); } }
    for l in 0..nl { v.push(L::AddL(l)); v.push(L::SubL(l)); for c in 0..nc { v.push(L::AddCL(l, c)); v.push(L::SubCL(l, c)); } }
    for c in 0..nc { v.push(L::AddCSelf(c)); }
    v
}
fn lincomb<F: TF>(cx: &Ctx, f: &str, cs: &[F], ix: [Index; 4], depth: usize, th: usize) {
    let vars = ix.map(Variable::new_unchecked);
    let ids = vars.map(mc::rec::vid);
    type M<F> = [F; 4];
    let z = LinearCombination::<F>::zero;
    let pool: Vec<(LinearCombination<F>, M<F>)> = vec![
        (z(), [F::ZERO; 4]),
        (z() + vars[2], [F::ZERO, F::ZERO, F::ONE, F::ZERO]),
        (z() + vars[1] + (cs[0], vars[2]) + vars[1] - (cs[cs.len() - 1], vars[0]), [-cs[cs.len() - 1], F::from(2), cs[0], F::ZERO]),
    ];
    let ops = lc_ops(3, cs.len(), pool.len());
    let n = ops.len();
    for d in 0..=depth {
        par_for(n.pow(d as u32), th, |i| {
            let seq: Vec<L> = (0..d).map(|j| ops[i / n.pow(j as u32) % n]).collect();
            cx.check(d as u64 + 1, || format!("{} {:?} {:?}", f, ix, seq), || {
                let mut lc = z();
                let mut m: M<F> = [F::ZERO; 4];
                for o in &seq {
                    match o {
                        L::AddV(v) => { lc = lc + vars[*v]; m[*v] += F::ONE; }
                        L::SubV(v) => { lc = lc - vars[*v]; m[*v] -= F::ONE; }
                        L::AddC(v, c) => { lc = lc + (cs[*c], vars[*v]); m[*v] += cs[*c]; }
                        L::SubC(v, c) => { lc = lc - (cs[*c], vars[*v]); m[*v] -= cs[*c]; }
                        L::AddL(l) => { lc = lc + &pool[*l].0; for k in 0..4 { m[k] += pool[*l].1[k]; } }
                        L::SubL(l) => { lc = lc - &pool[*l].0; for k in 0..4 { m[k] -= pool[*l].1[k]; } }
                        L::AddCL(l, c) => { lc = lc + (cs[*c], &pool[*l].0); for k in 0..4 { m[k] += cs[*c] * pool[*l].1[k]; } }
                        L::SubCL(l, c) => { lc = lc - (cs[*c], &pool[*l].0); for k in 0..4 { m[k] -= cs[*c] * pool[*l].1[k]; } }
                        L::AddSelf => { let o = lc.clone(); lc = lc + &o; for k in 0..4 { m[k] = m[k].double(); } }
                        L::SubSelf => { let o = lc.clone(); lc = lc - &o; m = [F::ZERO; 4]; }
                        L::AddCSelf(c) => { let o = lc.clone(); lc = lc + (cs[*c], &o); for k in 0..4 { m[k] = m[k] + cs[*c] * m[k]; } }
                    }
                }
                // evaluation is linear: equal on every basis assignment means equal on all of them
                let want: Vec<(u32, F)> = ids.iter().zip(&m).filter(|x| !x.1.is_zero_vartime()).map(|x| (*x.0, *x.1)).collect();
                let mut got = norm(&lc);
                let mut w = want.clone();
                got.sort_by_key(|x| x.0);
                w.sort_by_key(|x| x.0);
                if got != w { return Err(format!("{:?} instead of {:?}", got, w)); }
                Ok(())
            });
        });
    }
    cx.bound(&format!("{} linear combinations", f), format!("all sequences of up to {} of {} operations, over each set of variables", depth, n));
}
// ---- wrappers
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Alloc, Input, FailAlloc, FailInput, Enforce, Open, Close, RawPush, RawPop, Root }
const KINDS: usize = 9;
fn err(i: usize) -> SynthesisError {
    use std::io::{Error, ErrorKind};
    match i {
        0 => SynthesisError::DivisionByZero,
        1 => SynthesisError::UnexpectedIdentity,
        2 => SynthesisError::AssignmentMissing,
        3 => SynthesisError::Unsatisfiable,
        4 => SynthesisError::PolynomialDegreeTooLarge,
        5 => SynthesisError::UnconstrainedVariable,
        6 => Error::new(ErrorKind::UnexpectedEof, "expected more bases from source").into(),
        7 => Error::new(ErrorKind::Other, "mine").into(),
        _ => Error::from_raw_os_error(5).into(),
    }
}
/// An error as its receiver sees it.
fn shown(e: &SynthesisError) -> String {
    match e { SynthesisError::IoError(e) => format!("{:?} {:?} {}", e.kind(), e.raw_os_error(), e), e => mc::gad::err_name(e).to_string() }
}
#[derive(Default, Clone, PartialEq, Debug)]
struct Calls { value: BTreeMap<usize, u32>, lc: BTreeMap<(usize, u8), u32> }
type Log = Rc<RefCell<Calls>>;
/// Runs the program until its end or the matching Close; returns the position after it.
fn prog<F: TF, CS: ConstraintSystem<F>>(cs: &mut CS, ops: &[Op], mut i: usize, kind: usize, log: &Log, vars: &mut Vec<Variable>) -> Result<usize, SynthesisError> {
    if vars.is_empty() { vars.push(CS::one()); }
    while i < ops.len() {
        let k = i;
        match ops[i] {
            Op::Alloc | Op::FailAlloc => { let l = log.clone(); let fail = ops[i] == Op::FailAlloc; vars.push(cs.alloc(|| format!("a{}", k), move || { *l.borrow_mut().value.entry(k).or_insert(0) += 1; if fail { Err(err(kind)) } else { Ok(F::from(k as u64 + 2)) } })?); }
            Op::Input | Op::FailInput => { let l = log.clone(); let fail = ops[i] == Op::FailInput; vars.push(cs.alloc_input(|| format!("i{}", k), move || { *l.borrow_mut().value.entry(k).or_insert(0) += 1; if fail { Err(err(kind)) } else { Ok(F::from(k as u64 + 2)) } })?); }
            Op::Enforce => {
                let v = *vars.last().unwrap();
                let one = CS::one();
                let c = |l: &Log, s: u8| { *l.borrow_mut().lc.entry((k, s)).or_insert(0) += 1; };
                cs.enforce(|| format!("c{}", k), |lc| { c(log, 0); lc + v + (F::from(3), one) }, |lc| { c(log, 1); lc + (F::from(k as u64), one) - v }, |lc| { c(log, 2); lc - (F::from(2), v) + v });
            }
            Op::Open => { i = prog::<F, _>(&mut cs.namespace(|| format!("n{}", k)), ops, i + 1, kind, log, vars)?; continue; }
            Op::Close => return Ok(i + 1),
            // only a root's own push_namespace may be called
            Op::RawPush => cs.get_root().push_namespace(|| format!("r{}", k)),
            Op::RawPop => cs.get_root().pop_namespace(),
            Op::Root => { let v = *vars.last().unwrap(); let r = cs.get_root(); vars.push(r.alloc(|| format!("g{}", k), || Ok(F::from(k as u64 + 2)))?); r.enforce(|| format!("h{}", k), |lc| lc + v, |lc| lc, |lc| lc + v); }
        }
        i += 1;
    }
    Ok(i)
}
/// The events the underlying system must see.
fn expected(ops: &[Op], kind: usize) -> (Vec<String>, Option<String>) {
    let mut ev = vec![];
    let mut open = 0;
    for (k, o) in ops.iter().enumerate() {
        match o {
            Op::Alloc => ev.push(format!("alloc a{}", k)),
            Op::Input => ev.push(format!("input i{}", k)),
            Op::FailAlloc | Op::FailInput => { ev.push(format!("{}{}", if *o == Op::FailAlloc { "alloc a" } else { "input i" }, k)); for _ in 0..open { ev.push("pop".into()); } return (ev, Some(shown(&err(kind)))); }
            Op::Enforce => ev.push(format!("enforce c{}", k)),
            Op::Open => { open += 1; ev.push(format!("push n{}", k)); }
            Op::Close => { open -= 1; ev.push("pop".into()); }
            Op::RawPush => ev.push(format!("push r{}", k)),
            Op::RawPop => ev.push("pop".into()),
            Op::Root => { ev.push(format!("alloc g{}", k)); ev.push(format!("enforce h{}", k)); }
        }
    }
    for _ in 0..open { ev.push("pop".into()); }
    (ev, None)
}
const STACKS: usize = 11;
/// A system whose constant is another variable than the first input.
struct Odd(Rec<F17>);
impl ConstraintSystem<F17> for Odd {
    type Root = Self;
    fn one() -> Variable { Variable::new_unchecked(Index::Input(40)) }
    fn alloc<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<F17, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> { self.0.alloc(a, f) }
    fn alloc_input<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<F17, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> { self.0.alloc_input(a, f) }
    fn enforce<A, AR, LA, LB, LC>(&mut self, n: A, a: LA, b: LB, c: LC) where A: FnOnce() -> AR, AR: Into<String>, LA: FnOnce(LinearCombination<F17>) -> LinearCombination<F17>, LB: FnOnce(LinearCombination<F17>) -> LinearCombination<F17>, LC: FnOnce(LinearCombination<F17>) -> LinearCombination<F17> { self.0.enforce(n, a, b, c) }
    fn push_namespace<NR, N>(&mut self, n: N) where NR: Into<String>, N: FnOnce() -> NR { self.0.push_namespace(n) }
    fn pop_namespace(&mut self) { self.0.pop_namespace() }
    fn get_root(&mut self) -> &mut Self { self }
}
trait Under: ConstraintSystem<F17> { fn wrap(r: Rec<F17>) -> Self; fn rec(&self) -> &Rec<F17>; }
impl Under for Rec<F17> { fn wrap(r: Rec<F17>) -> Self { r } fn rec(&self) -> &Rec<F17> { self } }
impl Under for Odd { fn wrap(r: Rec<F17>) -> Self { Odd(r) } fn rec(&self) -> &Rec<F17> { &self.0 } }
fn stacked<C: ConstraintSystem<F17>>(rec: &mut C, stack: usize, ops: &[Op], kind: usize, log: &Log, v: &mut Vec<Variable>) -> Result<usize, SynthesisError> {
    type F = F17;
    match stack {
        0 => prog::<F, _>(rec, ops, 0, kind, log, v),
        1 => prog::<F, _>(&mut &mut *rec, ops, 0, kind, log, v),
        2 => prog::<F, _>(&mut &mut &mut *rec, ops, 0, kind, log, v),
        3 => prog::<F, _>(&mut rec.namespace(|| "s"), ops, 0, kind, log, v),
        4 => prog::<F, _>(&mut rec.namespace(|| "s").namespace(|| "t"), ops, 0, kind, log, v),
        5 => { let mut n = rec.namespace(|| "s"); prog::<F, _>(&mut &mut n, ops, 0, kind, log, v) }
        6 => { let mut r = &mut *rec; let mut n = (&mut r).namespace(|| "s"); let mut m = (&mut n).namespace(|| "t"); prog::<F, _>(&mut m, ops, 0, kind, log, v) }
        7 => prog::<F, _>(&mut MultiEq::new(rec), ops, 0, kind, log, v),
        8 => prog::<F, _>(&mut MultiEq::new(rec).namespace(|| "s"), ops, 0, kind, log, v),
        9 => prog::<F, _>(&mut MultiEq::new(rec.namespace(|| "s")).namespace(|| "t"), ops, 0, kind, log, v),
        _ => { let mut m = MultiEq::new(rec); let mut n = MultiEq::new(m.namespace(|| "s")); prog::<F, _>(&mut &mut n, ops, 0, kind, log, v) }
    }
}
fn prefix(stack: usize) -> Vec<&'static str> { match stack { 3 | 5 | 8 | 10 => vec!["s"], 4 | 6 | 9 => vec!["s", "t"], _ => vec![] } }
fn kinds(ops: &[Op]) -> usize { if ops.iter().any(|o| matches!(o, Op::FailAlloc | Op::FailInput)) { KINDS } else { 1 } }
fn wrappers(cx: &Ctx, ops: &[Op]) {
    for kind in 0..kinds(ops) {
        through::<Rec<F17>>(cx, ops, kind);
        if kind == 0 { through::<Odd>(cx, ops, kind); }
        tested(cx, ops, kind);
    }
}
fn through<C: Under>(cx: &Ctx, ops: &[Op], kind: usize) {
    for stack in 0..STACKS { for mode in [Mode::Prove, Mode::Keygen] {
        cx.check(1, || format!("stack {} {:?} {:?} error {} one {:?}", stack, mode, ops, kind, C::one().get_unchecked()), || {
            let log: Log = Default::default();
            let mut rec: Rec<F17> = Rec::new(mode);
            rec.log_events = true;
            let mut under = C::wrap(rec);
            let mut v = vec![];
            let r = guard(|| stacked(&mut under, stack, ops, kind, &log, &mut v))?;
            let rec = under.rec();
            let kops: Vec<Op> = if mode == Mode::Keygen { ops.iter().map(|o| match o { Op::FailAlloc => Op::Alloc, Op::FailInput => Op::Input, o => *o }).collect() } else { ops.to_vec() };
            let (mut ev, e) = expected(&kops, kind);
            for n in prefix(stack).iter().rev() { ev.insert(0, format!("push {}", n)); ev.push("pop".into()); }
            if rec.events != ev { return Err(format!("events {:?} instead of {:?}", rec.events, ev)); }
            match (&r, &e) { (Ok(_), None) => {} (Err(x), Some(n)) if shown(x) == *n => {} _ => return Err(format!("{:?} instead of {:?}", r, e)) }
            // values, constraints and variables as without wrappers
            let l0: Log = Default::default();
            let mut u0 = C::wrap(Rec::new(mode));
            let mut v0 = vec![];
            let _ = prog::<F17, _>(&mut u0, ops, 0, kind, &l0, &mut v0);
            let r0 = u0.rec();
            if v.first().map(|x| x.get_unchecked()) != Some(C::one().get_unchecked()) { return Err(format!("one is {:?}", v.first().map(|x| x.get_unchecked()))); }
            if r0.aux != rec.aux || r0.inputs != rec.inputs || r0.cons != rec.cons { return Err("values or constraints were changed by a wrapper".into()); }
            if !v.iter().map(|x| x.get_unchecked()).eq(v0.iter().map(|x| x.get_unchecked())) { return Err("variables were changed by a wrapper".into()); }
            let l = log.borrow();
            let reached = r.as_ref().map(|_| ops.len()).unwrap_or_else(|_| kops.iter().position(|o| matches!(o, Op::FailAlloc | Op::FailInput)).unwrap() + 1);
            for (k, o) in ops.iter().enumerate().take(reached) {
                let n = l.value.get(&k).cloned().unwrap_or(0);
                match o {
                    Op::Alloc | Op::Input | Op::FailAlloc | Op::FailInput => if n != (mode == Mode::Prove) as u32 { return Err(format!("the value closure of step {} ran {} times", k, n)); },
                    Op::Enforce => for s in 0..3 { if l.lc.get(&(k, s)) != Some(&1) { return Err(format!("closure {} of the constraint at step {} ran {:?} times", s, k, l.lc.get(&(k, s)))); } },
                    _ => {}
                }
            }
            Ok(())
        });
    } }
}
fn tested(cx: &Ctx, ops: &[Op], kind: usize) {
    // the testing constraint system and the real generator and prover
    if ops.iter().any(|o| matches!(o, Op::RawPush | Op::RawPop)) { return; }
    cx.check(1, || format!("test system {:?} error {}", ops, kind), || {
        let log: Log = Default::default();
        let mut cs: TestConstraintSystem<F17> = TestConstraintSystem::new();
        let mut v = vec![];
        let r = guard(|| prog::<F17, _>(&mut &mut cs, ops, 0, kind, &log, &mut v))?;
        let e = expected(ops, kind).1;
        match (&r, &e) { (Ok(_), None) => {} (Err(x), Some(n)) if shown(x) == *n => {} _ => return Err(format!("{:?} instead of {:?}", r, e)) }
        if log.borrow().value.values().any(|n| *n != 1) { return Err("a value closure ran more than once".into()); }
        // back at the root: a fresh name there is accepted and found
        guard(|| { cs.alloc(|| "fresh", || Ok(F17::ZERO)).unwrap(); cs.get("fresh") }).map_err(|p| format!("not back at the root: {}", p))?;
        Ok(())
    });
}
struct Prog { ops: Vec<Op>, kind: usize, log: Log }
impl Circuit<Gold> for Prog {
    fn synthesize<CS: ConstraintSystem<Gold>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut v = vec![];
        prog::<Gold, CS>(cs, &self.ops, 0, self.kind, &self.log, &mut v)?;
        // use every variable, so that none is unconstrained
        for (i, x) in v.into_iter().enumerate() { cs.enforce(|| format!("use {}", i), |lc| lc + x, |lc| lc + CS::one(), |lc| lc + x); }
        Ok(())
    }
}
fn groth(cx: &Ctx, ops: &[Op], kind: usize) {
    type F = Gold;
    cx.check(3, || format!("generator and prover {:?} error {}", ops, kind), || {
        let (kl, pl): (Log, Log) = Default::default();
        let ok: Vec<Op> = ops.iter().map(|o| match o { Op::FailAlloc => Op::Alloc, Op::FailInput => Op::Input, o => *o }).collect();
        let gen = |ops: &[Op], l: &Log| guard(|| groth16::generate_parameters::<Toy<F>, _>(Prog { ops: ops.to_vec(), kind, log: l.clone() }, P1::<F>::generator(), P2::<F>::generator(), Gold::new(3), Gold::new(5), Gold::new(7), Gold::new(11), Gold::new(0x1234_5678_9abc_def1)));
        let p = gen(&ok, &kl)?.map_err(|e| format!("generation: {:?}", e))?;
        if kl.borrow().value.values().any(|n| *n > 1) { return Err("the generator ran a value closure more than once".into()); }
        let r = guard(|| groth16::create_proof::<Toy<F>, _, _>(Prog { ops: ops.to_vec(), kind, log: pl.clone() }, &p, Gold::new(2), Gold::new(9)))?;
        match (&r, expected(ops, kind).1) { (Ok(_), None) => {} (Err(x), Some(n)) if shown(x) == n => {} (r, e) => return Err(format!("{:?} instead of {:?}", r.as_ref().err(), e)) }
        let l = pl.borrow();
        let end = ops.iter().position(|o| matches!(o, Op::FailAlloc | Op::FailInput)).map(|p| p + 1).unwrap_or(ops.len());
        for (k, o) in ops.iter().enumerate().take(end) {
            if matches!(o, Op::Alloc | Op::Input | Op::FailAlloc | Op::FailInput) && l.value.get(&k) != Some(&1) { return Err(format!("the prover ran the value closure of step {} {:?} times", k, l.value.get(&k))); }
        }
        Ok(())
    });
}
fn sequences(al: &[Op], depth: usize) -> Vec<Vec<Op>> {
    let mut cur: Vec<Vec<Op>> = vec![vec![]];
    let mut out = cur.clone();
    for _ in 0..depth {
        cur = cur.into_iter().flat_map(|s| al.iter().map(move |o| { let mut s = s.clone(); s.push(*o); s }).collect::<Vec<_>>()).filter(|s| {
            // well-formed: Close matches Open, RawPop matches RawPush in the same block, nothing after a failure
            let mut st: Vec<char> = vec![];
            for (i, o) in s.iter().enumerate() {
                match o {
                    Op::Open => st.push('n'),
                    Op::RawPush => st.push('r'),
                    Op::Close => if st.pop() != Some('n') { return false; },
                    Op::RawPop => if st.pop() != Some('r') { return false; },
                    Op::FailAlloc | Op::FailInput if i + 1 != s.len() => return false,
                    _ => {}
                }
            }
            true
        }).collect();
        // a raw push left open is the caller's doing: only closed ones count
        out.extend(cur.iter().filter(|s| s.iter().filter(|o| **o == Op::RawPush).count() == s.iter().filter(|o| **o == Op::RawPop).count()).cloned());
    }
    out
}
// ---- long combinations and deep or wide programs
fn term<F: TF>(k: usize) -> F { F::from(k as u64 % 7 + 1) }
fn at(k: usize) -> (Variable, (bool, usize)) { if k % 3 == 1 { (Variable::new_unchecked(Index::Input(k)), (true, k)) } else { (Variable::new_unchecked(Index::Aux(k)), (false, k)) } }
fn same<F: TF>(lc: &LinearCombination<F>, want: &BTreeMap<(bool, usize), F>) -> Result<(), String> {
    let mut got: BTreeMap<(bool, usize), F> = BTreeMap::new();
    for (v, c) in lc.as_ref() { *got.entry(match v.get_unchecked() { Index::Input(i) => (true, i), Index::Aux(i) => (false, i) }).or_insert(F::ZERO) += c; }
    got.retain(|_, c| !c.is_zero_vartime());
    if got.iter().eq(want.iter().filter(|x| !x.1.is_zero_vartime())) { return Ok(()); }
    let k = got.keys().chain(want.keys()).find(|k| got.get(*k).cloned().unwrap_or(F::ZERO) != want.get(*k).cloned().unwrap_or(F::ZERO));
    Err(format!("coefficient of {:?}: {:?} instead of {:?}", k, k.map(|k| got.get(k)), k.map(|k| want.get(k))))
}
/// every operation with an operand of m terms on a combination of n terms, at several overlaps
fn operands<F: TF>(cx: &Ctx, f: &str, cs: &[F], sizes: &[usize], th: usize) {
    let base = |n: usize, o: usize| (0..n).fold((LinearCombination::<F>::zero(), BTreeMap::new()), |(l, mut m), k| { let (v, i) = at(k + o); m.insert(i, term::<F>(k)); (l + (term(k), v), m) });
    par_for(sizes.len() * sizes.len(), th, |i| {
        let (n, m) = (sizes[i % sizes.len()], sizes[i / sizes.len()]);
        cx.check(2 * (cs.len() as u64 + 1) * 3, || format!("{} {} terms and an operand of {}", f, n, m), || {
            for o in [0, n / 2, n] {
                let (l, lm) = base(n, 0);
                let (r, rm) = base(m, o);
                for (ci, c) in std::iter::once(None).chain(cs.iter().map(Some)).enumerate() {
                    for sub in [false, true] {
                        let got = match (c, sub) { (None, false) => l.clone() + &r, (None, true) => l.clone() - &r, (Some(c), false) => l.clone() + (*c, &r), (Some(c), true) => l.clone() - (*c, &r) };
                        let mut want = lm.clone();
                        for (k, x) in &rm { let t = c.map(|c| *c * x).unwrap_or(*x); let e = want.entry(*k).or_insert(F::ZERO); if sub { *e -= t; } else { *e += t; } }
                        same(&got, &want).map_err(|e| format!("operation {} subtract {} overlap {}: {}", ci, sub, o, e))?;
                    }
                }
            }
            Ok(())
        });
    });
    cx.bound(&format!("{} operands", f), format!("all pairs of {} sizes up to {}, {} operations, three overlaps", sizes.len(), sizes.iter().max().unwrap(), 2 * (cs.len() + 1)));
}
/// every pattern of single-term operations of length up to 3, repeated, compared at every length
fn repeated<F: TF>(cx: &Ctx, f: &str, len: usize, th: usize) {
    let pats: Vec<Vec<usize>> = (1..=3u32).flat_map(|d| (0..4usize.pow(d)).map(move |i| (0..d).map(|j| i / 4usize.pow(j) % 4).collect())).collect();
    par_for(pats.len() * 3, th, |i| {
        let (pat, spread) = (&pats[i / 3], [1usize, 4, 1 << 20][i % 3]);
        cx.check(len as u64, || format!("{} pattern {:?} over {} variables", f, pat, spread), || {
            let mut lc = LinearCombination::<F>::zero();
            let mut m = BTreeMap::new();
            for k in 0..len {
                let (v, id) = at(k % spread);
                let c = term::<F>(k);
                let e = m.entry(id).or_insert(F::ZERO);
                lc = match pat[k % pat.len()] { 0 => { *e += F::ONE; lc + v } 1 => { *e -= F::ONE; lc - v } 2 => { *e += c; lc + (c, v) } _ => { *e -= c; lc - (c, v) } };
                same(&lc, &m).map_err(|e| format!("after {} operations: {}", k + 1, e))?;
            }
            Ok(())
        });
    });
    cx.bound(&format!("{} repeated operations", f), format!("{} patterns, every length to {}, over 1, 4 and distinct variables", pats.len(), len));
}
fn deep(cx: &Ctx, max: usize, th: usize) {
    par_for(max + 1, th, |d| {
        let fold = |x: &[&[Op]]| x.concat();
        let open = vec![Op::Open; d];
        let close = vec![Op::Close; d];
        for ops in [
            fold(&[&open, &[Op::Alloc, Op::Enforce, Op::Root], &close, &[Op::Input]]),
            fold(&[&open, &[Op::Input, Op::FailAlloc]]),
            fold(&[&open, &[Op::FailInput]]),
            (0..d).flat_map(|_| [Op::Open, Op::Alloc, Op::Close]).collect(),
            (0..d).flat_map(|_| [Op::Open, Op::Input]).chain(close.clone()).collect(),
            (0..d).flat_map(|_| [Op::Alloc, Op::Enforce]).chain(Some(Op::FailAlloc)).collect(),
        ] { wrappers(cx, &ops); if d <= 40 { for kind in 0..kinds(&ops).min(2) { groth(cx, &ops, kind); } } }
    });
    cx.bound("deep and wide programs", format!("six shapes, every size to {}", max));
}
fn main() {
    let cx = Ctx::new("C24");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match cx.part.as_str() {
        "lc" => {
            use Index::*;
            // among them inputs and auxiliary variables of the same number
            let sets = [[Input(0), Input(1), Aux(0), Aux(1)], [Input(2), Aux(2), Input(0), Aux(3)], [Aux(1), Aux(0), Input(1), Input(3)], [Input(1 << 20), Aux(1 << 20), Aux((1 << 20) + 1), Input(0)]];
            for (i, ix) in sets.into_iter().enumerate() {
                if i == 0 || cx.thorough { lincomb::<F5>(&cx, "F5", &[Fp(0), Fp(1), Fp(2), Fp(4)], ix, 3, th); }
                lincomb::<F97>(&cx, "F97", &[Fp(96), Fp(49)], ix, if i == 0 { cx.tier(3, 4) } else { 3 }, th);
                if i == 0 || cx.thorough { lincomb::<Bls>(&cx, "BLS12-381 scalar", &[-Bls::ONE, Bls::TWO_INV], ix, 3, th); }
            }
        }
        "long" => {
            let mut sizes: Vec<usize> = (0..=cx.tier(34, 70)).collect();
            sizes.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025]);
            sizes.sort_unstable();
            sizes.dedup();
            operands::<F97>(&cx, "F97", &[Fp(0), Fp(1), Fp(2), Fp(96), Fp(95)], &sizes, th);
            operands::<Bls>(&cx, "BLS12-381 scalar", &[Bls::ZERO, Bls::ONE, -Bls::ONE, Bls::from(7), Bls::TWO_INV], if cx.thorough { &sizes } else { &sizes[..12] }, th);
            repeated::<F97>(&cx, "F97", cx.tier(300, 1100), th);
            deep(&cx, cx.tier(70, 260), th);
        }
        "wrappers" => {
            let all = sequences(&[Op::Alloc, Op::Input, Op::FailAlloc, Op::FailInput, Op::Enforce, Op::Open, Op::Close, Op::RawPush, Op::RawPop, Op::Root], cx.tier(5, 7));
            par_for(all.len(), th, |i| wrappers(&cx, &all[i]));
            cx.bound("wrappers", format!("all {} well-formed programs through {} wrapper stacks", all.len(), STACKS));
        }
        "groth" => {
            let all = sequences(&[Op::Alloc, Op::Input, Op::FailAlloc, Op::FailInput, Op::Enforce, Op::Open, Op::Close, Op::Root], cx.tier(5, 6));
            par_for(all.len(), th, |i| for kind in 0..kinds(&all[i]) { groth(&cx, &all[i], kind) });
            cx.bound("generator and prover", format!("all {} programs", all.len()));
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| "push n, alloc, alloc failing with DivisionByZero, through MultiEq in a namespace: the same events, two pops, the same error".into());
    cx.finish();
}
