//! Gadget instances: inputs, synthesis through the real code, and a native specification.
//! `verify` checks completeness (every input vector through the real synthesis) and soundness
//! (every satisfying assignment, by `explore`), `shape` checks witness-independence.
use crate::explore::{explore, Limits, Sys};
use crate::rec::{norm, vid, Lc, Mode, Rec, V};
use crate::report::{guard, Ctx};
use crate::toy::TF;
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::num::{AllocatedNum, Num};
use bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty { Bit, Num }

#[derive(Clone)]
pub enum In<F: TF> { Bit(AllocatedBit), Num(AllocatedNum<F>) }
impl<F: TF> In<F> {
    pub fn bit(&self) -> &AllocatedBit { match self { In::Bit(b) => b, _ => panic!() } }
    pub fn num(&self) -> &AllocatedNum<F> { match self { In::Num(b) => b, _ => panic!() } }
    pub fn var(&self) -> Variable { match self { In::Bit(b) => b.get_variable(), In::Num(n) => n.get_variable() } }
}
/// A result of a gadget: what it claims and what it stands for.
pub struct Out<F: TF> {
    pub lc: LinearCombination<F>,
    pub val: Option<F>,
    pub constant: bool,
}
pub fn one_var() -> Variable { Variable::new_unchecked(bellman::Index::Input(0)) }
pub fn ob<F: TF>(b: &Boolean) -> Out<F> {
    Out { lc: b.lc(one_var(), F::ONE), val: b.get_value().map(|x| if x { F::ONE } else { F::ZERO }), constant: b.is_constant() }
}
pub fn obs<F: TF>(b: &[Boolean]) -> Vec<Out<F>> { b.iter().map(ob).collect() }
pub fn on<F: TF>(n: &AllocatedNum<F>) -> Out<F> { Out { lc: LinearCombination::zero() + n.get_variable(), val: n.get_value(), constant: false } }
pub fn onum<F: TF>(n: &Num<F>) -> Out<F> { Out { lc: n.lc(F::ONE), val: n.get_value(), constant: false } }

/// An operand: a constant or a (negated) input bit.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K { C(bool), Is(u16), Not(u16) }
impl K {
    pub fn mk<F: TF>(self, x: &[In<F>]) -> Boolean {
        match self { K::C(b) => Boolean::constant(b), K::Is(i) => Boolean::from(x[i as usize].bit().clone()), K::Not(i) => Boolean::from(x[i as usize].bit().clone()).not() }
    }
    pub fn ev<F: TF>(self, x: &[F]) -> bool {
        match self { K::C(b) => b, K::Is(i) => x[i as usize] == F::ONE, K::Not(i) => x[i as usize] != F::ONE }
    }
    pub fn is_const(self) -> bool { matches!(self, K::C(_)) }
    /// every operand over `n` input bits
    pub fn all(n: u8) -> Vec<K> {
        let mut v = vec![K::C(false), K::C(true)];
        for i in 0..n as u16 { v.push(K::Is(i)); v.push(K::Not(i)); }
        v
    }
}
pub fn fb<F: TF>(b: bool) -> F { if b { F::ONE } else { F::ZERO } }

/// What should happen for given inputs.
pub enum Sp<F> {
    Out(Vec<F>),
    /// synthesis reports this error (variant name) in a proving context, and nothing satisfies the constraints
    Err(&'static str),
    /// nothing satisfies the constraints (synthesis may also report Unsatisfiable)
    Unsat,
}
pub trait Gadget<F: TF>: Sync {
    fn ins(&self) -> Vec<Ty>;
    fn synth<CS: ConstraintSystem<F>>(&self, cs: CS, x: &[In<F>]) -> Result<Vec<Out<F>>, SynthesisError>;
    fn spec(&self, x: &[F]) -> Sp<F>;
    /// expected public inputs
    fn pubs(&self, _x: &[F]) -> Vec<F> { vec![] }
    /// may these outputs stand for these inputs in a satisfying assignment?
    fn accept(&self, x: &[F], o: &[F]) -> bool { match self.spec(x) { Sp::Out(e) => e == o, _ => false } }
    /// all inputs of the result are constants, so no variables or constraints may be emitted
    fn constant(&self) -> bool { false }
}
pub fn err_name(e: &SynthesisError) -> &'static str {
    match e {
        SynthesisError::AssignmentMissing => "AssignmentMissing",
        SynthesisError::DivisionByZero => "DivisionByZero",
        SynthesisError::Unsatisfiable => "Unsatisfiable",
        SynthesisError::PolynomialDegreeTooLarge => "PolynomialDegreeTooLarge",
        SynthesisError::UnexpectedIdentity => "UnexpectedIdentity",
        SynthesisError::IoError(_) => "IoError",
        SynthesisError::UnconstrainedVariable => "UnconstrainedVariable",
    }
}
pub fn alloc_ins<F: TF, CS: ConstraintSystem<F>>(mut cs: CS, tys: &[Ty], x: &[Option<F>]) -> Result<Vec<In<F>>, SynthesisError> {
    tys.iter().zip(x).enumerate().map(|(i, (t, v))| {
        let cs = cs.namespace(|| format!("in {}", i));
        Ok(match t {
            Ty::Bit => In::Bit(AllocatedBit::alloc(cs, v.map(|v| v == F::ONE))?),
            Ty::Num => In::Num(AllocatedNum::alloc(cs, || v.ok_or(SynthesisError::AssignmentMissing))?),
        })
    }).collect()
}
pub struct Run<F: TF> {
    pub rec: Rec<F>,
    pub ins: Vec<In<F>>,
    /// variables and constraints of the inputs alone
    pub base: (usize, usize),
    pub res: Result<Vec<Out<F>>, SynthesisError>,
}
pub fn run<F: TF, G: Gadget<F>>(g: &G, mode: Mode, x: &[Option<F>]) -> Result<Run<F>, String> {
    run2(g, mode, mode, x)
}
/// Inputs allocated in `m1`, the gadget itself synthesised in `m2`.
pub fn run2<F: TF, G: Gadget<F>>(g: &G, m1: Mode, m2: Mode, x: &[Option<F>]) -> Result<Run<F>, String> {
    run_on(Rec::new(m1), g, m2, x)
}
/// The same on a constraint system that tracks names; two objects must not have the same one.
pub fn run_named<F: TF, G: Gadget<F>>(g: &G, x: &[Option<F>]) -> Result<Run<F>, String> {
    let mut rec = Rec::new(Mode::Keygen);
    rec.names = Some(Default::default());
    let r = run_on(rec, g, Mode::Keygen, x)?;
    match r.rec.names.as_ref().and_then(|n| n.bad.clone()) { Some(e) => Err(e), None => Ok(r) }
}
fn run_on<F: TF, G: Gadget<F>>(mut rec: Rec<F>, g: &G, m2: Mode, x: &[Option<F>]) -> Result<Run<F>, String> {
    let ins = alloc_ins(&mut rec, &g.ins(), x).map_err(|e| format!("allocating the inputs: {:?}", e))?;
    let base = (rec.aux.len() + rec.inputs.len(), rec.cons.len());
    rec.mode = m2;
    let res = guard(|| g.synth(rec.namespace(|| "gadget"), &ins)).map_err(|p| format!("panicked: {}", p))?;
    if rec.depth != 0 { return Err("namespaces are not balanced".into()); }
    Ok(Run { rec, ins, base, res })
}
/// Every vector of input values (bits: both values; numbers: `nums`).
pub fn vectors<F: TF>(tys: &[Ty], nums: &[F]) -> Vec<Vec<F>> {
    let mut out = vec![vec![]];
    for t in tys {
        let c: Vec<F> = match t { Ty::Bit => vec![F::ZERO, F::ONE], Ty::Num => nums.to_vec() };
        out = out.into_iter().flat_map(|v: Vec<F>| c.iter().map(move |x| { let mut w = v.clone(); w.push(*x); w }).collect::<Vec<_>>()).collect();
    }
    out
}
/// How satisfying assignments are enumerated.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sound {
    /// all of them, inputs included
    All,
    /// for each input vector, everything else
    PerVector,
    /// not at all
    Skip,
}
pub fn fmt_vec<F: TF>(x: &[F]) -> String {
    if x.len() > 40 { return format!("[{} values]", x.len()); }
    format!("{:?}", x)
}
/// Completeness and soundness of one gadget instance.
pub fn verify<F: TF, G: Gadget<F>>(cx: &Ctx, key: &str, g: &G, vecs: &[Vec<F>], sound: Sound) {
    let tys = g.ins();
    // completeness
    for x in vecs {
        if cx.failed() { return; }
        cx.check(1, || format!("{} inputs={}", key, fmt_vec(x)), || {
            let xs: Vec<Option<F>> = x.iter().cloned().map(Some).collect();
            let r = run(g, Mode::Prove, &xs)?;
            match (g.spec(x), &r.res) {
                (Sp::Err(n), Err(e)) if err_name(e) == n => Ok(()),
                (Sp::Err(n), Err(e)) => Err(format!("error {} instead of {}", err_name(e), n)),
                (Sp::Err(n), Ok(_)) => Err(format!("no error instead of {}", n)),
                (Sp::Unsat, Err(SynthesisError::Unsatisfiable)) => Ok(()),
                (_, Err(e)) => Err(format!("unexpected error {:?}", e)),
                (Sp::Unsat, Ok(_)) => if r.rec.first_violated().is_some() { Ok(()) } else { Err("satisfied although the statement is false".into()) },
                (Sp::Out(e), Ok(o)) => {
                    if e.len() != o.len() { return Err(format!("{} outputs instead of {}", o.len(), e.len())); }
                    for (i, (e, o)) in e.iter().zip(o).enumerate() {
                        if o.val != Some(*e) { return Err(format!("output {} reports {:?} instead of {:?}", i, o.val, e)); }
                        let l = r.rec.eval_lc(&o.lc);
                        if l != *e { return Err(format!("the linear combination of output {} evaluates to {:?} instead of {:?}", i, l, e)); }
                    }
                    if let Some(c) = r.rec.first_violated() { return Err(format!("constraint {} is violated by the honest assignment", c)); }
                    if r.rec.inputs[1..] != g.pubs(x)[..] { return Err(format!("public inputs {:?} instead of {:?}", &r.rec.inputs[1..], g.pubs(x))); }
                    if g.constant() {
                        if (r.rec.aux.len() + r.rec.inputs.len(), r.rec.cons.len()) != r.base { return Err("variables or constraints for constants".into()); }
                        if o.iter().any(|o| !o.constant) { return Err("a result of constants is not a constant".into()); }
                    }
                    Ok(())
                }
            }
        });
    }
    // soundness
    if sound == Sound::Skip || cx.failed() { return; }
    let none: Vec<Option<F>> = vec![None; tys.len()];
    let shape = |x: &[F]| -> Result<Run<F>, String> {
        let r = run(g, Mode::Keygen, &none)?;
        if r.res.is_ok() { return Ok(r); }
        run(g, Mode::Prove, &x.iter().cloned().map(Some).collect::<Vec<_>>())
    };
    let judge = |r: &Run<F>, get: &dyn Fn(V) -> F| -> Result<(), String> {
        let x: Vec<F> = r.ins.iter().map(|i| get(vid(i.var()))).collect();
        for (t, v) in tys.iter().zip(&x) { if *t == Ty::Bit && *v != F::ZERO && *v != F::ONE { return Err(format!("an input bit is {:?} in a satisfying assignment", v)); } }
        let o: Vec<F> = match &r.res { Ok(o) => o.iter().map(|o| o.lc.as_ref().iter().map(|(v, c)| get(vid(*v)) * *c).sum()).collect(), Err(_) => vec![] };
        let p: Vec<F> = (1..r.rec.inputs.len()).map(|i| get((i as u32) << 1)).collect();
        if !g.accept(&x, &o) { return Err(format!("the constraints are satisfied with inputs {} and outputs {}", fmt_vec(&x), fmt_vec(&o))); }
        if p != g.pubs(&x) { return Err(format!("the constraints are satisfied with inputs {} and public inputs {}", fmt_vec(&x), fmt_vec(&p))); }
        Ok(())
    };
    let explore_one = |r: &Run<F>, fixed: &[(V, F)]| -> Result<(), String> {
        let sys = Sys::new(&r.rec);
        let mut watch: Vec<V> = r.ins.iter().map(|i| vid(i.var())).collect();
        if let Ok(o) = &r.res { for o in o { watch.extend(norm(&o.lc).iter().map(|t| t.0)); } }
        watch.extend((1..r.rec.inputs.len()).map(|i| (i as u32) << 1));
        let mut bad = Ok(());
        let out = explore(&sys, fixed, &watch, Limits::default(), &mut |get| { bad = judge(r, get); bad.is_ok() });
        cx.count("satisfying assignments enumerated", out.solutions);
        cx.count("exploration nodes", out.nodes);
        cx.trans(out.props);
        if !out.complete && bad.is_ok() { cx.not_exhaustive(); cx.count("incomplete explorations", 1); }
        bad
    };
    match sound {
        Sound::All => cx.check(1, || format!("{} soundness", key), || {
            let zero: Vec<F> = vecs.first().cloned().unwrap_or_default();
            let r = shape(&zero)?;
            if let Err(_) = r.res { return Ok(()); }
            explore_one(&r, &[])
        }),
        Sound::PerVector => {
            let r = match shape(vecs.first().map(|x| &x[..]).unwrap_or(&[])) { Ok(r) => r, Err(e) => { cx.violation(key, e); return; } };
            if r.res.is_err() { return; }
            for x in vecs {
                if cx.failed() { return; }
                cx.check(1, || format!("{} soundness inputs={}", key, fmt_vec(x)), || {
                    let fixed: Vec<(V, F)> = r.ins.iter().zip(x).map(|(i, v)| (vid(i.var()), *v)).collect();
                    explore_one(&r, &fixed)
                });
            }
        }
        Sound::Skip => {}
    }
}
/// The shape is the same for all values and for unknown values; unknown values are reported as such.
pub fn shape<F: TF, G: Gadget<F>>(cx: &Ctx, key: &str, g: &G, vecs: &[Vec<F>]) {
    let tys = g.ins();
    let none: Vec<Option<F>> = vec![None; tys.len()];
    cx.check(vecs.len() as u64 + 4, || format!("{} shape", key), || {
        let kg = run_named(g, &none).map_err(|e| format!("unknown values: {}", e))?;
        let lcs = |o: &[Out<F>]| -> Vec<(Lc<F>, bool)> { o.iter().map(|o| (norm(&o.lc), o.constant)).collect() };
        let kres = kg.res.as_ref().map(|o| lcs(o)).map_err(|e| err_name(e));
        if let Ok(o) = &kg.res {
            for o in o {
                let l = norm(&o.lc);
                let known = l.iter().all(|t| t.0 == 0);
                if !known && o.val.is_some() { return Err(format!("an output that depends on unknown values reports {:?}", o.val)); }
                if known && o.val.is_some() && o.val != Some(l.first().map_or(F::ZERO, |t| t.1)) { return Err("a constant output reports another value".into()); }
            }
        }
        let same = |what: &str, r: &Run<F>| -> Result<(), String> {
            match &r.res {
                Ok(o) => {
                    r.rec.same_shape(&kg.rec).map_err(|e| format!("{}: {}", what, e))?;
                    if Ok(lcs(o)) != kres { return Err(format!("{}: the outputs stand for other variables than with unknown values", what)); }
                    Ok(())
                }
                Err(_) => Ok(()),
            }
        };
        for x in vecs {
            let xs: Vec<Option<F>> = x.iter().cloned().map(Some).collect();
            let want_ok = matches!(g.spec(x), Sp::Out(_)) && kres.is_ok();
            let p = run(g, Mode::Prove, &xs)?;
            if want_ok && p.res.is_err() { return Err(format!("inputs {}: {:?}", fmt_vec(x), p.res.err())); }
            same(&format!("inputs {}", fmt_vec(x)), &p)?;
            let k = run(g, Mode::Keygen, &xs)?;
            same(&format!("inputs {}, values not evaluated", fmt_vec(x)), &k)?;
            if kres.is_ok() && k.res.is_err() { return Err("synthesis without values fails".into()); }
        }
        // a proving context with unknown values
        let p = run2(g, Mode::Keygen, Mode::Prove, &none)?;
        let allocates = kg.rec.aux.len() + kg.rec.inputs.len() > kg.base.0;
        match &p.res {
            Err(SynthesisError::AssignmentMissing) => {}
            Err(e) => if kres != Err(err_name(e)) { return Err(format!("{:?} instead of AssignmentMissing for unknown values", e)); },
            Ok(_) if allocates && vecs.windows(2).any(|w| match (g.spec(&w[0]), g.spec(&w[1])) { (Sp::Out(a), Sp::Out(b)) => a != b || g.pubs(&w[0]) != g.pubs(&w[1]), _ => false }) => return Err("no AssignmentMissing although values are unknown".into()),
            Ok(_) => same("unknown values in a proving context", &p)?,
        }
        // partly unknown values: no panic, no wrong value
        for x in vecs.iter().take(4) {
            for u in 0..tys.len().min(40) {
                let xs: Vec<Option<F>> = x.iter().enumerate().map(|(i, v)| if i == u { None } else { Some(*v) }).collect();
                let p = run2(g, Mode::Keygen, Mode::Prove, &xs)?;
                match &p.res {
                    Ok(o) => if let Sp::Out(e) = g.spec(x) {
                        for (o, e) in o.iter().zip(&e) { if o.val.is_some() && o.val != Some(*e) { return Err(format!("with input {} unknown an output reports {:?}", u, o.val)); } }
                    },
                    Err(SynthesisError::AssignmentMissing) => {}
                    Err(e) => match g.spec(x) { Sp::Err(n) if n == err_name(e) => {} _ => return Err(format!("with input {} unknown: {:?}", u, e)) },
                }
            }
        }
        Ok(())
    });
}
