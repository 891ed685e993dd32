//! A recording constraint system: keeps every variable, value and constraint.
use bellman::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;
use std::collections::{BTreeMap, HashSet};

/// Variable id: input i -> 2i, aux i -> 2i+1.
pub type V = u32;
pub fn vid(v: Variable) -> V {
    match v.get_unchecked() {
        Index::Input(i) => (i as u32) << 1,
        Index::Aux(i) => ((i as u32) << 1) | 1,
    }
}
pub type Lc<F> = Vec<(V, F)>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// value closures are evaluated (a proving context)
    Prove,
    /// value closures are never called (a key-generation context)
    Keygen,
}

#[derive(Clone)]
pub struct Rec<F: PrimeField> {
    pub mode: Mode,
    pub inputs: Vec<F>,
    pub aux: Vec<F>,
    pub cons: Vec<(Lc<F>, Lc<F>, Lc<F>)>,
    /// raw (unnormalised) terms
    pub raw: Vec<[Vec<(V, F)>; 3]>,
    pub depth: i64,
    pub events: Vec<String>,
    pub log_events: bool,
    pub keep_raw: bool,
    /// tracks the names as the testing constraint system does
    pub names: Option<Names>,
}

/// Full paths of everything that was named, and the first clash.
#[derive(Clone, Default)]
pub struct Names {
    at: Vec<String>,
    seen: HashSet<String>,
    pub bad: Option<String>,
}
impl Names {
    fn path(&self, name: &str) -> String {
        let mut p = String::new();
        for n in self.at.iter().map(|n| &n[..]).chain([name]) {
            p.push('/');
            p.push_str(n);
        }
        p
    }
    fn object(&mut self, name: String) {
        if name.contains('/') && self.bad.is_none() {
            self.bad = Some(format!("the name {:?} contains a slash", name));
        }
        let p = self.path(&name);
        if !self.seen.insert(p.clone()) && self.bad.is_none() {
            self.bad = Some(format!("two objects are called {}", p));
        }
    }
}

pub fn norm<F: PrimeField>(lc: &LinearCombination<F>) -> Lc<F> {
    let mut m: BTreeMap<V, F> = BTreeMap::new();
    for (v, c) in lc.as_ref() {
        *m.entry(vid(*v)).or_insert(F::ZERO) += *c;
    }
    m.into_iter().filter(|(_, c)| !c.is_zero_vartime()).collect()
}
pub fn raw<F: PrimeField>(lc: &LinearCombination<F>) -> Vec<(V, F)> {
    lc.as_ref().iter().map(|(v, c)| (vid(*v), *c)).collect()
}

impl<F: PrimeField> Rec<F> {
    pub fn new(mode: Mode) -> Self {
        Rec {
            mode,
            inputs: vec![F::ONE],
            aux: vec![],
            cons: vec![],
            raw: vec![],
            depth: 0,
            events: vec![],
            log_events: false,
            keep_raw: false,
            names: None,
        }
    }
    pub fn val(&self, v: V) -> F {
        if v & 1 == 0 {
            self.inputs[(v >> 1) as usize]
        } else {
            self.aux[(v >> 1) as usize]
        }
    }
    pub fn eval(&self, lc: &[(V, F)]) -> F {
        lc.iter().map(|(v, c)| self.val(*v) * *c).sum()
    }
    pub fn eval_lc(&self, lc: &LinearCombination<F>) -> F {
        lc.as_ref().iter().map(|(v, c)| self.val(vid(*v)) * *c).sum()
    }
    /// Index of the first violated constraint under the honest assignment.
    pub fn first_violated(&self) -> Option<usize> {
        self.cons
            .iter()
            .position(|(a, b, c)| self.eval(a) * self.eval(b) != self.eval(c))
    }
    pub fn same_shape(&self, o: &Self) -> Result<(), String> {
        if self.inputs.len() != o.inputs.len() || self.aux.len() != o.aux.len() {
            return Err(format!(
                "variables {}+{} vs {}+{}",
                self.inputs.len(),
                self.aux.len(),
                o.inputs.len(),
                o.aux.len()
            ));
        }
        if self.cons.len() != o.cons.len() {
            return Err(format!("constraints {} vs {}", self.cons.len(), o.cons.len()));
        }
        for (i, (x, y)) in self.cons.iter().zip(o.cons.iter()).enumerate() {
            if x != y {
                return Err(format!("constraint {} differs: {:?} vs {:?}", i, x, y));
            }
        }
        Ok(())
    }
}

impl<F: PrimeField> ConstraintSystem<F> for Rec<F> {
    type Root = Self;
    fn alloc<Fn_, A, AR>(&mut self, a: A, f: Fn_) -> Result<Variable, SynthesisError>
    where
        Fn_: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if self.log_events {
            self.events.push(format!("alloc {}", a().into()));
        } else if let Some(n) = &mut self.names {
            n.object(a().into());
        }
        let v = match self.mode {
            Mode::Prove => f()?,
            Mode::Keygen => F::ZERO,
        };
        self.aux.push(v);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<Fn_, A, AR>(&mut self, a: A, f: Fn_) -> Result<Variable, SynthesisError>
    where
        Fn_: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if self.log_events {
            self.events.push(format!("input {}", a().into()));
        } else if let Some(n) = &mut self.names {
            n.object(a().into());
        }
        let v = match self.mode {
            Mode::Prove => f()?,
            Mode::Keygen => F::ZERO,
        };
        self.inputs.push(v);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, an: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        if self.log_events {
            self.events.push(format!("enforce {}", an().into()));
        } else if let Some(n) = &mut self.names {
            n.object(an().into());
        }
        let (a, b, c) = (
            a(LinearCombination::zero()),
            b(LinearCombination::zero()),
            c(LinearCombination::zero()),
        );
        if self.keep_raw {
            self.raw.push([raw(&a), raw(&b), raw(&c)]);
        }
        self.cons.push((norm(&a), norm(&b), norm(&c)));
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        if self.log_events {
            self.events.push(format!("push {}", n().into()));
        } else if let Some(names) = &mut self.names {
            let n = n().into();
            names.object(n.clone());
            names.at.push(n);
        }
        self.depth += 1;
    }
    fn pop_namespace(&mut self) {
        if self.log_events {
            self.events.push("pop".into());
        } else if let Some(names) = &mut self.names {
            names.at.pop();
        }
        self.depth -= 1;
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}
