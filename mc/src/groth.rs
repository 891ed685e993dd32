//! Circuits as data, their enumeration, and an independent Groth16 reference model.
use crate::rec::{norm, Lc, V};
use crate::toy::*;
use bellman::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::{Field, PrimeField};
use groth16::{Parameters, Proof, VerifyingKey};
use std::sync::Arc;

pub fn input(i: usize) -> V {
    (i as u32) << 1
}
pub fn aux(i: usize) -> V {
    ((i as u32) << 1) | 1
}
pub fn var(v: V) -> Variable {
    Variable::new_unchecked(if v & 1 == 0 { Index::Input((v >> 1) as usize) } else { Index::Aux((v >> 1) as usize) })
}

pub type Con<F> = [Lc<F>; 3];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Fail {
    Missing,
    Division,
    Unsat,
    Unconstrained,
    Identity,
    Degree,
    Io,
}
impl Fail {
    pub const ALL: [Fail; 7] = [Fail::Missing, Fail::Division, Fail::Unsat, Fail::Unconstrained, Fail::Identity, Fail::Degree, Fail::Io];
    pub fn err(&self) -> SynthesisError {
        match self {
            Fail::Missing => SynthesisError::AssignmentMissing,
            Fail::Division => SynthesisError::DivisionByZero,
            Fail::Unsat => SynthesisError::Unsatisfiable,
            Fail::Unconstrained => SynthesisError::UnconstrainedVariable,
            Fail::Identity => SynthesisError::UnexpectedIdentity,
            Fail::Degree => SynthesisError::PolynomialDegreeTooLarge,
            Fail::Io => SynthesisError::IoError(std::io::Error::new(std::io::ErrorKind::Other, "planted")),
        }
    }
    pub fn is(&self, e: &SynthesisError) -> bool {
        match (self, e) {
            (Fail::Io, SynthesisError::IoError(e)) => e.to_string() == "planted",
            (Fail::Io, _) | (_, SynthesisError::IoError(_)) => false,
            (f, e) => std::mem::discriminant(&f.err()) == std::mem::discriminant(e),
        }
    }
}

/// A circuit given by its data. `order[k]` says whether the k-th allocation is a public input.
#[derive(Clone, Debug)]
pub struct Spec<F> {
    pub order: Vec<bool>,
    pub inp: Vec<F>,
    pub aux: Vec<F>,
    pub cons: Vec<Con<F>>,
    /// Whether the witness is known (a key generation circuit does not know it).
    pub known: bool,
    /// Fail at this step (allocations first, then constraints, then the end), with this error;
    /// `true` = from inside the value closure.
    pub fail: Option<(usize, Fail, bool)>,
}
impl<F: PrimeField> Spec<F> {
    pub fn new(order: Vec<bool>, inp: Vec<F>, aux: Vec<F>, cons: Vec<Con<F>>) -> Self {
        Spec { order, inp, aux, cons, known: true, fail: None }
    }
    pub fn unknown(&self) -> Self {
        let mut s = self.clone();
        s.known = false;
        s
    }
    pub fn val(&self, v: V) -> F {
        if v & 1 == 1 {
            self.aux[(v >> 1) as usize]
        } else if v == 0 {
            F::ONE
        } else {
            self.inp[(v >> 1) as usize - 1]
        }
    }
    pub fn eval(&self, l: &[(V, F)]) -> F {
        l.iter().map(|(v, c)| self.val(*v) * c).sum()
    }
    pub fn violated(&self) -> Option<usize> {
        self.cons.iter().position(|c| self.eval(&c[0]) * self.eval(&c[1]) != self.eval(&c[2]))
    }
    pub fn ncons(&self) -> usize {
        self.cons.len() + self.inp.len() + 1
    }
    /// log2 of the domain size needed.
    pub fn exp(&self) -> u32 {
        let mut e = 0;
        while (1usize << e) < self.ncons() {
            e += 1;
        }
        e
    }
}
impl<F: PrimeField> Circuit<F> for Spec<F> {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let (mut i, mut a, mut step) = (0, 0, 0);
        for inp in &self.order {
            if let Some((s, f, false)) = &self.fail {
                if *s == step {
                    return Err(f.err());
                }
            }
            let v = if *inp { self.inp[i] } else { self.aux[a] };
            let bad = match &self.fail {
                Some((s, f, true)) if *s == step => Some(f.clone()),
                _ => None,
            };
            let known = self.known;
            let get = || match bad {
                Some(f) => Err(f.err()),
                None if known => Ok(v),
                None => Err(SynthesisError::AssignmentMissing),
            };
            if *inp {
                cs.alloc_input(|| format!("i{}", i), get)?;
                i += 1;
            } else {
                cs.alloc(|| format!("a{}", a), get)?;
                a += 1;
            }
            step += 1;
        }
        for c in &self.cons {
            if let Some((s, f, _)) = &self.fail {
                if *s == step {
                    return Err(f.err());
                }
            }
            let side = |k: usize| c[k].iter().fold(LinearCombination::zero(), |l, (v, c)| l + (*c, var(*v)));
            cs.enforce(|| format!("c{}", step), |_| side(0), |_| side(1), |_| side(2));
            step += 1;
        }
        if let Some((s, f, _)) = &self.fail {
            if *s == step {
                return Err(f.err());
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Trap<F> {
    pub g1: F,
    pub g2: F,
    pub alpha: F,
    pub beta: F,
    pub gamma: F,
    pub delta: F,
    pub tau: F,
}

/// u_i, v_i, w_i at tau for every variable (inputs then aux), with structural density.
pub struct Qap<F> {
    pub m: usize,
    pub tau: F,
    pub t: F,
    pub lag: Vec<F>,
    pub ni: usize,
    pub na: usize,
    pub u: Vec<F>,
    pub v: Vec<F>,
    pub w: Vec<F>,
    pub du: Vec<bool>,
    pub dv: Vec<bool>,
    pub dw: Vec<bool>,
}
pub fn nlc<F: PrimeField>(l: &[(V, F)]) -> Lc<F> {
    norm(&l.iter().fold(LinearCombination::zero(), |l, (v, c)| l + (*c, var(*v))))
}
pub fn qap<F: PrimeField>(s: &Spec<F>, tau: F) -> Qap<F> {
    let exp = s.exp();
    let m = 1usize << exp;
    let mut om = F::ROOT_OF_UNITY;
    for _ in exp..F::S {
        om = om.square();
    }
    let om_inv = om.invert().unwrap();
    let minv = F::from(m as u64).invert().unwrap();
    let n = s.ncons();
    // L_j(tau) = 1/m sum_k (tau w^-j)^k
    let mut x = tau;
    let mut lag = Vec::with_capacity(n);
    let t = tau.pow_vartime(&[m as u64]) - F::ONE;
    // large domains off the roots of unity: L_j(tau) = (tau^m - 1) w^j / (m (tau - w^j))
    if m > 256 && !t.is_zero_vartime() {
        let mut w = F::ONE;
        for _ in 0..n {
            lag.push(t * w * minv * (tau - w).invert().unwrap());
            w *= om;
        }
    }
    while lag.len() < n {
        let mut acc = F::ZERO;
        let mut p = F::ONE;
        for _ in 0..m {
            acc += p;
            p *= x;
        }
        lag.push(acc * minv);
        x *= om_inv;
    }
    let (ni, na) = (s.inp.len() + 1, s.aux.len());
    let z = vec![F::ZERO; ni + na];
    let f = vec![false; ni + na];
    let mut q = Qap { m, tau, t: tau.pow_vartime(&[m as u64]) - F::ONE, lag, ni, na, u: z.clone(), v: z.clone(), w: z, du: f.clone(), dv: f.clone(), dw: f };
    let at = |v: V| if v & 1 == 0 { (v >> 1) as usize } else { ni + (v >> 1) as usize };
    for (j, c) in s.cons.iter().enumerate() {
        for k in 0..3 {
            let (p, d) = match k {
                0 => (&mut q.u, &mut q.du),
                1 => (&mut q.v, &mut q.dv),
                _ => (&mut q.w, &mut q.dw),
            };
            for (v, c) in nlc(&c[k]) {
                p[at(v)] += c * q.lag[j];
                d[at(v)] = true;
            }
        }
    }
    for i in 0..ni {
        q.u[i] += q.lag[s.cons.len() + i];
        q.du[i] = true;
    }
    q
}
impl<F: PrimeField> Qap<F> {
    /// Whether tau is one of the trapdoor values the completeness statement excepts.
    pub fn exceptional(&self, t: &Trap<F>) -> bool {
        self.t.is_zero_vartime() || self.tau.is_zero_vartime()
            || (0..self.ni + self.na).any(|i| (self.du[i] && self.u[i].is_zero_vartime()) || (self.dv[i] && self.v[i].is_zero_vartime()))
            || (self.ni..self.ni + self.na).any(|i| self.k(t, i).is_zero_vartime())
    }
    pub fn k(&self, t: &Trap<F>, i: usize) -> F {
        t.beta * self.u[i] + t.alpha * self.v[i] + self.w[i]
    }
}
/// The parameters of the Groth16 definition (no error conditions considered).
pub fn model_params<F: TF>(q: &Qap<F>, t: &Trap<F>) -> Parameters<Toy<F>> {
    let (gi, di) = (t.gamma.invert().unwrap(), t.delta.invert().unwrap());
    let g1 = |x: F| P1(x * t.g1);
    let g2 = |x: F| P2(x * t.g2);
    let n = q.ni + q.na;
    let mut h = vec![];
    let mut p = q.t * di;
    for _ in 0..q.m - 1 {
        h.push(g1(p));
        p *= t.tau;
    }
    Parameters {
        vk: VerifyingKey {
            alpha_g1: g1(t.alpha),
            beta_g1: g1(t.beta),
            beta_g2: g2(t.beta),
            gamma_g2: g2(t.gamma),
            delta_g1: g1(t.delta),
            delta_g2: g2(t.delta),
            ic: (0..q.ni).map(|i| g1(q.k(t, i) * gi)).collect(),
        },
        h: Arc::new(h),
        l: Arc::new((q.ni..n).map(|i| g1(q.k(t, i) * di)).collect()),
        a: Arc::new((0..n).filter(|i| !q.u[*i].is_zero_vartime()).map(|i| g1(q.u[i])).collect()),
        b_g1: Arc::new((0..n).filter(|i| !q.v[*i].is_zero_vartime()).map(|i| g1(q.v[i])).collect()),
        b_g2: Arc::new((0..n).filter(|i| !q.v[*i].is_zero_vartime()).map(|i| g2(q.v[i])).collect()),
    }
}
/// The Groth16 proof of a satisfying assignment.
pub fn model_proof<F: TF>(s: &Spec<F>, q: &Qap<F>, t: &Trap<F>, r: F, sc: F) -> Proof<Toy<F>> {
    let val = |i: usize| if i == 0 { F::ONE } else if i < q.ni { s.inp[i - 1] } else { s.aux[i - q.ni] };
    let dot = |p: &[F]| (0..p.len()).map(|i| val(i) * p[i]).sum::<F>();
    let (u, v, w) = (dot(&q.u), dot(&q.v), dot(&q.w));
    let a = t.alpha + u + r * t.delta;
    let b = t.beta + v + sc * t.delta;
    let priv_ = (q.ni..q.ni + q.na).map(|i| val(i) * q.k(t, i)).sum::<F>();
    let c = (priv_ + u * v - w) * t.delta.invert().unwrap() + sc * a + r * b - r * sc * t.delta;
    Proof { a: P1(a * t.g1), b: P2(b * t.g2), c: P1(c * t.g1) }
}
pub fn eq_params<F: TF>(a: &Parameters<Toy<F>>, b: &Parameters<Toy<F>>) -> Result<(), String> {
    let mut r = vec![];
    macro_rules! cmp { ($($n:ident).+) => { if a.$($n).+ != b.$($n).+ { r.push(format!("{}: {:?} expected {:?}", stringify!($($n).+), a.$($n).+, b.$($n).+)); } } }
    cmp!(vk.alpha_g1);
    cmp!(vk.beta_g1);
    cmp!(vk.beta_g2);
    cmp!(vk.gamma_g2);
    cmp!(vk.delta_g1);
    cmp!(vk.delta_g2);
    cmp!(vk.ic);
    cmp!(h);
    cmp!(l);
    cmp!(a);
    cmp!(b_g1);
    cmp!(b_g2);
    if r.is_empty() { Ok(()) } else { Err(r.join("; ")) }
}
pub fn proof_eq<F: TF>(a: &Proof<Toy<F>>, b: &Proof<Toy<F>>) -> bool {
    a.a == b.a && a.b == b.b && a.c == b.c
}
/// e(A,B) = e(alpha,beta) + e(IC,gamma) + e(C,delta), on logarithms, independent of the verifier.
pub fn equation<F: TF>(vk: &VerifyingKey<Toy<F>>, p: &Proof<Toy<F>>, inp: &[F]) -> bool {
    let ic = vk.ic[0].0 + vk.ic[1..].iter().zip(inp).map(|(c, i)| c.0 * i).sum::<F>();
    p.a.0 * p.b.0 == vk.alpha_g1.0 * vk.beta_g2.0 + ic * vk.gamma_g2.0 + p.c.0 * vk.delta_g2.0
}

/// Linear combinations over the given variables: absent, single, scaled, repeated, cancelling,
/// zero-coefficient, mixed and partially cancelling ones. `level` 0 is the smaller library.
pub fn library<F: PrimeField>(vars: &[V], level: u32) -> Vec<Lc<F>> {
    let one = F::ONE;
    let mut r: Vec<Lc<F>> = vec![vec![], vec![(0, one)]];
    for (k, &x) in vars.iter().enumerate() {
        r.push(vec![(x, one)]);
        r.push(vec![(x, one), (x, -one)]);
        if level >= 1 {
            r.push(vec![(x, F::from(2)), (x, one)]);
            r.push(vec![(x, F::ZERO)]);
            r.push(vec![(0, one), (x, one)]);
        }
        if level >= 2 {
            r.push(vec![(x, -one)]);
            r.push(vec![(x, -one), (0, one)]);
        }
        for &y in &vars[k + 1..] {
            r.push(vec![(x, one), (y, one)]);
            if level >= 1 {
                r.push(vec![(x, one), (y, one), (x, -one)]);
            }
            if level >= 2 {
                r.push(vec![(y, F::from(2)), (x, F::ZERO), (y, -F::from(2)), (x, F::from(3))]);
            }
        }
    }
    r
}
/// All allocation orders of ni inputs and na private variables.
pub fn orders(ni: usize, na: usize) -> Vec<Vec<bool>> {
    if ni == 0 && na == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    if ni > 0 {
        for mut o in orders(ni - 1, na) {
            o.push(true);
            r.push(o);
        }
    }
    if na > 0 {
        for mut o in orders(ni, na - 1) {
            o.push(false);
            r.push(o);
        }
    }
    r
}
/// All assignments of n variables over the alphabet.
pub fn assignments<F: Copy>(n: usize, al: &[F]) -> Vec<Vec<F>> {
    let mut r = vec![vec![]];
    for _ in 0..n {
        r = r.into_iter().flat_map(|v| al.iter().map(move |a| { let mut v = v.clone(); v.push(*a); v })).collect();
    }
    r
}
/// One enumeration family.
#[derive(Clone, Copy)]
pub struct Fam {
    pub ni: usize,
    pub na: usize,
    pub nc: usize,
    pub level: u32,
    /// take every allocation order (else rotate through them)
    pub all_orders: bool,
    pub alphabet: usize,
}
/// Every circuit of the family whose assignment satisfies it (want_sat) or violates it; the
/// callback gets a running index. Work is split over `threads` (by assignment x first constraint).
pub fn circuits<F: TF>(fam: Fam, want_sat: bool, threads: usize, stop: &(dyn Fn() -> bool + Sync), f: &(dyn Fn(Spec<F>, usize) + Sync)) {
    let vars: Vec<V> = (0..fam.ni).map(|i| input(i + 1)).chain((0..fam.na).map(aux)).collect();
    let lib = library::<F>(&vars, fam.level);
    let al: Vec<F> = [0u64, 1, 3, 2].iter().take(fam.alphabet).map(|x| F::from(*x)).collect();
    let asg = assignments(fam.ni + fam.na, &al);
    let ords = orders(fam.ni, fam.na);
    let k = lib.len();
    let tri = k * k * k;
    let con = |i: usize| -> Con<F> { [lib[i % k].clone(), lib[i / k % k].clone(), lib[i / k / k].clone()] };
    crate::par_for(asg.len() * if fam.nc > 0 { k } else { 1 }, threads, |job| {
        if stop() {
            return;
        }
        let (ai, first) = (job % asg.len(), job / asg.len());
        let a = &asg[ai];
        let base = Spec::new(ords[0].clone(), a[..fam.ni].to_vec(), a[fam.ni..].to_vec(), vec![]);
        let val: Vec<F> = lib.iter().map(|l| base.eval(l)).collect();
        let holds = |i: usize| val[i % k] * val[i / k % k] == val[i / k / k];
        let mut emit = |cons: Vec<Con<F>>, idx: usize| {
            let n = if fam.all_orders { ords.len() } else { 1 };
            for o in 0..n {
                let mut s = base.clone();
                s.order = ords[(o + idx) % ords.len()].clone();
                s.cons = cons.clone();
                f(s, idx * n + o + ai * 7919);
            }
        };
        if fam.nc == 0 {
            if want_sat {
                emit(vec![], 0);
            }
            return;
        }
        let firsts: Vec<usize> = (0..tri).filter(|i| i % k == first).collect();
        let good: Vec<usize> = (0..tri).filter(|i| holds(*i)).collect();
        match fam.nc {
            1 => {
                for &i in &firsts {
                    if stop() {
                        return;
                    }
                    if holds(i) == want_sat {
                        emit(vec![con(i)], i);
                    }
                }
            }
            2 => {
                for &i in &firsts {
                    if want_sat != holds(i) {
                        continue;
                    }
                    for &j in &good {
                        if stop() {
                            return;
                        }
                        let v = if want_sat || (i + j) % 2 == 0 { vec![con(i), con(j)] } else { vec![con(j), con(i)] };
                        emit(v, i * 31 + j);
                    }
                }
            }
            _ => unreachable!(),
        }
    });
}
/// A deterministic family of larger circuits: a chain of n constraints over na private variables
/// and ni inputs, using every shape of linear combination.
pub fn chain<F: TF>(ni: usize, na: usize, nc: usize, seed: u64) -> Spec<F> {
    let mut r = SplitMix(seed * 1000003 + (ni * 101 + na * 10007 + nc) as u64);
    let inp: Vec<F> = (0..ni).map(|i| if i % 3 == 2 { F::ZERO } else { F::random(&mut r) }).collect();
    let mut auxv: Vec<F> = (0..na).map(|i| match i % 4 { 1 => F::ZERO, 3 => F::ONE, _ => F::random(&mut r) }).collect();
    let mut cons: Vec<Con<F>> = vec![];
    let vars: Vec<V> = (0..=ni).map(input).chain((0..na).map(aux)).collect();
    for j in 0..nc {
        // Every private variable is covered as the "target" of some constraint if nc >= na.
        let spec = Spec::new(vec![], inp.clone(), auxv.clone(), vec![]);
        let pick = |r: &mut SplitMix| vars[(r.next() % vars.len() as u64) as usize];
        let mut lc = |r: &mut SplitMix| -> Lc<F> {
            let mut l = vec![];
            match r.next() % 6 {
                0 => l.push((pick(r), F::ONE)),
                1 => { let x = pick(r); l.push((x, F::from(5))); l.push((x, -F::from(2))); }
                2 => { let x = pick(r); l.push((x, F::ONE)); l.push((pick(r), F::ONE)); l.push((x, -F::ONE)); }
                3 => { l.push((pick(r), F::ZERO)); l.push((pick(r), F::from(r.next() % 9))); }
                4 => {}
                _ => for _ in 0..3 { l.push((pick(r), F::from(r.next() % 50))); },
            }
            l
        };
        let (a, b) = (lc(&mut r), lc(&mut r));
        let prod = spec.eval(&a) * spec.eval(&b);
        // C = target variable + constant correction
        let mut c: Lc<F> = vec![];
        if na > 0 {
            c.push((aux(j % na), F::ONE));
        }
        let have = spec.eval(&c);
        c.push((0, prod - have));
        cons.push([a, b, c]);
    }
    auxv.truncate(na);
    let mut order: Vec<bool> = vec![];
    let (mut i, mut a) = (0, 0);
    while i < ni || a < na {
        let take = i < ni && (a >= na || r.next() % 2 == 0);
        order.push(take);
        if take { i += 1 } else { a += 1 }
    }
    Spec::new(order, inp, auxv, cons)
}
/// Trapdoor choices (rotated through by index); tau is set separately.
pub fn traps<F: TF>() -> Vec<Trap<F>> {
    let f = |x: u64| F::from(x);
    [(1, 1, 2, 3, 1, 1), (2, 3, 5, 7, 11, 13), (1, 5, 4, 4, 4, 4), (3, 1, 1, 1, 6, 9), (4, 2, 20, 3, 8, 1), (1, 1, 0, 5, 2, 3), (1, 2, 6, 0, 3, 2)]
        .iter()
        .map(|t: &(u64, u64, u64, u64, u64, u64)| Trap { g1: f(t.0), g2: f(t.1), alpha: f(t.2), beta: f(t.3), gamma: f(t.4), delta: f(t.5), tau: F::ZERO })
        .collect()
}
pub fn blinds<F: TF>() -> Vec<(F, F)> {
    let f = |x: u64| F::from(x);
    vec![(f(0), f(0)), (f(1), f(0)), (f(0), f(1)), (f(2), f(3)), (-f(1), f(5)), (f(7), -f(1)), (f(9), f(9))]
}
/// The k-th non-exceptional trapdoor of the circuit for the rotation index, if there is one.
pub fn pick_trap<F: TF>(s: &Spec<F>, idx: usize, k: usize) -> Option<(Trap<F>, Qap<F>)> {
    let mut t = traps::<F>()[(idx / 3) % 7].clone();
    let mut r = SplitMix((idx as u64) << 8 | k as u64);
    for _ in 0..60 {
        t.tau = F::random(&mut r);
        let q = qap(s, t.tau);
        if !q.exceptional(&t) {
            return Some((t, q));
        }
    }
    None
}

/// A satisfied circuit whose A (and, every other constraint, B) combines `width` terms: consecutive variables
/// (`repeat` 0), one variable again and again with a total that is not zero (1) or is zero (2), or alternating pairs (3).
pub fn broad<F: TF>(ni: usize, na: usize, nc: usize, width: usize, repeat: usize) -> Spec<F> {
    let inp: Vec<F> = (0..ni).map(|i| F::from(3 * i as u64 + 2)).collect();
    let auxv: Vec<F> = (0..na).map(|i| match i % 5 { 1 => F::ZERO, 3 => F::ONE, _ => F::from(7 * i as u64 + 5) }).collect();
    let vars: Vec<V> = (0..=ni).map(input).chain((0..na).map(aux)).collect();
    let spec = Spec::new(vec![], inp.clone(), auxv.clone(), vec![]);
    let n = vars.len();
    let mut cons: Vec<Con<F>> = vec![];
    for j in 0..nc {
        let lc = |o: usize| -> Lc<F> {
            (0..width).map(|k| match repeat {
                0 => (vars[(o + k) % n], F::from(k as u64 % 11 + 1)),
                1 => (vars[o % n], F::from(k as u64 % 3 + 1)),
                2 => (vars[o % n], if k + 1 == width { -F::from(width as u64 - 1) } else { F::ONE }),
                _ => (vars[(o + k % 2) % n], if k % 4 < 2 { F::from(2) } else { -F::ONE }),
            }).collect()
        };
        let a = lc(j);
        let b = if j % 2 == 0 { lc(j + n / 2) } else { vec![(vars[(j + 1) % n], F::from(3)), (0, F::ONE)] };
        let prod = spec.eval(&a) * spec.eval(&b);
        let mut c: Lc<F> = vec![];
        if na > 0 { c.push((aux(j % na), F::ONE)); }
        let have = spec.eval(&c);
        c.push((0, prod - have));
        cons.push([a, b, c]);
    }
    let order = (0..ni + na).map(|k| if ni == 0 { false } else if na == 0 { true } else { k * ni / (ni + na) != (k + 1) * ni / (ni + na) }).collect();
    Spec::new(order, inp, auxv, cons)
}
/// Circuits around sizes at which something could change: domain sizes, many variables of either kind, long combinations.
pub fn scale(thorough: bool) -> Vec<(String, Spec<Gold>)> {
    let mut v: Vec<(String, Spec<Gold>)> = vec![];
    for k in 5..if thorough { 19 } else { 17 } {
        for d in [-1i64, 0, 1] {
            let total = ((1i64 << k) + d) as usize;
            let ni = [2, total / 3, 0][(k + d + 1) as usize % 3];
            let nc = total - ni - 1;
            let na = [nc, nc / 2, 1, nc.min(40)][(k + d + 1) as usize % 4].min(nc);
            v.push((format!("{} constraints, {} inputs, {} private", total, ni, na), broad(ni, na, nc, 2, 0)));
        }
    }
    let mut ws: Vec<usize> = (0..=20).collect();
    ws.extend([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1023, 1024, 1025]);
    for w in ws { for rep in 0..4 { if w > 0 || rep == 0 {
        let na = if rep == 0 { w / 2 + 3 } else { 5 };
        v.push((format!("combinations of {} terms, kind {}", w, rep), broad(if rep == 0 { w / 2 + 2 } else { 4 }, na, na.min(300).max(na), w, rep)));
    } } }
    for (ni, na) in [(0usize, 63usize), (0, 64), (0, 65), (63, 1), (64, 1), (65, 1), (0, 255), (0, 256), (0, 257), (254, 2), (255, 2), (256, 2), (1023, 4), (1024, 4), (4, 2047), (4, 2048), (4, 2049), (1500, 1500)] {
        v.push((format!("{} inputs, {} private", ni, na), broad(ni, na, na, 3, 0)));
    }
    v
}
