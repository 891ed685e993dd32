//! C25: what the prover asks of a parameter source, and what the parameters themselves hand out.
use bellman::multiexp::{Source, SourceBuilder};
use bellman::SynthesisError;
use ff::Field;
use groth16::{create_proof, ParameterSource, Parameters, Proof, VerifyingKey};
use mc::groth::*;
use mc::report::{guard, par_for, Ctx};
use mc::toy::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

type Log = Arc<Mutex<Vec<(&'static str, usize, usize)>>>;
/// Exactly the elements of one part of a query; counts how far any reader has gone.
struct Window<G> { v: Arc<Vec<G>>, far: Arc<AtomicUsize>, over: Arc<AtomicUsize> }
impl<G> Clone for Window<G> { fn clone(&self) -> Self { Window { v: self.v.clone(), far: self.far.clone(), over: self.over.clone() } } }
impl<G> Window<G> { fn new(v: Vec<G>) -> Self { Window { v: Arc::new(v), far: Default::default(), over: Default::default() } } }
struct Reader<G> { w: Window<G>, pos: usize }
impl<G> Reader<G> {
    fn reach(&mut self, n: usize) -> Result<(), SynthesisError> {
        if self.pos + n > self.w.v.len() {
            self.w.over.fetch_add(1, Ordering::SeqCst);
            return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "more elements than were asked for").into());
        }
        self.pos += n;
        self.w.far.fetch_max(self.pos, Ordering::SeqCst);
        Ok(())
    }
}
macro_rules! source { ($g:ident) => {
    impl<F: TF> SourceBuilder<$g<F>> for Window<$g<F>> { type Source = Reader<$g<F>>; fn build(self) -> Self::Source { Reader { w: self, pos: 0 } } }
    impl<F: TF> Source<$g<F>> for Reader<$g<F>> {
        fn next(&mut self) -> Result<&$g<F>, SynthesisError> { self.reach(1)?; Ok(&self.w.v[self.pos - 1]) }
        fn skip(&mut self, n: usize) -> Result<(), SynthesisError> { self.reach(n) }
    }
} }
source!(P1);
source!(P2);
/// A source that holds only what it is told is needed: every window is cut from the full query by the counts in the call.
struct Exact<F: TF> { p: Parameters<Toy<F>>, log: Log, g1: Arc<Mutex<Vec<(&'static str, Window<P1<F>>)>>>, g2: Arc<Mutex<Vec<(&'static str, Window<P2<F>>)>>> }
fn cut<G: Clone>(v: &[G], at: usize, n: usize) -> Result<Vec<G>, SynthesisError> {
    v.get(at..at + n).map(|x| x.to_vec()).ok_or_else(|| std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "a larger count than there are elements").into())
}
impl<F: TF> Exact<F> {
    fn one(&self, name: &'static str, v: &[P1<F>], at: usize, n: usize) -> Result<Window<P1<F>>, SynthesisError> { let w = Window::new(cut(v, at, n)?); self.g1.lock().unwrap().push((name, w.clone())); Ok(w) }
    fn two(&self, name: &'static str, v: &[P2<F>], at: usize, n: usize) -> Result<Window<P2<F>>, SynthesisError> { let w = Window::new(cut(v, at, n)?); self.g2.lock().unwrap().push((name, w.clone())); Ok(w) }
}
impl<F: TF> ParameterSource<Toy<F>> for Exact<F> {
    type G1Builder = Window<P1<F>>;
    type G2Builder = Window<P2<F>>;
    fn get_vk(&mut self, n: usize) -> Result<VerifyingKey<Toy<F>>, SynthesisError> {
        self.log.lock().unwrap().push(("vk", n, 0));
        let mut vk = self.p.vk.clone();
        vk.ic = cut(&vk.ic, 0, n)?;
        Ok(vk)
    }
    fn get_h(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> { self.log.lock().unwrap().push(("h", n, 0)); self.one("h", &self.p.h, 0, n) }
    fn get_l(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> { self.log.lock().unwrap().push(("l", n, 0)); self.one("l", &self.p.l, 0, n) }
    fn get_a(&mut self, i: usize, a: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> { self.log.lock().unwrap().push(("a", i, a)); Ok((self.one("a inputs", &self.p.a, 0, i)?, self.one("a private", &self.p.a, i, a)?)) }
    fn get_b_g1(&mut self, i: usize, a: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> { self.log.lock().unwrap().push(("b_g1", i, a)); Ok((self.one("b_g1 inputs", &self.p.b_g1, 0, i)?, self.one("b_g1 private", &self.p.b_g1, i, a)?)) }
    fn get_b_g2(&mut self, i: usize, a: usize) -> Result<(Self::G2Builder, Self::G2Builder), SynthesisError> { self.log.lock().unwrap().push(("b_g2", i, a)); Ok((self.two("b_g2 inputs", &self.p.b_g2, 0, i)?, self.two("b_g2 private", &self.p.b_g2, i, a)?)) }
}
fn asked<F: TF>(s: &Spec<F>, q: &Qap<F>, t: &Trap<F>, r: F, sc: F) -> Result<(), String> {
    let p = model_params(q, t);
    let (log, g1, g2): (Log, Arc<Mutex<Vec<(&'static str, Window<P1<F>>)>>>, Arc<Mutex<Vec<(&'static str, Window<P2<F>>)>>>) = Default::default();
    let src = Exact { p: p.clone(), log: log.clone(), g1: g1.clone(), g2: g2.clone() };
    let got: Result<Proof<Toy<F>>, _> = create_proof(s.clone(), src, r, sc);
    let want = model_proof(s, q, t, r, sc);
    let n = |d: &[bool], a: usize, b: usize| d[a..b].iter().filter(|x| **x).count();
    let all = q.ni + q.na;
    let (bi, ba) = (n(&q.dv, 0, q.ni), n(&q.dv, q.ni, all));
    let mut calls = vec![("vk", q.ni, 0), ("h", q.m - 1, 0), ("l", q.na, 0), ("a", q.ni, n(&q.du, q.ni, all)), ("b_g1", bi, ba), ("b_g2", bi, ba)];
    let mut log = log.lock().unwrap().clone();
    calls.sort_unstable();
    log.sort_unstable();
    log.dedup();
    if log != calls { return Err(format!("asked for {:?} instead of {:?}", log, calls)); }
    for (name, w) in g1.lock().unwrap().iter() { if w.over.load(Ordering::SeqCst) > 0 { return Err(format!("{}: read past the elements asked for", name)); } }
    for (name, w) in g2.lock().unwrap().iter() { if w.over.load(Ordering::SeqCst) > 0 { return Err(format!("{}: read past the elements asked for", name)); } }
    match got { Ok(p) if proof_eq(&p, &want) => Ok(()), Ok(p) => Err(format!("proof {:?}, definition gives {:?}", p, want)), Err(e) => Err(format!("proving failed: {}", e)) }
}
fn constrained<F: TF>(s: &Spec<F>) -> bool {
    (0..s.aux.len()).all(|i| s.cons.iter().any(|c| c.iter().any(|l| nlc(l).iter().any(|(v, _)| *v == aux(i)))))
}
fn family<F: TF>(cx: &Ctx, fam: Fam, th: usize) {
    circuits::<F>(fam, true, th, &|| cx.failed(), &|s, idx| {
        if !constrained(&s) { return; }
        if let Some((t, q)) = pick_trap(&s, idx, 0) {
            let (r, sc) = blinds::<F>()[idx % 7];
            cx.check(6, || format!("order={:?} inp={:?} aux={:?} cons={:?} {:?}", s.order, s.inp, s.aux, s.cons, t), || asked(&s, &q, &t, r, sc));
        }
    });
    cx.bound(&format!("inputs={} private={} constraints={}", fam.ni, fam.na, fam.nc), format!("every satisfied circuit over the level-{} library, {} witness values", fam.level, fam.alphabet));
}
// ---- the parameters as a source
/// The first `need` elements of `want` must be there; what follows may be there too (in order) or be an end.
fn walk<G: Clone + PartialEq + std::fmt::Debug + group::prime::PrimeCurveAffine, B: SourceBuilder<G>>(what: &str, b: &B, want: &[G], need: usize) -> Result<(), String> {
    let need = need.min(want.len());
    // every way of reading or skipping the first elements, then reading on to the end
    for mask in 0..1u32 << want.len().min(3) {
        let mut s = b.clone().build();
        let mut ended = false;
        for (k, w) in want.iter().enumerate() {
            if k < 3 && mask >> k & 1 == 1 {
                if let Err(e) = s.skip(1) { if k < need { return Err(format!("{}: skip of element {}: {}", what, k, e)); } ended = true; break; }
                continue;
            }
            match s.next() { Ok(x) if x == w => {} Err(_) if k >= need => { ended = true; break; } r => return Err(format!("{}: element {} is {:?}", what, k, r.map_err(|e| e.to_string()))) }
        }
        if !ended && s.next().is_ok() { return Err(format!("{}: more elements than {}", what, want.len())); }
    }
    // one skip of every length, then the next element
    for n in 0..=want.len() {
        let mut s = b.clone().build();
        if let Err(e) = s.skip(n) { if n < need { return Err(format!("{}: skip({}): {}", what, n, e)); } continue; }
        match (s.next(), want.get(n)) { (Ok(x), Some(w)) if x == w => {} (Err(_), _) if n >= need => {} (r, _) => return Err(format!("{}: after skip({}): {:?}", what, n, r.map_err(|e| e.to_string()))) }
    }
    Ok(())
}
fn handed<F: TF>(cx: &Ctx, sizes: &[usize], th: usize) {
    let n = sizes.len();
    par_for(n * n * n, th, |i| {
        let (x, y, z) = (sizes[i % n], sizes[i / n % n], sizes[i / n / n]);
        // all elements are different
        let mut k = 0;
        let mut f = || { k += 1; F::from(k) };
        let mut v1 = |n: usize| Arc::new((0..n).map(|_| P1(f())).collect::<Vec<_>>());
        let (h, l, a, b_g1) = (v1(x), v1(y), v1(z), v1(x));
        let ic = v1(y).to_vec();
        let e = v1(3);
        let b_g2: Arc<Vec<P2<F>>> = Arc::new((0..z).map(|_| P2(f())).collect());
        let vk = VerifyingKey::<Toy<F>> { alpha_g1: e[0], beta_g1: e[1], beta_g2: P2(f()), gamma_g2: P2(f()), delta_g1: e[2], delta_g2: P2(f()), ic };
        let p = Parameters { vk, h, l, a, b_g1, b_g2 };
        cx.check(6, || format!("vectors of {} {} {} elements", x, y, z), || {
            let mut src = &p;
            if src.get_vk(y).map_err(|e| e.to_string())? != p.vk { return Err(format!("get_vk({})", y)); }
            for c in 0..=x { walk(&format!("get_h({})", c), &src.get_h(c).map_err(|e| e.to_string())?, &p.h, c)?; }
            for c in 0..=y { walk(&format!("get_l({})", c), &src.get_l(c).map_err(|e| e.to_string())?, &p.l, c)?; }
            for c in 0..=x.max(z) {
                for d in 0..=x.max(z) {
                    if c + d <= z { let (s, t) = src.get_a(c, d).map_err(|e| e.to_string())?; walk(&format!("get_a({}, {}) inputs", c, d), &s, &p.a, c)?; walk(&format!("get_a({}, {}) private", c, d), &t, &p.a[c..], d)?; }
                    if c + d <= x { let (s, t) = src.get_b_g1(c, d).map_err(|e| e.to_string())?; walk(&format!("get_b_g1({}, {}) inputs", c, d), &s, &p.b_g1, c)?; walk(&format!("get_b_g1({}, {}) private", c, d), &t, &p.b_g1[c..], d)?; }
                    if c + d <= z { let (s, t) = src.get_b_g2(c, d).map_err(|e| e.to_string())?; walk(&format!("get_b_g2({}, {}) inputs", c, d), &s, &p.b_g2, c)?; walk(&format!("get_b_g2({}, {}) private", c, d), &t, &p.b_g2[c..], d)?; }
                }
            }
            // counts beyond the vectors: an error or a source that ends, but no other element
            guard(|| if let Ok((_, t)) = src.get_a(z + 1, 1) { t.build().next().is_err() } else { true }).and_then(|b| if b { Ok(()) } else { Err("get_a past the end".into()) })
        });
    });
    cx.bound(&format!("{} parameters as a source", std::any::type_name::<F>().rsplit("::").next().unwrap()), format!("all {} combinations of vector lengths {:?}, every count, every skip", n * n * n, sizes));
}
fn main() {
    let cx = Ctx::new("C25");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let fam = |ni, na, nc, level, all_orders, alphabet| Fam { ni, na, nc, level, all_orders, alphabet };
    match cx.part.as_str() {
        "small" => {
            for ni in 0..=3 { family::<F97>(&cx, fam(ni, 0, 0, 0, true, 2), th); }
            family::<F97>(&cx, fam(0, 1, 1, 2, true, 2), th);
            family::<F97>(&cx, fam(1, 0, 1, 2, true, 2), th);
            family::<F97>(&cx, fam(1, 1, 1, cx.tier(1, 2), true, 2), th);
            family::<F97>(&cx, fam(0, 2, 1, cx.tier(1, 2), true, 2), th);
            family::<F97>(&cx, fam(1, 2, 1, 0, true, 2), th);
            family::<F97>(&cx, fam(2, 1, 1, 0, true, 2), th);
            family::<F97>(&cx, fam(0, 1, 2, 0, true, 2), th);
            if cx.thorough { family::<F193>(&cx, fam(1, 1, 2, 0, true, 2), th); }
        }
        "chains" => {
            let mut n = 0usize;
            for ni in 0..=cx.tier(4, 10usize) { for na in 0..=cx.tier(8, 20usize) { for extra in [0usize, 1, 2, 3, 5, 9] {
                if cx.failed() { break; }
                let s = chain::<F12289>(ni, na, na + extra, 19);
                if let Some((t, q)) = pick_trap(&s, n, 0) {
                    let (r, sc) = blinds::<F12289>()[n % 7];
                    cx.check(6, || format!("chain {} {} {} {:?}", ni, na, na + extra, t), || asked(&s, &q, &t, r, sc));
                }
                n += 1;
            } } }
            let all = scale(cx.thorough);
            par_for(all.len(), th, |i| {
                let (name, s) = &all[all.len() - 1 - i];
                if cx.failed() { return; }
                let (t, q) = match pick_trap(s, i, 0) { Some(x) => x, None => { cx.violation(name.clone(), "no trapdoor found"); return; } };
                cx.check(6, || format!("{} {:?}", name, t), || asked(s, &q, &t, Gold::new(5), Gold::new(6)));
            });
            cx.bound("chains", format!("{} chains and {} circuits of notable sizes", n, all.len()));
        }
        "handed" => {
            handed::<Gold>(&cx, &[0, 1, 2, 3, 5, 8], th);
            handed::<Gold>(&cx, &[1, 63, 64, 65], th);
            if cx.thorough { handed::<Gold>(&cx, &[0, 1, 127, 128, 255, 256, 257], th); handed::<F12289>(&cx, &[0, 1, 2, 3, 4, 5, 6, 7, 8], th); }
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| "chain of 2 inputs and 3 private variables: vk 3, h m-1, l 3, a (3, dense private in A), b_g1 and b_g2 (dense inputs, dense private in B); a source with no element more gives the same proof".into());
    cx.finish();
}
