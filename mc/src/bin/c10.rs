//! C10: EvaluationDomain transforms against the polynomial definitions.
use bellman::domain::{EvaluationDomain, Group as DGroup, Point, Scalar};
use bellman::multicore::Worker;
use bellman::SynthesisError;
use ff::{Field, PrimeField};
use mc::report::Ctx;
use mc::toy::*;

/// Elements the domain is run over, with their discrete logarithm.
trait El<F: TF>: DGroup<F> {
    fn of(f: F) -> Self;
    fn log(&self) -> F;
}
impl<F: TF> El<F> for Scalar<F> {
    fn of(f: F) -> Self { Scalar(f) }
    fn log(&self) -> F { self.0 }
}
impl<F: TF> El<F> for Point<P1<F>> {
    fn of(f: F) -> Self { Point(P1(f)) }
    fn log(&self) -> F { self.0 .0 }
}

fn omega<F: PrimeField>(exp: u32) -> F {
    let mut w = F::ROOT_OF_UNITY;
    for _ in exp..F::S {
        w = w.square();
    }
    w
}
/// a'[i] = sum_j a[j] (shift * w^i)^j, by Horner.
fn naive<F: PrimeField>(a: &[F], w: F, shift: F) -> Vec<F> {
    let mut x = shift;
    (0..a.len())
        .map(|_| {
            let r = a.iter().rev().fold(F::ZERO, |acc, c| acc * x + c);
            x *= w;
            r
        })
        .collect()
}
/// Independent recursive transform (cross-checked against `naive` for small sizes).
fn rec_fft<F: PrimeField>(a: &[F], w: F) -> Vec<F> {
    let n = a.len();
    if n == 1 {
        return a.to_vec();
    }
    let e: Vec<F> = a.iter().step_by(2).cloned().collect();
    let o: Vec<F> = a.iter().skip(1).step_by(2).cloned().collect();
    let (e, o) = (rec_fft(&e, w.square()), rec_fft(&o, w.square()));
    let mut r = vec![F::ZERO; n];
    let mut x = F::ONE;
    for i in 0..n {
        r[i] = e[i % (n / 2)] + x * o[i % (n / 2)];
        x *= w;
    }
    r
}
fn logs<F: TF, D: El<F>>(d: &EvaluationDomain<F, D>) -> Vec<F> {
    d.as_ref().iter().map(|x| x.log()).collect()
}
fn dom<F: TF, D: El<F>>(a: &[F]) -> Result<EvaluationDomain<F, D>, String> {
    EvaluationDomain::from_coeffs(a.iter().map(|x| D::of(*x)).collect()).map_err(|e| format!("from_coeffs({}) failed: {}", a.len(), e))
}
fn diff<F: TF>(what: &str, got: &[F], want: &[F]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{}: length {} instead of {}", what, got.len(), want.len()));
    }
    match got.iter().zip(want).position(|(a, b)| a != b) {
        None => Ok(()),
        Some(i) => Err(format!("{}: coefficient {} of {} is {:?}, expected {:?}", what, i, got.len(), got[i], want[i])),
    }
}

/// All single-vector operations on `a` (|a| a power of two within the field's capacity).
fn ops<F: TF, D: El<F>>(a: &[F], w: &Worker, big: bool) -> Result<(), String> {
    let n = a.len();
    let exp = n.trailing_zeros();
    let om = omega::<F>(exp);
    let g = F::MULTIPLICATIVE_GENERATOR;
    let shifted: Vec<F> = {
        let mut p = F::ONE;
        a.iter().map(|x| { let r = *x * p; p *= g; r }).collect()
    };
    let (ev, cev) = if big { (rec_fft(a, om), rec_fft(&shifted, om)) } else { (naive(a, om, F::ONE), naive(a, om, g)) };
    let mut d = dom::<F, D>(a)?;
    d.fft(w);
    diff("fft", &logs(&d), &ev)?;
    d.ifft(w);
    diff("ifft(fft)", &logs(&d), a)?;
    let mut d = dom::<F, D>(&ev)?;
    d.ifft(w);
    diff("ifft", &logs(&d), a)?;
    let mut d = dom::<F, D>(a)?;
    d.coset_fft(w);
    diff("coset_fft", &logs(&d), &cev)?;
    let zg = g.pow_vartime(&[n as u64]) - F::ONE;
    if !zg.is_zero_vartime() {
        let zi = zg.invert().unwrap();
        let want: Vec<F> = cev.iter().map(|x| *x * zi).collect();
        let mut e = dom::<F, D>(&cev)?;
        e.divide_by_z_on_coset(w);
        diff("divide_by_z_on_coset", &logs(&e), &want)?;
    }
    d.icoset_fft(w);
    diff("icoset_fft", &logs(&d), a)?;
    let mut d = dom::<F, D>(a)?;
    d.distribute_powers(w, g);
    diff("distribute_powers(g)", &logs(&d), &shifted)?;
    Ok(())
}
/// Two-operand operations.
fn ops2<F: TF, D: El<F>>(a: &[F], b: &[F], w: &Worker) -> Result<(), String> {
    let mut x = dom::<F, D>(a)?;
    let y = dom::<F, Scalar<F>>(b)?;
    x.mul_assign(w, &y);
    let want: Vec<F> = a.iter().zip(b).map(|(p, q)| *p * q).collect();
    diff("mul_assign", &logs(&x), &want)?;
    let mut x = dom::<F, D>(a)?;
    let y = dom::<F, D>(b)?;
    x.sub_assign(w, &y);
    let want: Vec<F> = a.iter().zip(b).map(|(p, q)| *p - q).collect();
    diff("sub_assign", &logs(&x), &want)?;
    diff("into_coeffs", &x.into_coeffs().iter().map(|v| v.log()).collect::<Vec<_>>(), &want)
}
fn polymul<F: TF>(a: &[F], b: &[F], w: &Worker) -> Result<(), String> {
    let n = (a.len() + b.len()).max(1);
    let mut want = vec![F::ZERO; n.next_power_of_two()];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            want[i + j] += *x * y;
        }
    }
    let pad = |v: &[F]| { let mut v = v.to_vec(); v.resize(n, F::ZERO); v };
    let mut x = dom::<F, Scalar<F>>(&pad(a))?;
    let mut y = dom::<F, Scalar<F>>(&pad(b))?;
    x.fft(w);
    y.fft(w);
    x.mul_assign(w, &y);
    x.ifft(w);
    diff("polynomial product", &logs(&x), &want)
}

fn basis<F: TF, D: El<F>>(cx: &Ctx, fname: &str, maxexp: u32, w: &Worker) {
    for exp in 0..=maxexp {
        let n = 1usize << exp;
        for j in 0..n {
            if cx.failed() { return; }
            let mut e = vec![F::ZERO; n];
            e[j] = F::ONE;
            let om = omega::<F>(exp);
            let (wj, g) = (om.pow_vartime(&[j as u64]), F::MULTIPLICATIVE_GENERATOR);
            cx.check(8, || format!("{} basis exp={} j={}", fname, exp, j), || {
                let col = |c: F| { let mut p = c; (0..n).map(|_| { let r = p; p *= wj; r }).collect::<Vec<F>>() };
                let mut d = dom::<F, D>(&e)?;
                d.fft(w);
                diff("fft", &logs(&d), &col(F::ONE))?;
                d.ifft(w);
                diff("ifft(fft)", &logs(&d), &e)?;
                d.coset_fft(w);
                diff("coset_fft", &logs(&d), &col(g.pow_vartime(&[j as u64])))?;
                d.icoset_fft(w);
                diff("icoset_fft(coset_fft)", &logs(&d), &e)
            });
        }
    }
    cx.bound(&format!("{} basis vectors", fname), format!("every e_j of every size 2^0..2^{}", maxexp));
}
fn dense<F: TF, D: El<F>>(cx: &Ctx, fname: &str, lo: u32, hi: u32, w: &Worker) {
    for exp in lo..=hi {
        let n = 1usize << exp;
        let mut r = SplitMix(exp as u64 + 1);
        let mut vs: Vec<Vec<F>> = vec![(0..n).map(|_| r.f()).collect(), vec![-F::ONE; n]];
        if n > 2 {
            vs.push((0..n).map(|i| if i % 3 == 0 { F::ZERO } else { r.f() }).collect());
            // nothing, halves of zeros, periodic and symmetric vectors
            if n <= 1 << 12 {
                let x: Vec<F> = (0..n).map(|_| r.f()).collect();
                vs.push(vec![F::ZERO; n]);
                vs.push((0..n).map(|i| if i < n / 2 { x[i] } else { F::ZERO }).collect());
                vs.push((0..n).map(|i| if i < n / 2 { F::ZERO } else { x[i] }).collect());
                vs.push((0..n).map(|i| x[i % 2]).collect());
                vs.push((0..n).map(|i| x[i % (n / 2)]).collect());
                vs.push((0..n).map(|i| if i < n / 2 { x[i] } else { -x[i - n / 2] }).collect());
                vs.push((0..n).map(|i| x[i.min(n - 1 - i)]).collect());
                vs.push((0..n).map(|i| if i % 2 == 0 { x[i] } else { F::ZERO }).collect());
            }
        }
        for (k, v) in vs.iter().enumerate() {
            if cx.failed() { return; }
            cx.check(8, || format!("{} dense exp={} v={}", fname, exp, k), || ops::<F, D>(v, w, n > 256));
            cx.check(3, || format!("{} dense2 exp={} v={}", fname, exp, k), || ops2::<F, D>(v, &vs[(k + 1) % vs.len()], w));
        }
    }
    cx.bound(&format!("{} dense vectors", fname), format!("sizes 2^{}..2^{}", lo, hi));
}
/// Vectors with a closed form (single coefficients, geometric progressions), every value of the transforms checked.
fn large<F: TF, D: El<F>>(cx: &Ctx, fname: &str, lo: u32, hi: u32, w: &Worker) {
    for exp in lo..=hi {
        let n = 1usize << exp;
        let (om, g) = (omega::<F>(exp), F::MULTIPLICATIVE_GENERATOR);
        for j in [0, 1, 2, 3, n / 4 + 1, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1] {
            if cx.failed() { return; }
            cx.check(6, || format!("{} single coefficient {} of 2^{}", fname, j, exp), || {
                let (wj, gj) = (om.pow_vartime(&[j as u64]), g.pow_vartime(&[j as u64]));
                let is = |what: &str, d: &EvaluationDomain<F, D>, c: F, q: F| {
                    let mut p = c;
                    for (k, x) in d.as_ref().iter().enumerate() { if x.log() != p { return Err(format!("{} of x^{}: value {} is {:?} instead of {:?}", what, j, k, x.log(), p)); } p *= q; }
                    Ok(())
                };
                let back = |what: &str, d: &EvaluationDomain<F, D>| match d.as_ref().iter().enumerate().find(|(k, x)| x.log() != if *k == j { F::ONE } else { F::ZERO }) { None => Ok(()), Some((k, x)) => Err(format!("{}: coefficient {} is {:?}", what, k, x.log())) };
                let mut e = vec![F::ZERO; n];
                e[j] = F::ONE;
                let mut d = dom::<F, D>(&e)?;
                d.fft(w);
                is("fft", &d, F::ONE, wj)?;
                d.ifft(w);
                back("ifft(fft)", &d)?;
                d.coset_fft(w);
                is("coset_fft", &d, gj, wj)?;
                d.icoset_fft(w);
                back("icoset_fft(coset_fft)", &d)
            });
        }
        if cx.failed() { return; }
        cx.check(6, || format!("{} geometric progression of 2^{}", fname, exp), || {
            // sum (c x)^k = ((c x)^n - 1) / (c x - 1)
            let c = F::from(n as u64 + 12345);
            let a: Vec<F> = { let mut p = F::ONE; (0..n).map(|_| { let r = p; p *= c; r }).collect() };
            let is = |what: &str, d: &EvaluationDomain<F, D>, g: F| {
                let mut x = c * g;
                let top = x.pow_vartime(&[n as u64]) - F::ONE;
                for (k, v) in d.as_ref().iter().enumerate() { if v.log() * (x - F::ONE) != top { return Err(format!("{}: value {} of a geometric progression", what, k)); } x *= om; }
                Ok(())
            };
            let mut d = dom::<F, D>(&a)?;
            d.fft(w);
            is("fft", &d, F::ONE)?;
            d.ifft(w);
            diff("ifft(fft)", &logs(&d), &a)?;
            d.coset_fft(w);
            is("coset_fft", &d, g)?;
            let zi = (g.pow_vartime(&[n as u64]) - F::ONE).invert();
            if bool::from(zi.is_some()) {
                let want: Vec<F> = logs(&d).iter().map(|x| *x * zi.unwrap()).collect();
                let mut e = dom::<F, D>(&logs(&d))?;
                e.divide_by_z_on_coset(w);
                diff("divide_by_z_on_coset", &logs(&e), &want)?;
            }
            d.icoset_fft(w);
            diff("icoset_fft(coset_fft)", &logs(&d), &a)?;
            ops2::<F, D>(&a, &want_shift(&a), w)
        });
    }
    cx.bound(&format!("{} large", fname), format!("sizes 2^{}..2^{}: ten single coefficients and a geometric progression, every value", lo, hi));
}
fn want_shift<F: TF>(a: &[F]) -> Vec<F> { a.iter().rev().cloned().collect() }
/// Every vector of length n over a small field; every pair of short polynomials.
fn exhaustive<const P: u64>(cx: &Ctx, n: usize, w: &Worker) {
    let total = (P as u64).pow(n as u32);
    for i in 0..total {
        if cx.failed() { return; }
        let mut k = i;
        let v: Vec<Fp<P>> = (0..n).map(|_| { let r = Fp(k % P); k /= P; r }).collect();
        cx.check(8, || format!("F{} all n={} #{}", P, n, i), || {
            ops::<Fp<P>, Scalar<Fp<P>>>(&v, w, false)?;
            let h = n / 2;
            if h > 0 { polymul(&v[..h], &v[h..], w)?; ops2::<Fp<P>, Scalar<Fp<P>>>(&v[..h], &v[h..], w)?; }
            Ok(())
        });
    }
    cx.bound(&format!("F{} exhaustive n={}", P, n), total);
}
fn construct<const P: u64>(cx: &Ctx, w: &Worker) {
    let s = <Fp<P> as PrimeField>::S;
    let max = (1usize << s) + 3;
    for len in 0..=max.min(300).max(0) {
        construct_one::<P>(cx, len, w);
    }
    for len in [max - 5, max - 4, max - 3, max - 2, max - 1, max, (1 << (s - 1)) - 1, 1 << (s - 1), (1 << (s - 1)) + 1, (1 << s) * 2, (1 << s) * 2 + 1] {
        construct_one::<P>(cx, len, w);
    }
    cx.bound(&format!("F{} construction", P), format!("every length 0..={} and around 2^{}", max.min(300), s));
}
fn construct_one<const P: u64>(cx: &Ctx, len: usize, w: &Worker) {
    let s = <Fp<P> as PrimeField>::S;
    if cx.failed() { return; }
    cx.check(2, || format!("F{} construct len={}", P, len), || {
        let v: Vec<Fp<P>> = (0..len).map(|i| Fp::new(1 + i as u64 * 3)).collect();
        let mut exp = 0;
        while (1usize << exp) < len { exp += 1; }
        match EvaluationDomain::<Fp<P>, _>::from_coeffs(v.iter().map(|x| Scalar(*x)).collect::<Vec<_>>()) {
            Ok(d) => {
                if exp > s { return Err(format!("domain of size 2^{} accepted although S = {}", exp, s)); }
                let mut want = v.clone();
                want.resize(1 << exp, Fp(0));
                diff("padding", &logs(&d), &want)?;
                for t in [Fp::<P>::new(0), Fp::new(1), Fp::new(2), Fp::new(P - 1), <Fp<P> as PrimeField>::MULTIPLICATIVE_GENERATOR] {
                    let want = t.pow_vartime(&[1u64 << exp]) - Fp::new(1);
                    if d.z(&t) != want { return Err(format!("z({:?}) = {:?}, expected {:?} (size 2^{})", t, d.z(&t), want, exp)); }
                }
                if exp == s || len < 70 {
                    // everything that is accepted must work
                    ops::<Fp<P>, Scalar<Fp<P>>>(&want, w, exp > 8)?;
                    let mut d = d;
                    d.divide_by_z_on_coset(w);
                }
                Ok(())
            }
            Err(SynthesisError::PolynomialDegreeTooLarge) => if exp < s { Err(format!("size 2^{} refused although S = {}", exp, s)) } else { Ok(()) },
            Err(e) => Err(format!("unexpected error {}", e)),
        }
    });
}

fn main() {
    let cx = Ctx::new("C10");
    let w = Worker::new();
    let t = cx.thorough;
    match cx.part.as_str() {
        "basis" => {
            basis::<Gold, Scalar<Gold>>(&cx, "Goldilocks", cx.tier(10, 12), &w);
            basis::<Bls, Scalar<Bls>>(&cx, "BLS12-381 scalar", cx.tier(7, 9), &w);
            basis::<F12289, Point<P1<F12289>>>(&cx, "points over F12289", cx.tier(7, 10), &w);
        }
        "dense" => {
            dense::<Gold, Scalar<Gold>>(&cx, "Goldilocks", 0, cx.tier(17, 20), &w);
            dense::<Bls, Scalar<Bls>>(&cx, "BLS12-381 scalar", 0, cx.tier(13, 17), &w);
            dense::<F12289, Point<P1<F12289>>>(&cx, "points over F12289", 0, 11, &w);
            dense::<Bls, Point<P1<Bls>>>(&cx, "points over BLS12-381 scalar", 0, cx.tier(8, 12), &w);
        }
        "large" => {
            large::<Gold, Scalar<Gold>>(&cx, "Goldilocks", 4, cx.tier(20, 22), &w);
            large::<Bls, Scalar<Bls>>(&cx, "BLS12-381 scalar", 4, cx.tier(16, 19), &w);
            large::<F12289, Point<P1<F12289>>>(&cx, "points over F12289", 4, 11, &w);
        }
        "exhaustive" => {
            exhaustive::<5>(&cx, 1, &w);
            exhaustive::<5>(&cx, 2, &w);
            exhaustive::<17>(&cx, 1, &w);
            exhaustive::<17>(&cx, 2, &w);
            exhaustive::<17>(&cx, 4, &w);
            exhaustive::<97>(&cx, 2, &w);
            if t {
                exhaustive::<41>(&cx, 4, &w);
                exhaustive::<257>(&cx, 2, &w);
            }
        }
        "construct" => {
            construct::<3>(&cx, &w);
            construct::<5>(&cx, &w);
            construct::<7>(&cx, &w);
            construct::<13>(&cx, &w);
            construct::<17>(&cx, &w);
            construct::<97>(&cx, &w);
            construct::<193>(&cx, &w);
            construct::<257>(&cx, &w);
            construct::<12289>(&cx, &w);
            construct::<64513>(&cx, &w);
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| format!("part {}: fft/ifft/coset_fft/icoset_fft/distribute_powers/divide_by_z of each listed vector compared with Horner evaluation", cx.part));
    cx.finish();
}
