//! C12 on real pools and without the multicore feature: results of the same inputs, which the
//! driver compares between all configurations.
use bellman::domain::{EvaluationDomain, Point, Scalar};
use bellman::multicore::Worker;
use bellman::multiexp::{multiexp, DensityTracker, Exponent, FullDensity};
use bls12_381::Bls12;
use ff::{Field, PrimeField};
use group::{Curve, Group};
use groth16::{create_proof, generate_parameters, prepare_verifying_key, verify_proof};
use mc::groth::*;
use mc::report::Ctx;
use mc::toy::*;
use std::sync::Arc;

fn transforms<G: bellman::domain::Group<F>, F: TF>(v: Vec<G>, show: impl Fn(&G) -> String) -> String {
    let w = Worker::new();
    let mut out = String::new();
    let mut d = match EvaluationDomain::from_coeffs(v) {
        Ok(d) => d,
        Err(e) => return format!("{}", e),
    };
    let mut dump = |d: &EvaluationDomain<F, G>| d.as_ref().iter().for_each(|x| out += &show(x));
    d.fft(&w);
    dump(&d);
    d.ifft(&w);
    dump(&d);
    d.coset_fft(&w);
    dump(&d);
    d.divide_by_z_on_coset(&w);
    dump(&d);
    d.icoset_fft(&w);
    dump(&d);
    d.distribute_powers(&w, F::MULTIPLICATIVE_GENERATOR + F::ONE);
    dump(&d);
    out
}
fn two<F: TF>(n: usize) -> String {
    let w = Worker::new();
    let mut r = SplitMix(n as u64);
    let mut mk = |n: usize| EvaluationDomain::from_coeffs((0..n).map(|_| Scalar(F::random(&mut r))).collect::<Vec<_>>()).unwrap();
    let (mut a, b, c) = (mk(n), mk(n), mk(n));
    a.mul_assign(&w, &b);
    a.sub_assign(&w, &c);
    a.as_ref().iter().map(|x| format!("{:?}", x.0)).collect()
}
fn fft(cx: &Ctx) {
    let dense = cx.tier(200usize, 600);
    let lens = (0..dense).chain([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096]).chain(cx.tier(vec![], vec![8192, 16384, 20000]));
    for n in lens {
        let v: Vec<Scalar<Gold>> = { let mut r = SplitMix(n as u64 + 1); (0..n).map(|_| Scalar(Gold::random(&mut r))).collect() };
        cx.result(6 * n as u64, format!("transforms scalars {}", n), move || transforms(v, |x| format!("{:?}", x.0)));
        let v: Vec<Point<P1<F12289>>> = { let mut r = SplitMix(n as u64 + 2); (0..n).map(|_| Point(P1(F12289::random(&mut r)))).collect() };
        cx.result(6 * n as u64, format!("transforms points {}", n), move || transforms(v, |x| format!("{:?}", x.0)));
        cx.result(3 * n as u64, format!("two operands {}", n), || two::<Gold>(n));
    }
    for n in [1usize, 2, 3, 5, 8, 16, 33] {
        cx.result(6 * n as u64, format!("transforms BLS12-381 scalars {}", n), || {
            let mut r = SplitMix(n as u64);
            let w = Worker::new();
            let mut d = EvaluationDomain::from_coeffs((0..n).map(|_| Scalar(bls12_381::Scalar::random(&mut r))).collect::<Vec<_>>()).unwrap();
            d.coset_fft(&w);
            d.divide_by_z_on_coset(&w);
            d.icoset_fft(&w);
            format!("{:?}", d.as_ref().iter().map(|x| x.0).collect::<Vec<_>>())
        });
    }
    cx.bound("fft", "every length to 200 (600) and around powers of two to 4096 (20000), scalars and points");
}
fn mexp(cx: &Ctx) {
    let lens: Vec<usize> = (0..cx.tier(80usize, 200)).chain([100, 255, 256, 257, 1000, 1097, 2981, 2982, 5000]).chain(cx.tier(vec![], vec![8103, 8104, 22027])).collect();
    for n in lens {
        for shape in 0..7u32 {
            for fault in 0..3usize {
                if fault > 0 && (n == 0 || n > 300) {
                    continue;
                }
                cx.result(n as u64, format!("multiexp n={} shape={} fault={}", n, shape, fault), || {
                    let mut r = SplitMix(n as u64 * 7 + shape as u64);
                    let on = |i: usize| match shape { 1 => i % 2 == 0, 2 => i + 1 == n, 3 => i % 5 != 1, 4 => i < n / 2, _ => true };
                    let ex: Vec<Gold> = (0..n).map(|i| match shape { 5 => Gold::from((i % 3) as u64), 6 => -Gold::ONE, _ => Gold::random(&mut r) }).collect();
                    let off = if shape == 3 { 2 } else { 0 };
                    let dense = (0..n).filter(|i| shape == 0 || on(*i)).count();
                    let mut b: Vec<P1<Gold>> = (0..dense + off).map(|_| P1(Gold::random(&mut r))).collect();
                    if fault == 1 { b.truncate((off + dense).saturating_sub(1)); }
                    if fault == 2 && off + dense > 0 { let k = off + dense / 2; if k < b.len() { b[k] = P1(Gold::ZERO); } }
                    let e = Arc::new(ex.iter().map(|x| Exponent::from(*x)).collect::<Vec<_>>());
                    let w = Worker::new();
                    let got: Result<P1<Gold>, _> = if shape == 0 {
                        multiexp(&w, (Arc::new(b), off), FullDensity, e).wait()
                    } else {
                        let mut t = DensityTracker::new();
                        for i in 0..n { t.add_element(); if on(i) { t.inc(i); } }
                        multiexp(&w, (Arc::new(b), off), Arc::new(t), e).wait()
                    };
                    match got { Ok(p) => format!("{:?}", p), Err(e) => format!("error {}", e) }
                });
            }
        }
    }
    for n in [0usize, 1, 2, 31, 32, 33, 70] {
        cx.result(n as u64, format!("multiexp BLS12-381 n={}", n), || {
            let mut r = SplitMix(n as u64);
            let b: Vec<bls12_381::G1Affine> = (0..n).map(|_| (bls12_381::G1Projective::generator() * bls12_381::Scalar::random(&mut r)).to_affine()).collect();
            let e: Vec<Exponent<bls12_381::Scalar>> = (0..n).map(|_| Exponent::from(bls12_381::Scalar::random(&mut r))).collect();
            let got: Result<bls12_381::G1Projective, _> = multiexp(&Worker::new(), (Arc::new(b), 0), FullDensity, Arc::new(e)).wait();
            format!("{:?}", got.map(|p| p.to_affine()).map_err(|e| e.to_string()))
        });
    }
    cx.bound("multiexp", "every length to 80 (200) and around window boundaries to 5000 (22027), seven shapes, single faults");
}
fn circuits(cx: &Ctx) {
    let mut sizes: Vec<(usize, usize, usize)> = vec![];
    for ni in 0..3 { for na in 1..4 { for nc in 0..cx.tier(10, 20) { sizes.push((ni, na, nc)); } } }
    sizes.extend([(0, 5, 31), (1, 17, 32), (2, 40, 33), (5, 64, 64), (1, 65, 100), (20, 3, 7), (3, 129, 127), (1, 300, 256), (4, 513, 600), (1, 1000, 1024)]);
    if cx.thorough { sizes.extend([(7, 1030, 2000), (1, 4096, 4096), (33, 5000, 3000)]); }
    for (ni, na, nc) in sizes {
        let s = chain::<Gold>(ni, na, nc, (ni * 7 + na * 3 + nc) as u64);
        let t = Trap { g1: Gold::new(3), g2: Gold::new(5), alpha: Gold::new(7), beta: Gold::new(11), gamma: Gold::new(13), delta: Gold::new(17), tau: Gold::new(0x1234_5678_9abc) };
        let gen = |s: &Spec<Gold>| generate_parameters::<Toy<Gold>, _>(s.unknown(), P1(t.g1), P2(t.g2), t.alpha, t.beta, t.gamma, t.delta, t.tau);
        cx.result((na + nc) as u64, format!("generate {} {} {}", ni, na, nc), || match gen(&s) { Ok(p) => { let mut v = vec![]; p.write(&mut v).unwrap(); format!("{:?}", v) } Err(e) => e.to_string() });
        for wrong in [false, true] {
            cx.result((na + nc) as u64, format!("prove {} {} {} wrong={}", ni, na, nc, wrong), || {
                let mut s = s.clone();
                let p = match gen(&s) { Ok(p) => p, Err(e) => return format!("no parameters: {}", e) };
                if wrong && na > 0 { s.aux[na - 1] += Gold::ONE; }
                let proof = match create_proof::<Toy<Gold>, _, _>(s.clone(), &p, Gold::new(23), Gold::new(29)) { Ok(p) => p, Err(e) => return e.to_string() };
                let v = verify_proof(&prepare_verifying_key(&p.vk), &proof, &s.inp[..]).is_ok();
                format!("{} {:?}", v, proof)
            });
        }
        // Too few elements in one query: an error in every configuration.
        for q in 0..5 {
            cx.result(1, format!("prove {} {} {} short query {}", ni, na, nc, q), || {
                let mut p = match gen(&s) { Ok(p) => p, Err(e) => return format!("no parameters: {}", e) };
                fn cut<T: Clone>(v: &mut Arc<Vec<T>>) { let mut w = v.to_vec(); w.pop(); *v = Arc::new(w); }
                match q { 0 => cut(&mut p.h), 1 => cut(&mut p.l), 2 => cut(&mut p.a), 3 => cut(&mut p.b_g1), _ => cut(&mut p.b_g2) }
                match create_proof::<Toy<Gold>, _, _>(s.clone(), &p, Gold::new(23), Gold::new(29)) { Ok(p) => format!("{:?}", p), Err(_) => "error".into() }
            });
        }
    }
    for (i, (ni, na, nc)) in [(0usize, 1usize, 1usize), (1, 3, 5), (2, 9, 17)].into_iter().enumerate() {
        cx.result(1, format!("BLS12-381 circuit {}", i), || {
            let s = chain::<bls12_381::Scalar>(ni, na, nc, 9);
            let f = |x: u64| bls12_381::Scalar::from(x);
            let p = generate_parameters::<Bls12, _>(s.unknown(), bls12_381::G1Projective::generator(), bls12_381::G2Projective::generator(), f(7), f(11), f(13), f(17), f(0x123456789)).unwrap();
            let mut v = vec![];
            p.write(&mut v).unwrap();
            create_proof::<Bls12, _, _>(s, &p, f(3), f(4)).unwrap().write(&mut v).unwrap();
            format!("{:?}", v)
        });
    }
    cx.bound("circuits", "chains of up to 1024 (4096) constraints, right and wrong witnesses, short parameters; a few circuits on BLS12-381");
}
fn main() {
    let cx = Ctx::new("C12");
    match cx.part.as_str() {
        "fft" => fft(&cx),
        "multiexp" => mexp(&cx),
        "circuits" => circuits(&cx),
        p => panic!("no part {}", p),
    }
    cx.sample(|| format!("part {}, parallel: {}", cx.part, cfg!(feature = "par")));
    cx.finish();
}
