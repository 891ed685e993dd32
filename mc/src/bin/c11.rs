//! C11: multiexp against the naive sum, with exact error conditions.
use bellman::multicore::Worker;
use bellman::multiexp::{multiexp, DensityTracker, Exponent, FullDensity, QueryDensity, Source, SourceBuilder};
use bellman::SynthesisError;
use ff::{Field, PrimeField, PrimeFieldBits};
use group::prime::PrimeCurveAffine;
use mc::report::{par_for, Ctx};
use mc::toy::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

fn tracker(mask: &[bool]) -> Arc<DensityTracker> {
    let mut t = DensityTracker::new();
    for _ in mask {
        t.add_element();
    }
    for (i, b) in mask.iter().enumerate() {
        if *b {
            t.inc(i);
        }
    }
    Arc::new(t)
}

/// Reference: walk the dense positions, consuming bases from `off`.
fn model<F: TF>(bases: &[F], off: usize, exps: &[F], mask: Option<&[bool]>) -> Result<F, (bool, bool)> {
    let (mut ident, mut eof) = (false, false);
    let mut pos = off;
    let mut acc = F::ZERO;
    for (i, e) in exps.iter().enumerate() {
        if mask.map_or(true, |m| m[i]) {
            match bases.get(pos) {
                None => eof = true,
                Some(b) => {
                    if b.is_zero_vartime() && !e.is_zero_vartime() {
                        ident = true;
                    }
                    acc += *b * e;
                }
            }
            pos += 1;
        }
    }
    if ident || eof {
        Err((ident, eof))
    } else {
        Ok(acc)
    }
}

fn run<F: TF>(w: &Worker, bases: &[F], off: usize, exps: &[F], mask: Option<&[bool]>) -> Result<F, SynthesisError> {
    let b = Arc::new(bases.iter().map(|x| P1(*x)).collect::<Vec<_>>());
    let e = Arc::new(exps.iter().map(|x| Exponent::from(*x)).collect::<Vec<_>>());
    let r: Result<P1<F>, _> = match mask {
        None => multiexp(w, (b, off), FullDensity, e).wait(),
        Some(m) => multiexp(w, (b, off), tracker(m), e).wait(),
    };
    r.map(|p| p.0)
}

fn judge<F: TF>(got: Result<F, SynthesisError>, want: Result<F, (bool, bool)>) -> Result<(), String> {
    match (got, want) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Ok(a), Ok(b)) => Err(format!("sum {:?}, expected {:?}", a, b)),
        (Err(SynthesisError::UnexpectedIdentity), Err((true, _))) => Ok(()),
        (Err(SynthesisError::IoError(e)), Err((_, true))) if e.kind() == std::io::ErrorKind::UnexpectedEof => Ok(()),
        (Ok(_), Err((i, e))) => Err(format!("returned a sum although identity={} missing={}", i, e)),
        (Err(e), Ok(_)) => Err(format!("unexpected error {}", e)),
        (Err(e), Err((i, f))) => Err(format!("wrong error {} (identity={} missing={})", e, i, f)),
    }
}

/// All exponent vectors over `alphabet`, all density masks, offsets, base shortages and identities.
fn small<F: TF>(cx: &Ctx, name: &str, n: usize, alphabet: &[F], threads: usize) {
    let k = alphabet.len();
    let total = k.pow(n as u32);
    par_for(total, threads, |i| {
        if cx.failed() {
            return;
        }
        let w = Worker::new();
        let mut x = i;
        let exps: Vec<F> = (0..n).map(|_| { let e = alphabet[x % k]; x /= k; e }).collect();
        let mut r = SplitMix(77);
        let full: Vec<F> = (0..n + 2).map(|_| loop { let b: F = r.f2(); if !b.is_zero_vartime() { break b; } }).collect();
        let go = |bases: &[F], off: usize, mask: Option<&[bool]>, tag: &str| {
            cx.check(1, || format!("{} n={} exps={:?} {} off={} bases={} mask={:?}", name, n, exps, tag, off, bases.len(), mask), || judge(run(&w, bases, off, &exps, mask), model(bases, off, &exps, mask)));
        };
        for m in 0..(1usize << n) {
            let mask: Vec<bool> = (0..n).map(|b| m >> b & 1 == 1).collect();
            let dens = m.count_ones() as usize;
            go(&full, 0, Some(&mask), "");
            go(&full, 1, Some(&mask), "");
            go(&full[..dens], 0, Some(&mask), "exact");
            if dens > 0 {
                go(&full[..dens - 1], 0, Some(&mask), "short");
                go(&full[..1], 1, Some(&mask), "short");
            }
            for z in 0..dens {
                let mut b = full[..dens + 1].to_vec();
                b[z] = F::ZERO;
                go(&b, 0, Some(&mask), "identity");
            }
        }
        go(&full, 0, None, "full");
        go(&full, 2, None, "full");
        if n > 0 {
            go(&full, 3, None, "full short");
        }
    });
    cx.bound(&format!("{} n={}", name, n), format!("{} exponent vectors x 2^{} density masks x offsets/shortages/identity positions", total, n));
}
trait F2x {
    fn f2<F: PrimeField>(&mut self) -> F;
}
impl F2x for SplitMix {
    fn f2<F: PrimeField>(&mut self) -> F {
        F::random(self)
    }
}

/// Every window size: each chunk position and bucket value, plus every n across the size boundaries.
fn windows<F: TF>(cx: &Ctx, name: &str, sizes: &[usize], threads: usize) {
    par_for(sizes.len(), threads, |si| {
        let n = sizes[si];
        if cx.failed() {
            return;
        }
        let w = Worker::new();
        let mut r = SplitMix(n as u64);
        let bases: Vec<F> = (0..n).map(|_| loop { let b: F = r.f2(); if !b.is_zero_vartime() { break b; } }).collect();
        let c = if n < 32 { 3usize } else { (n as f64).ln().ceil() as usize };
        let nb = F::NUM_BITS as usize;
        let two = |k: usize| F::from(2u64).pow_vartime(&[k as u64]);
        let mut vecs: Vec<(String, Vec<F>)> = vec![
            ("random".into(), (0..n).map(|_| r.f2()).collect()),
            ("all r-1".into(), vec![-F::ONE; n]),
            ("zero/one/random".into(), (0..n).map(|i| match i % 3 { 0 => F::ZERO, 1 => F::ONE, _ => r.f2() }).collect()),
            ("bits".into(), (0..n).map(|i| two(i % nb)).collect()),
        ];
        if n > 1 && n <= 4096 {
            // equal and opposite bases, equal and opposite exponents, alone and together
            let g: F = bases[0];
            let bs: Vec<(&str, Vec<F>)> = vec![("equal bases", vec![g; n]), ("opposite bases", (0..n).map(|i| if i % 2 == 0 { g } else { -g }).collect()), ("pairs of bases", (0..n).map(|i| bases[i / 2]).collect()), ("doubling bases", { let mut p = g; (0..n).map(|_| { let r = p; p = p.double(); r }).collect() })];
            let e0: F = r.f2();
            let es: Vec<(&str, Vec<F>)> = vec![("equal exponents", vec![e0; n]), ("opposite exponents", (0..n).map(|i| if i % 2 == 0 { e0 } else { -e0 }).collect()), ("small exponents", (0..n).map(|i| F::from(i as u64 % 3)).collect()), ("counting exponents", (0..n).map(|i| F::from(i as u64)).collect()), ("other exponents", (0..n).map(|_| r.f2()).collect())];
            for (bn, b) in &bs { for (en, e) in &es {
                if b.iter().any(|x| x.is_zero_vartime()) { continue; }
                let mask: Vec<bool> = (0..n).map(|i| i % 5 != 1).collect();
                cx.check(2, || format!("{} size={} {} {}", name, n, bn, en), || { judge(run(&w, b, 0, e, None), model(b, 0, e, None))?; judge(run(&w, b, 0, e, Some(&mask)), model(b, 0, e, Some(&mask))) });
            } }
        }
        let all = n <= 31 || [32, 54, 55, 148, 149, 403, 404].contains(&n);
        if all {
            for ch in 0..(nb + c - 1) / c {
                // all bucket values of this chunk, rotating through the positions
                vecs.push((format!("chunk {}", ch), (0..n).map(|i| F::from(1 + (i as u64 % ((1 << c) - 1))) * two(ch * c)).collect()));
            }
        }
        for (t, e) in &vecs {
            if cx.failed() {
                return;
            }
            cx.check(1, || format!("{} size={} {} full", name, n, t), || judge(run(&w, &bases, 0, e, None), model(&bases, 0, e, None)));
            let mask: Vec<bool> = (0..n).map(|i| i % 7 != 3 && i % 2 == 0 || i + 1 == n).collect();
            cx.check(1, || format!("{} size={} {} masked", name, n, t), || judge(run(&w, &bases, 0, e, Some(&mask)), model(&bases, 0, e, Some(&mask))));
        }
        // an identity / a missing base at the last, first and middle position
        if n > 0 && (n <= 64 || all) {
            for z in [0, n / 2, n - 1] {
                let mut b = bases.clone();
                b[z] = F::ZERO;
                let e = &vecs[0].1;
                cx.check(1, || format!("{} size={} identity at {}", name, n, z), || judge(run(&w, &b, 0, e, None), model(&b, 0, e, None)));
                cx.check(1, || format!("{} size={} only {} bases", name, n, z), || judge(run(&w, &bases[..z], 0, e, None), model(&bases[..z], 0, e, None)));
                let mut e = vecs[0].1.clone();
                e[z] = F::ZERO;
                cx.check(1, || format!("{} size={} skipped identity at {}", name, n, z), || judge(run(&w, &b, 0, &e, None), model(&b, 0, &e, None)));
            }
        }
    });
    cx.bound(&format!("{} sizes", name), format!("{} lengths from {} to {}", sizes.len(), sizes[0], sizes[sizes.len() - 1]));
}

/// One exponent of every value of the field, and two of every pair for the small ones.
fn values<const P: u64>(cx: &Ctx, pairs: bool) {
    let w = Worker::new();
    for a in 0..P {
        if cx.failed() {
            return;
        }
        let e = [Fp::<P>(a)];
        cx.check(1, || format!("F{} exponent {}", P, a), || judge(run(&w, &[Fp::new(2)], 0, &e, None), Ok(Fp::new(2) * e[0])));
        if pairs {
            for b in 0..P {
                let e = [Fp::<P>(a), Fp(b)];
                cx.check(1, || format!("F{} exponents {} {}", P, a, b), || judge(run(&w, &[Fp::new(1), Fp::new(3)], 0, &e, None), Ok(e[0] + Fp::new(3) * e[1])));
            }
        }
    }
    cx.bound(&format!("F{} exponents", P), if pairs { "every pair" } else { "every value" });
}

/// All operation sequences on a source and on a density tracker.
fn sequences(cx: &Ctx) {
    type F = F97;
    for len in 0..=3usize {
        for off in 0..=len + 1 {
            for idm in 0..(1u32 << len) {
                for depth in 0..=4u32 {
                    for code in 0..2u32.pow(depth) {
                        let bases: Vec<P1<F>> = (0..len).map(|i| P1(if idm >> i & 1 == 1 { F::ZERO } else { Fp::new(i as u64 + 2) })).collect();
                        cx.check(depth as u64, || format!("source len={} off={} identities={:b} ops={:0w$b}", len, off, idm, code, w = depth as usize), || {
                            let mut s = (Arc::new(bases.clone()), off).build();
                            let mut pos = off;
                            for k in 0..depth {
                                let missing = pos >= len;
                                if code >> k & 1 == 0 {
                                    match s.next() {
                                        Ok(b) if !missing && *b == bases[pos] && !bool::from(PrimeCurveAffine::is_identity(b)) => pos += 1,
                                        Err(SynthesisError::UnexpectedIdentity) if !missing && bool::from(PrimeCurveAffine::is_identity(&bases[pos])) => return Ok(()),
                                        Err(SynthesisError::IoError(_)) if missing => return Ok(()),
                                        _ => return Err(format!("next() at {} wrong", pos)),
                                    }
                                } else {
                                    match s.skip(1) {
                                        Ok(()) if !missing => pos += 1,
                                        Err(SynthesisError::IoError(_)) if missing => return Ok(()),
                                        _ => return Err(format!("skip() at {} wrong", pos)),
                                    }
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    // density tracker: ops = add or inc(i), every sequence
    fn go(cx: &Ctx, hist: &mut Vec<usize>, n: usize, depth: usize) {
        cx.check(hist.len() as u64 + 1, || format!("tracker ops={:?}", hist), || {
            let mut t = DensityTracker::new();
            let mut m: Vec<bool> = vec![];
            for o in hist.iter() {
                if *o == usize::MAX { t.add_element(); m.push(false); } else { t.inc(*o); m[*o] = true; }
            }
            let got: Vec<bool> = QueryDensity::iter(&t).collect();
            if got != m || t.get_total_density() != m.iter().filter(|b| **b).count() || QueryDensity::get_query_size(&t) != Some(m.len()) {
                return Err(format!("tracker {:?} total {}, expected {:?}", got, t.get_total_density(), m));
            }
            Ok(())
        });
        if depth == 0 { return; }
        hist.push(usize::MAX);
        go(cx, hist, n + 1, depth - 1);
        hist.pop();
        for i in 0..n {
            hist.push(i);
            go(cx, hist, n, depth - 1);
            hist.pop();
        }
    }
    go(cx, &mut vec![], 0, cx.tier(7, 9));
    cx.bound("tracker", format!("every sequence of add_element/inc up to depth {}", cx.tier(7, 9)));
    cx.bound("source", "every next/skip sequence to depth 4 over sources of length 0..3 with every identity pattern and offset");
}

/// Bases whose `fail`-th operation (counted over all sources built from them) fails, all others work.
#[derive(Clone)]
struct Flaky<F: TF> { v: Arc<Vec<P1<F>>>, pos: usize, ops: Arc<AtomicUsize>, fail: usize, io: bool }
impl<F: TF> Flaky<F> {
    fn op(&self) -> Result<(), SynthesisError> {
        if self.ops.fetch_add(1, SeqCst) != self.fail { return Ok(()); }
        Err(if self.io { std::io::Error::new(std::io::ErrorKind::Other, "planted").into() } else { SynthesisError::Unsatisfiable })
    }
}
impl<F: TF> SourceBuilder<P1<F>> for Flaky<F> { type Source = Self; fn build(self) -> Self { self } }
impl<F: TF> Source<P1<F>> for Flaky<F> {
    fn next(&mut self) -> Result<&P1<F>, SynthesisError> { self.op()?; self.pos += 1; Ok(&self.v[self.pos - 1]) }
    fn skip(&mut self, n: usize) -> Result<(), SynthesisError> { self.op()?; self.pos += n; Ok(()) }
}
/// An error of the source in any one of its operations is returned.
fn errors<F: TF>(cx: &Ctx, name: &str, alphabet: &[F], n: usize) {
    let (w, k) = (Worker::new(), alphabet.len());
    for code in 0..k.pow(n as u32) {
        for m in 0..1u32 << n {
            let exps: Vec<F> = (0..n).map(|i| alphabet[code / k.pow(i as u32) % k]).collect();
            let mask: Vec<bool> = (0..n).map(|i| m >> i & 1 == 1).collect();
            let go = |fail: usize, io: bool| {
                let ops = Arc::new(AtomicUsize::new(0));
                let b = Flaky { v: Arc::new((0..n).map(|i| P1(F::from(i as u64 + 2))).collect()), pos: 0, ops: ops.clone(), fail, io };
                let e = Arc::new(exps.iter().map(|x| Exponent::from(*x)).collect::<Vec<_>>());
                let r: Result<P1<F>, _> = if m + 1 == 1 << n && io { multiexp(&w, b, FullDensity, e).wait() } else { multiexp(&w, b, tracker(&mask), e).wait() };
                (r, ops.load(SeqCst))
            };
            let (_, total) = go(usize::MAX, true);
            for fail in 0..=total {
                for io in [true, false] {
                    if cx.failed() { return; }
                    cx.check(1, || format!("{} exps={:?} mask={:b} operation {} of {} fails io={}", name, exps, m, fail, total, io), || match go(fail, io).0 {
                        Ok(_) if fail < total => Err("a sum came out although the source failed".into()),
                        Err(e) if fail == total => Err(format!("error {} although nothing failed", e)),
                        Err(SynthesisError::IoError(e)) if io && e.kind() == std::io::ErrorKind::Other => Ok(()),
                        Err(SynthesisError::Unsatisfiable) if !io => Ok(()),
                        Err(e) => Err(format!("the source's error became {}", e)),
                        Ok(p) => { let want = exps.iter().zip(&mask).filter(|(_, d)| **d).enumerate().map(|(i, (e, _))| F::from(i as u64 + 2) * e).sum::<F>(); if p.0 == want { Ok(()) } else { Err(format!("sum {:?}, expected {:?}", p.0, want)) } }
                    });
                }
            }
        }
    }
    cx.bound(&format!("{} failing operations n={}", name, n), "every single operation on the source failing by itself, in every exponent vector and density mask");
}

fn curve<C: group::prime::PrimeCurve>(cx: &Ctx, name: &str, ns: &[usize]) where C::Scalar: PrimeFieldBits {
    let w = Worker::new();
    for &n in ns {
        if cx.failed() { return; }
        let mut r = SplitMix(n as u64 + 9);
        let g = C::generator();
        let bases: Vec<<C as group::prime::PrimeCurve>::Affine> = (0..n).map(|_| (g * C::Scalar::random(&mut r)).to_affine()).collect();
        let exps: Vec<C::Scalar> = (0..n).map(|i| match i % 5 { 0 => C::Scalar::ZERO, 1 => C::Scalar::ONE, 2 => -C::Scalar::ONE, _ => C::Scalar::random(&mut r) }).collect();
        cx.check(1, || format!("{} n={}", name, n), || {
            let want = bases.iter().zip(&exps).fold(C::identity(), |a, (b, e)| a + b.to_curve() * *e);
            let e = Arc::new(exps.iter().map(|x| Exponent::from(*x)).collect::<Vec<_>>());
            let got: C = multiexp(&w, (Arc::new(bases.clone()), 0), FullDensity, e).wait().map_err(|e| e.to_string())?;
            if got != want { return Err("wrong sum".into()); }
            Ok(())
        });
    }
    cx.bound(name, format!("lengths {:?}", ns));
}

fn main() {
    let cx = Ctx::new("C11");
    let th: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let t = cx.thorough;
    let al = |m: u64| -> Vec<F12289> { [0u64, 1, 7, 8, m - 1, m - 2, 4096 + 512 + 9].iter().map(|x| Fp::new(*x)).collect() };
    match cx.part.as_str() {
        "small" => {
            for n in 0..=cx.tier(4, 5) {
                small::<F12289>(&cx, "F12289", n, &al(12289), th);
            }
            for n in 0..=cx.tier(4, 5) {
                small::<F5>(&cx, "F5", n, &F5::all().collect::<Vec<_>>(), th);
            }
            small::<F97>(&cx, "F97", 2, &F97::all().collect::<Vec<_>>(), th);
            for n in 0..=3 {
                small::<Bls>(&cx, "BLS12-381 scalar", n, &[Bls::ZERO, Bls::ONE, -Bls::ONE, Bls::from(8).pow_vartime(&[84u64, 0, 0, 0])], th);
            }
        }
        "tiny" => {
            for n in 0..=2 {
                small::<F12289>(&cx, "F12289", n, &al(12289), th);
            }
            small::<F5>(&cx, "F5", 3, &F5::all().collect::<Vec<_>>(), th);
        }
        "windows" => {
            let mut s: Vec<usize> = (0..=cx.tier(160, 1100)).collect();
            s.extend([403, 404, 1096, 1097, 1098, 2980, 2981, 8103, 8104, 22026, 22027]);
            windows::<Gold>(&cx, "Goldilocks", &s, th);
            windows::<F65537>(&cx, "F65537", &s, th);
            let mut s: Vec<usize> = (0..=cx.tier(60, 200)).collect();
            s.extend([148, 149, 403, 404, 1096, 1097]);
            windows::<Bls>(&cx, "BLS12-381 scalar", &s, th);
            // past every 16-bit count, and the next two window sizes
            windows::<F65537>(&cx, "F65537 large", &[59874, 59875, 65535, 65536, 65537, 162754, 162755], th);
            windows::<Gold>(&cx, "Goldilocks large", &[65536, 65537, 1 << 17], th);
            if cx.thorough { windows::<Gold>(&cx, "Goldilocks larger", &[(1 << 18) + 1, 442413, 442414, 1 << 20], th); windows::<Bls>(&cx, "BLS12-381 scalar large", &[2980, 2981, 8103, 8104, 22026, 22027, 65537], th); }
            windows::<F5>(&cx, "F5", &[0, 1, 2, 31, 32, 33, 54, 55, 200], th);
            windows::<F257>(&cx, "F257", &[0, 1, 2, 31, 32, 33, 54, 55, 200, 500], th);
        }
        "winpar" => {
            let s = [0usize, 1, 5, 31, 32, 33, 54, 55, 148, 149, 404, 1097];
            windows::<Gold>(&cx, "Goldilocks", &s, 1);
            windows::<Bls>(&cx, "BLS12-381 scalar", &s[..9], 1);
        }
        "values" => {
            values::<5>(&cx, true);
            values::<7>(&cx, true);
            values::<11>(&cx, true);
            values::<13>(&cx, true);
            values::<17>(&cx, true);
            values::<97>(&cx, true);
            values::<257>(&cx, true);
            values::<12289>(&cx, false);
            values::<65537>(&cx, false);
        }
        "sequences" => sequences(&cx),
        "errors" => {
            for n in 1..=cx.tier(2, 3) {
                errors::<F12289>(&cx, "F12289", &al(12289), n);
            }
            errors::<F5>(&cx, "F5", &F5::all().collect::<Vec<_>>(), 3);
            errors::<Gold>(&cx, "Goldilocks", &[Gold::ZERO, Gold::ONE, -Gold::ONE, Gold::from(8).pow_vartime(&[9u64])], 2);
        }
        "curve" => {
            let ns: Vec<usize> = if t { (0..=60).chain([149, 404]).collect() } else { vec![0, 1, 2, 5, 31, 32, 55] };
            curve::<bls12_381::G1Projective>(&cx, "BLS12-381 G1", &ns);
            curve::<bls12_381::G2Projective>(&cx, "BLS12-381 G2", &ns[..ns.len() - 1]);
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| format!("part {}: multiexp(bases, exponents, density, offset) compared with the naive sum and the set of permitted errors", cx.part));
    cx.finish();
}
