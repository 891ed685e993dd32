//! C08: serialisation round trips under every chunking; writer errors; equality.
use groth16::{Parameters, Proof, VerifyingKey};
use mc::faulty::*;
use mc::groth::*;
use mc::report::Ctx;
use mc::serobj;
use mc::toy::*;
use std::io::ErrorKind;
use std::sync::Arc;

trait Obj: Sized + Clone + PartialEq {
    fn put(&self, w: &mut FWriter) -> std::io::Result<()>;
    fn get(r: &mut FReader, checked: bool) -> std::io::Result<Self>;
    fn same(&self, o: &Self) -> Result<(), String>;
}
type E<F> = Toy<F>;
fn vk_same<F: TF>(a: &VerifyingKey<E<F>>, b: &VerifyingKey<E<F>>) -> bool {
    a.alpha_g1.0 == b.alpha_g1.0 && a.beta_g1.0 == b.beta_g1.0 && a.beta_g2.0 == b.beta_g2.0 && a.gamma_g2.0 == b.gamma_g2.0 && a.delta_g1.0 == b.delta_g1.0 && a.delta_g2.0 == b.delta_g2.0 && a.ic.len() == b.ic.len() && a.ic.iter().zip(&b.ic).all(|(x, y)| x.0 == y.0)
}
impl<F: TF> Obj for Proof<E<F>> {
    fn put(&self, w: &mut FWriter) -> std::io::Result<()> { self.write(w) }
    fn get(r: &mut FReader, _: bool) -> std::io::Result<Self> { Self::read(r) }
    fn same(&self, o: &Self) -> Result<(), String> { if proof_eq(self, o) { Ok(()) } else { Err(format!("{:?} != {:?}", self, o)) } }
}
impl<F: TF> Obj for VerifyingKey<E<F>> {
    fn put(&self, w: &mut FWriter) -> std::io::Result<()> { self.write(w) }
    fn get(r: &mut FReader, _: bool) -> std::io::Result<Self> { Self::read(r) }
    fn same(&self, o: &Self) -> Result<(), String> { if vk_same(self, o) { Ok(()) } else { Err("verifying keys differ".into()) } }
}
impl<F: TF> Obj for Parameters<E<F>> {
    fn put(&self, w: &mut FWriter) -> std::io::Result<()> { self.write(w) }
    fn get(r: &mut FReader, c: bool) -> std::io::Result<Self> { Self::read(r, c) }
    fn same(&self, o: &Self) -> Result<(), String> { eq_params(self, o) }
}
fn bytes<T: Obj>(o: &T) -> Result<Vec<u8>, String> {
    let mut w = FWriter::new(Fault::None);
    o.put(&mut w).map_err(|e| format!("write failed: {}", e))?;
    Ok(w.data)
}
fn roundtrip<T: Obj>(o: &T, wf: &Fault, rf: &Fault) -> Result<(), String> {
    let b = bytes(o)?;
    let mut w = FWriter::new(wf.clone());
    o.put(&mut w).map_err(|e| format!("write under {:?} failed: {}", wf, e))?;
    if w.data != b { return Err(format!("write under {:?} gives other bytes", wf)); }
    let mut tail = b.clone();
    tail.extend_from_slice(&[0xAA; 7]);
    for checked in [true, false] {
        let mut r = FReader::new(&tail, rf.clone());
        let x = T::get(&mut r, checked).map_err(|e| format!("read under {:?} failed: {}", rf, e))?;
        x.same(o)?;
        if !(x == *o) { return Err("the object read is not == the one written".into()); }
        if r.pos != b.len() { return Err(format!("{} bytes consumed of {}", r.pos, b.len())); }
        if bytes(&x)? != b { return Err("writing again gives other bytes".into()); }
    }
    Ok(())
}
fn faults<T: Obj>(cx: &Ctx, name: &str, o: &T) {
    let b = bytes(o).unwrap_or_default();
    for p in patterns(cx.tier(4, 5), &[0, 1, 2, 7, 40]) {
        if cx.failed() { return; }
        cx.check(3, || format!("{} chunking {:?}", name, p), || roundtrip(o, &Fault::Pattern(p.clone()), &Fault::Pattern(p.clone())));
    }
    for k in 1..=b.len() + 1 {
        cx.check(3, || format!("{} chunks of {}", name, k), || roundtrip(o, &Fault::Max(k), &Fault::Max(k)));
    }
    for at in 0..b.len() {
        for kind in [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof] {
            cx.check(1, || format!("{} writer error {:?} at {}", name, kind, at), || {
                match o.put(&mut FWriter::new(Fault::Error(at, kind))) { Err(e) if e.kind() == kind => Ok(()), r => Err(format!("{:?}", r)) }
            });
            // An error that goes away by itself must be reported all the same.
            cx.check(1, || format!("{} writer error {:?} at {}, once", name, kind, at), || {
                let mut w = FWriter::new(Fault::once(at, kind));
                match o.put(&mut w) { Err(_) => Ok(()), Ok(_) if w.data == b => Ok(()), r => Err(format!("{:?} although {} of {} bytes were written", r, w.data.len(), b.len())) }
            });
            cx.check(1, || format!("{} reader error {:?} at {}, once", name, kind, at), || {
                match T::get(&mut FReader::new(&b, Fault::once(at, kind)), true) { Err(_) => Ok(()), Ok(ref x) if x == o => Ok(()), Ok(_) => Err("another object".into()) }
            });
        }
        cx.check(1, || format!("{} writer full at {}", name, at), || {
            match o.put(&mut FWriter::new(Fault::Stop(at))) { Err(_) => Ok(()), r => Err(format!("{:?}", r)) }
        });
        cx.check(1, || format!("{} writer full at {}, once", name, at), || {
            let mut w = FWriter::new(Fault::stop_once(at));
            match o.put(&mut w) { Err(_) => Ok(()), Ok(_) if w.data == b => Ok(()), r => Err(format!("{:?} although {} of {} bytes were written", r, w.data.len(), b.len())) }
        });
        cx.check(1, || format!("{} reader stops at {}, once", name, at), || {
            match T::get(&mut FReader::new(&b, Fault::stop_once(at)), true) { Err(_) => Ok(()), Ok(ref x) if x == o => Ok(()), Ok(_) => Err("another object".into()) }
        });
        cx.check(1, || format!("{} reader stops at {}", name, at), || {
            match T::get(&mut FReader::new(&b, Fault::Stop(at)), true) { Err(_) => Ok(()), Ok(_) => Err("object returned".into()) }
        });
    }
}
fn distinct<T: Obj>(cx: &Ctx, name: &str, variants: &[T]) {
    for i in 0..variants.len() {
        for j in 0..variants.len() {
            cx.check(1, || format!("{} equality {} {}", name, i, j), || {
                let eq = variants[i] == variants[j];
                let ne = variants[i] != variants[j];
                if eq != (i == j) || ne == eq { return Err(format!("== gives {}", eq)); }
                if i != j && bytes(&variants[i])? == bytes(&variants[j])? { return Err("different objects serialise alike".into()); }
                Ok(())
            });
        }
    }
    cx.bound(&format!("{} equality", name), format!("{} objects differing in exactly one component, all pairs", variants.len()));
}
fn main() {
    let cx = Ctx::new("C08");
    type F = F97;
    match cx.part.as_str() {
        "lengths" => {
            let m = cx.tier(3usize, 4);
            let mut n = 0;
            for ic in 0..=m { for h in 0..=m { for l in 0..=m { for a in 0..=m { for b1 in 0..=m { for b2 in 0..=m {
                if cx.failed() { break; }
                n += 1;
                cx.check(5, || format!("ic={} lengths={:?}", ic, [h, l, a, b1, b2]), || roundtrip(&serobj::params::<F>(ic, [h, l, a, b1, b2]), &Fault::Max(13), &Fault::Max(11)));
            } } } } } }
            for ic in [0usize, 1, 2, 255, 256, 257, 300, 65535, 65536, 65537, 70000] {
                cx.check(5, || format!("ic={}", ic), || roundtrip(&serobj::vk::<F>(ic, 0), &Fault::None, &Fault::None));
                for k in 0..5 {
                    let mut l = [1; 5];
                    l[k] = ic;
                    cx.check(5, || format!("vector {} length {}", k, ic), || roundtrip(&serobj::params::<F>(2, l), &Fault::None, &Fault::None));
                }
            }
            // beyond a million elements
            for ic in [1 << 20, (1 << 20) + 1] {
                cx.check(5, || format!("ic={}", ic), || roundtrip(&serobj::vk::<F>(ic, 0), &Fault::None, &Fault::None));
                for k in 0..5 {
                    if k > 0 && ic == 1 << 20 && !cx.thorough { continue; }
                    let mut l = [1; 5];
                    l[k] = ic;
                    cx.check(5, || format!("vector {} length {}", k, ic), || roundtrip(&serobj::params::<F>(2, l), &Fault::None, &Fault::None));
                }
            }
            for k in 0..97 {
                for f in 0..97u64 {
                    let p = Proof::<E<F>> { a: P1(F::new(1 + f % 96)), b: P2(F::new(1 + k % 96)), c: P1(F::new(1 + (k * 5 + f) % 96)) };
                    cx.check(5, || format!("proof {} {}", k, f), || roundtrip(&p, &Fault::None, &Fault::None));
                }
            }
            cx.bound("lengths", format!("all {} combinations of vector lengths 0..{}, and 255..70000, 2^20 and 2^20+1 for each vector", n, m));
        }
        "faults" => {
            faults(&cx, "proof", &serobj::proof::<F>(3));
            faults(&cx, "verifying key", &serobj::vk::<F>(2, 0));
            faults(&cx, "empty verifying key", &serobj::vk::<F>(0, 0));
            faults(&cx, "parameters", &serobj::params::<F>(1, [2, 1, 1, 1, 2]));
            faults(&cx, "empty parameters", &serobj::params::<F>(0, [0; 5]));
            cx.bound("faults", format!("every per-call size pattern over {{interrupt,1,2,7,40}} to length {}, every uniform chunk size, writer/reader failing at every byte", cx.tier(4, 5)));
        }
        "equality" => {
            let p = serobj::proof::<F>(1);
            let mut v = vec![p.clone(); 4];
            v[1].a.0 += F::new(1);
            v[2].b.0 += F::new(1);
            v[3].c.0 += F::new(1);
            distinct(&cx, "proof", &v);
            let k = serobj::vk::<F>(3, 0);
            let mut v = vec![k.clone(); 12];
            v[1].alpha_g1.0 += F::new(1);
            v[2].beta_g1.0 += F::new(1);
            v[3].beta_g2.0 += F::new(1);
            v[4].gamma_g2.0 += F::new(1);
            v[5].delta_g1.0 += F::new(1);
            v[6].delta_g2.0 += F::new(1);
            for i in 0..3 { v[7 + i].ic[i].0 += F::new(1); }
            v[10].ic.pop();
            v[11].ic.push(P1(F::new(1)));
            distinct(&cx, "verifying key", &v);
            let p = serobj::params::<F>(3, [3, 3, 3, 3, 3]);
            let mut w: Vec<Parameters<E<F>>> = vec![p.clone()];
            for k in &v[1..] { let mut x = p.clone(); x.vk = k.clone(); w.push(x); }
            macro_rules! vary { ($f:ident, $P:ident) => {
                for i in 0..3 { let mut x = p.clone(); Arc::make_mut(&mut x.$f)[i].0 += F::new(1); w.push(x); }
                let mut x = p.clone(); Arc::make_mut(&mut x.$f).pop(); w.push(x);
                let mut x = p.clone(); Arc::make_mut(&mut x.$f).push($P(F::new(1))); w.push(x);
                let mut x = p.clone(); Arc::make_mut(&mut x.$f).clear(); w.push(x);
                let mut x = p.clone(); Arc::make_mut(&mut x.$f).swap(0, 2); w.push(x);
            } }
            vary!(h, P1);
            vary!(l, P1);
            vary!(a, P1);
            vary!(b_g1, P1);
            vary!(b_g2, P2);
            distinct(&cx, "parameters", &w);
        }
        "real" => {
            // the same on BLS12-381, for generated parameters
            use bls12_381::{Bls12, G1Projective, G2Projective};
            use ff::Field;
            use group::Group;
            for i in 0..cx.tier(4usize, 12) {
                cx.check(4, || format!("BLS12-381 {}", i), || {
                    let mut r = SplitMix(i as u64);
                    let mut f = || Bls::random(&mut r);
                    let s: Spec<Bls> = chain(i % 3, 1 + i % 2, 2 + i % 3, i as u64);
                    let p = groth16::generate_parameters::<Bls12, _>(s.unknown(), G1Projective::generator() * f(), G2Projective::generator() * f(), f(), f(), f(), f(), f()).map_err(|e| e.to_string())?;
                    let pr = groth16::create_proof(s.clone(), &p, f(), f()).map_err(|e| e.to_string())?;
                    let mut w = FWriter::new(Fault::Max(50));
                    p.write(&mut w).map_err(|e| e.to_string())?;
                    for c in [true, false] {
                        let mut rd = FReader::new(&w.data, Fault::Pattern(vec![31, 0, 2]));
                        let q = Parameters::<Bls12>::read(&mut rd, c).map_err(|e| e.to_string())?;
                        if q != p || rd.pos != w.data.len() { return Err("parameters do not round trip".into()); }
                    }
                    let mut w = FWriter::new(Fault::Max(5));
                    pr.write(&mut w).map_err(|e| e.to_string())?;
                    let q = Proof::<Bls12>::read(&mut FReader::new(&w.data, Fault::Max(7))).map_err(|e| e.to_string())?;
                    if q != pr || w.data.len() != 192 { return Err("proof does not round trip".into()); }
                    Ok(())
                });
            }
        }
        x => panic!("unknown part {}", x),
    }
    cx.sample(|| format!("part {}: write, read back, compare every component, write again", cx.part));
    cx.finish();
}
