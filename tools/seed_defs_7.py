GEN = "groth16/src/generator.rs"; PRO = "groth16/src/prover.rs"; VER = "groth16/src/verifier.rs"; BAT = "groth16/src/verifier/batch.rs"; GL = "groth16/src/lib.rs"
DOM = "src/domain.rs"; MX = "src/multiexp.rs"; MC = "src/multicore.rs"; LIB = "src/lib.rs"
BOOL = "src/gadgets/boolean.rs"; NUM = "src/gadgets/num.rs"; U32 = "src/gadgets/uint32.rs"; MEQ = "src/gadgets/multieq.rs"; MP = "src/gadgets/multipack.rs"; LK = "src/gadgets/lookup.rs"; TC = "src/gadgets/test/mod.rs"; SHA = "src/gadgets/sha256.rs"; BL = "src/gadgets/blake2s.rs"
MUL = r'''
// x * y = z (public).
#[derive(Clone)]
struct Mul { x: Option<Scalar>, y: Option<Scalar>, z: Option<Scalar> }
impl Circuit<Scalar> for Mul {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let g = |v: Option<Scalar>| v.ok_or(SynthesisError::AssignmentMissing);
        let x = cs.alloc(|| "x", || g(self.x))?;
        let y = cs.alloc(|| "y", || g(self.y))?;
        let z = cs.alloc_input(|| "z", || g(self.z))?;
        cs.enforce(|| "m", |lc| lc + x, |lc| lc + y, |lc| lc + z);
        Ok(())
    }
}
fn mul(x: u64, y: u64, z: u64) -> Mul { Mul { x: Some(Scalar::from(x)), y: Some(Scalar::from(y)), z: Some(Scalar::from(z)) } }
fn mul_none() -> Mul { Mul { x: None, y: None, z: None } }
'''
SOURCE = r'''
use bellman::multiexp::{Source, SourceBuilder};
use groth16::{ParameterSource, Parameters, VerifyingKey};
// A source that streams exactly the windows it is asked for, as from a file.
struct Windows<'a>(&'a Parameters<Bls12>);
fn io<T>() -> Result<T, SynthesisError> { Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "no such window").into()) }
fn cut<G: Clone>(v: &[G], at: usize, n: usize) -> Result<(Arc<Vec<G>>, usize), SynthesisError> { match v.get(at..at + n) { Some(x) => Ok((Arc::new(x.to_vec()), 0)), None => io() } }
impl<'a> ParameterSource<Bls12> for Windows<'a> {
    type G1Builder = (Arc<Vec<G1Affine>>, usize);
    type G2Builder = (Arc<Vec<G2Affine>>, usize);
    fn get_vk(&mut self, n: usize) -> Result<VerifyingKey<Bls12>, SynthesisError> { if n == self.0.vk.ic.len() { Ok(self.0.vk.clone()) } else { io() } }
    fn get_h(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> { cut(&self.0.h, 0, n) }
    fn get_l(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> { cut(&self.0.l, 0, n) }
    fn get_a(&mut self, i: usize, a: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> { Ok((cut(&self.0.a, 0, i)?, cut(&self.0.a, i, a)?)) }
    fn get_b_g1(&mut self, i: usize, a: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> { Ok((cut(&self.0.b_g1, 0, i)?, cut(&self.0.b_g1, i, a)?)) }
    fn get_b_g2(&mut self, i: usize, a: usize) -> Result<(Self::G2Builder, Self::G2Builder), SynthesisError> { Ok((cut(&self.0.b_g2, 0, i)?, cut(&self.0.b_g2, i, a)?)) }
}
fn main() {
    let p = params(mul_none()).unwrap();
    let (r, s) = (Scalar::from(5), Scalar::from(6));
    let want = groth16::create_proof::<Bls12, _, _>(mul(3, 4, 12), &p, r, s).unwrap();
    let got = groth16::create_proof::<Bls12, _, _>(mul(3, 4, 12), Windows(&p), r, s).expect("the source has everything that is needed");
    assert!(got == want);
}
'''
SEEDS = []
def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))



seed("c02-cached-term", "C02", [(VER, """    for (i, b) in public_inputs.iter().zip(pvk.ic.iter().skip(1)) {
        AddAssign::<&E::G1>::add_assign(&mut acc, &(*b * i));
    }
""", """    // Runs of equal inputs share their exponentiation.
    let mut last: Option<(&E::Fr, E::G1)> = None;
    for (i, b) in public_inputs.iter().zip(pvk.ic.iter().skip(1)) {
        let term = match last {
            Some((p, t)) if p == i => t,
            _ => *b * i,
        };
        last = Some((i, term));
        AddAssign::<&E::G1>::add_assign(&mut acc, &term);
    }
""")], r"""
struct C(Option<[u64; 4]>);
impl Circuit<Scalar> for C {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let g = |i: usize| self.0.map(|v| Scalar::from(v[i])).ok_or(SynthesisError::AssignmentMissing);
        let x = cs.alloc(|| "x", || g(0))?;
        let mut v = vec![];
        for i in 1..4 { v.push(cs.alloc_input(|| format!("{}", i), || g(i))?); }
        cs.enforce(|| "m", |lc| lc + x, |lc| lc + x, |lc| lc + v[0] + v[1] + v[2]);
        Ok(())
    }
}
fn main() {
    let p = params(C(None)).unwrap();
    let pvk = groth16::prepare_verifying_key(&p.vk);
    for w in [[3u64, 4, 3, 2], [3, 3, 3, 3], [3, 4, 4, 1]] {
        let inputs: Vec<Scalar> = w[1..].iter().map(|x| Scalar::from(*x)).collect();
        let proof = groth16::create_proof(C(Some(w)), &p, Scalar::from(3), Scalar::from(4)).unwrap();
        assert!(groth16::verify_proof(&pvk, &proof, &inputs).is_ok(), "{:?} refused", w);
    }
}
""", "two neighbouring public inputs with the same value", "the verification equation is evaluated with the wrong base")

seed("c03-repeat-overwrite", "C03", [(GEN, """                    Index::Input(id) => inputs[id].push((*coeff, this_constraint)),
""", """                    // One entry per constraint is enough.
                    Index::Input(id) => match inputs[id].last_mut() {
                        Some((c, at)) if *at == this_constraint => *c = *coeff,
                        _ => inputs[id].push((*coeff, this_constraint)),
                    },
""")], r"""
// x * x = y + y (y public)
struct C(Option<[u64; 2]>);
impl Circuit<Scalar> for C {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let g = |i: usize| self.0.map(|v| Scalar::from(v[i])).ok_or(SynthesisError::AssignmentMissing);
        let x = cs.alloc(|| "x", || g(0))?;
        let y = cs.alloc_input(|| "y", || g(1))?;
        cs.enforce(|| "m", |lc| lc + x, |lc| lc + x, |lc| lc + y + y);
        Ok(())
    }
}
fn main() {
    let p = params(C(None)).unwrap();
    let pvk = groth16::prepare_verifying_key(&p.vk);
    let proof = groth16::create_proof(C(Some([4, 8])), &p, Scalar::from(3), Scalar::from(4)).unwrap();
    assert!(groth16::verify_proof(&pvk, &proof, &[Scalar::from(8)]).is_ok(), "4 * 4 = 8 + 8 refused");
}
""", "a public input (or the constant) that occurs twice in one linear combination", "the generator keeps only the last coefficient, so the key is for another circuit")

seed("c05-distinct-draws", "C05", [(PRO, """    let s = E::Fr::random(&mut rng);

    create_proof::<E, C, P>(circuit, params, r, s)
""", """    let mut s = E::Fr::random(&mut rng);
    if s == r {
        // Guard against a stuttering generator.
        s = E::Fr::random(&mut rng);
    }

    create_proof::<E, C, P>(circuit, params, r, s)
""")], MUL + r"""
// 64-byte draws: 1, 1, 2, 3...
struct R(u8);
impl rand_core::RngCore for R {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { unreachable!() }
    fn fill_bytes(&mut self, d: &mut [u8]) { let v = self.0.max(1); self.0 += 1; d.fill(0); d[0] = v; }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
fn main() {
    use ff::Field;
    let p = params(mul_none()).unwrap();
    let mut probe = R(0);
    let (r, s) = (Scalar::random(&mut probe), Scalar::random(&mut probe));
    assert!(r == s);
    let want = groth16::create_proof::<Bls12, _, _>(mul(3, 4, 12), &p, r, s).unwrap();
    let mut rng = R(0);
    let got = groth16::create_random_proof::<Bls12, _, _, _>(mul(3, 4, 12), &p, &mut rng).unwrap();
    assert!(got == want, "the blinding is not the two draws");
    assert!(rng.0 == 2);
}
""", "an RNG whose two consecutive draws are equal", "the second blinding factor is not the second draw, and not independent of the first")

seed("c10-z-zero", "C10", [(DOM, """        let mut tmp = tau.pow_vartime(&[self.coeffs.len() as u64]);
        tmp.sub_assign(&S::ONE);

        tmp
""", """        if bool::from(tau.is_zero()) {
            return S::ZERO;
        }

        let mut tmp = tau.pow_vartime(&[self.coeffs.len() as u64]);
        tmp.sub_assign(&S::ONE);

        tmp
""")], r"""
fn main() {
    use ff::Field;
    for n in 0..10 {
        let d = bellman::domain::EvaluationDomain::<Scalar, bellman::domain::Scalar<Scalar>>::from_coeffs(vec![bellman::domain::Scalar(Scalar::ONE); n]).unwrap();
        assert!(d.z(&Scalar::ZERO) == -Scalar::ONE, "t(0) is -1");
        assert!(d.z(&Scalar::ONE) == Scalar::ZERO);
    }
}
""", "the vanishing polynomial evaluated at zero", "z(0) is 0 instead of -1")

seed("c12-ticket-order", "C12", [(GEN, """            let powers_of_tau = powers_of_tau.as_mut();
            worker.scope(powers_of_tau.len(), |scope, chunk| {
                for (i, powers_of_tau) in powers_of_tau.chunks_mut(chunk).enumerate() {
                    scope.spawn(move |_scope| {
                        let mut current_tau_power""", """            let powers_of_tau = powers_of_tau.as_mut();
            let started = AtomicUsize::new(0);
            let started = &started;
            worker.scope(powers_of_tau.len(), |scope, chunk| {
                for (i, powers_of_tau) in powers_of_tau.chunks_mut(chunk).enumerate() {
                    scope.spawn(move |_scope| {
                        // Long chunks are taken in order.
                        let i = if powers_of_tau.len() >= 512 {
                            started.fetch_add(1, Ordering::SeqCst)
                        } else {
                            i
                        };
                        let mut current_tau_power"""), (GEN, "use std::sync::Arc;\n", "use std::sync::atomic::{AtomicUsize, Ordering};\nuse std::sync::Arc;\n")], r"""
// x_0 * x_0 = x_1, ...: 3000 squarings
struct C(bool);
impl Circuit<Scalar> for C {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        use ff::Field;
        let mut val = Scalar::from(3);
        let w = self.0;
        let mut x = cs.alloc_input(|| "x", || if w { Ok(val) } else { Err(SynthesisError::AssignmentMissing) })?;
        for i in 0..3000 {
            val = val.square();
            let y = cs.alloc(|| format!("{}", i), || if w { Ok(val) } else { Err(SynthesisError::AssignmentMissing) })?;
            cs.enforce(|| "s", |lc| lc + x, |lc| lc + x, |lc| lc + y);
            x = y;
        }
        Ok(())
    }
}
fn main() {
    let first = params(C(false)).unwrap();
    let pvk = groth16::prepare_verifying_key(&first.vk);
    let proof = groth16::create_proof(C(true), &first, Scalar::from(3), Scalar::from(4)).unwrap();
    assert!(groth16::verify_proof(&pvk, &proof, &[Scalar::from(3)]).is_ok(), "honest proof refused");
    for i in 0..8 {
        assert!(params(C(false)).unwrap() == first, "run {} gave other parameters", i);
    }
}
""", "a domain large enough for chunks of 512 and tasks that start in another order than they were spawned in", "the powers of tau depend on the schedule", env="export RAYON_NUM_THREADS=4", timeout=250)

seed("c08-last-result", "C08", [(GL, """        writer.write_all(self.a.to_bytes().as_ref())?;
        writer.write_all(self.b.to_bytes().as_ref())?;
        writer.write_all(self.c.to_bytes().as_ref())?;

        Ok(())
""", """        let mut result = Ok(());
        for bytes in [
            self.a.to_bytes().as_ref(),
            self.b.to_bytes().as_ref(),
            self.c.to_bytes().as_ref(),
        ] {
            result = writer.write_all(bytes);
        }

        result
""")], MUL + r"""
// Refuses one call, then works again.
struct Hiccup(Vec<u8>, usize);
impl std::io::Write for Hiccup {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let now = self.1;
        self.1 = now.wrapping_sub(1);
        if now == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "hiccup")); }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let p = params(mul_none()).unwrap();
    let proof = groth16::create_proof::<Bls12, _, _>(mul(3, 4, 12), &p, Scalar::from(5), Scalar::from(6)).unwrap();
    for k in 0..3 {
        let mut w = Hiccup(vec![], k);
        let r = proof.write(&mut w);
        assert!(r.is_err() || w.0.len() == 192, "call {} failed, {} bytes were written and nobody is told", k, w.0.len());
    }
}
""", "a writer that fails once and works again", "the proof is written without one of its elements and the call succeeds")

seed("c11-skip-unreported", "C11", [(MX, """                        } else {
                            bases.skip(1)?;
                        }
                    }
                }
            }
        }
""", """                        } else {
                            // Nothing is needed here; a missing base shows elsewhere.
                            let _ = bases.skip(1);
                        }
                    }
                }
            }
        }
""", ) ], r"""
use bellman::multiexp::{multiexp, Exponent, FullDensity, Source, SourceBuilder};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
// A stream of bases in which one operation fails.
#[derive(Clone)]
struct Flaky { v: Arc<Vec<G1Affine>>, pos: usize, ops: Arc<AtomicUsize>, fail: usize }
impl Flaky {
    fn op(&self) -> Result<(), SynthesisError> {
        if self.ops.fetch_add(1, SeqCst) == self.fail { Err(std::io::Error::new(std::io::ErrorKind::Other, "lost").into()) } else { Ok(()) }
    }
}
impl SourceBuilder<G1Affine> for Flaky { type Source = Flaky; fn build(self) -> Flaky { self } }
impl Source<G1Affine> for Flaky {
    fn next(&mut self) -> Result<&G1Affine, SynthesisError> { self.op()?; self.pos += 1; Ok(&self.v[self.pos - 1]) }
    fn skip(&mut self, n: usize) -> Result<(), SynthesisError> { self.op()?; self.pos += n; Ok(()) }
}
fn main() {
    use group::{Group, Curve};
    let w = bellman::multicore::Worker::new();
    let run = |fail: usize| {
        let ops = Arc::new(AtomicUsize::new(0));
        let b = Flaky { v: Arc::new((1..4).map(|i| (bls12_381::G1Projective::generator() * Scalar::from(i)).to_affine()).collect()), pos: 0, ops: ops.clone(), fail };
        let e = Arc::new(vec![Exponent::from(Scalar::from(5)), Exponent::from(Scalar::from(1 << 40)), Exponent::from(Scalar::from(7))]);
        let r: Result<bls12_381::G1Projective, _> = multiexp(&w, b, FullDensity, e).wait();
        (r.is_ok(), ops.load(SeqCst))
    };
    let (ok, n) = run(usize::MAX);
    assert!(ok);
    for k in 0..n { assert!(!run(k).0, "operation {} of {} failed and a sum came out", k, n); }
}
""", "a source that fails once, while an element is skipped", "the error is lost and a sum is returned")
