GEN = "groth16/src/generator.rs"; PRO = "groth16/src/prover.rs"; VER = "groth16/src/verifier.rs"; BAT = "groth16/src/verifier/batch.rs"; GL = "groth16/src/lib.rs"
DOM = "src/domain.rs"; MX = "src/multiexp.rs"; MC = "src/multicore.rs"; LIB = "src/lib.rs"
BOOL = "src/gadgets/boolean.rs"; NUM = "src/gadgets/num.rs"; U32 = "src/gadgets/uint32.rs"; MEQ = "src/gadgets/multieq.rs"; MP = "src/gadgets/multipack.rs"; LK = "src/gadgets/lookup.rs"; TC = "src/gadgets/test/mod.rs"; SHA = "src/gadgets/sha256.rs"; BL = "src/gadgets/blake2s.rs"
MUL = r'''
// x * y = z (public).
#[derive(Clone)]
struct Mul { x: Option<Scalar>, y: Option<Scalar>, z: Option<Scalar> }
impl Circuit<Scalar> for Mul {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let g = |v: Option<Scalar>| v.ok_or(SynthesisError::AssignmentMissing);
        let x = cs.alloc(|| "x", || g(self.x))?;
        let y = cs.alloc(|| "y", || g(self.y))?;
        let z = cs.alloc_input(|| "z", || g(self.z))?;
        cs.enforce(|| "m", |lc| lc + x, |lc| lc + y, |lc| lc + z);
        Ok(())
    }
}
fn mul(x: u64, y: u64, z: u64) -> Mul { Mul { x: Some(Scalar::from(x)), y: Some(Scalar::from(y)), z: Some(Scalar::from(z)) } }
fn mul_none() -> Mul { Mul { x: None, y: None, z: None } }
'''
SOURCE = r'''
use bellman::multiexp::{Source, SourceBuilder};
use groth16::{ParameterSource, Parameters, VerifyingKey};
// A source that streams exactly the windows it is asked for, as from a file.
struct Windows<'a>(&'a Parameters<Bls12>);
fn io<T>() -> Result<T, SynthesisError> { Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "no such window").into()) }
fn cut<G: Clone>(v: &[G], at: usize, n: usize) -> Result<(Arc<Vec<G>>, usize), SynthesisError> { match v.get(at..at + n) { Some(x) => Ok((Arc::new(x.to_vec()), 0)), None => io() } }
impl<'a> ParameterSource<Bls12> for Windows<'a> {
    type G1Builder = (Arc<Vec<G1Affine>>, usize);
    type G2Builder = (Arc<Vec<G2Affine>>, usize);
    fn get_vk(&mut self, n: usize) -> Result<VerifyingKey<Bls12>, SynthesisError> { if n == self.0.vk.ic.len() { Ok(self.0.vk.clone()) } else { io() } }
    fn get_h(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> { cut(&self.0.h, 0, n) }
    fn get_l(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> { cut(&self.0.l, 0, n) }
    fn get_a(&mut self, i: usize, a: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> { Ok((cut(&self.0.a, 0, i)?, cut(&self.0.a, i, a)?)) }
    fn get_b_g1(&mut self, i: usize, a: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> { Ok((cut(&self.0.b_g1, 0, i)?, cut(&self.0.b_g1, i, a)?)) }
    fn get_b_g2(&mut self, i: usize, a: usize) -> Result<(Self::G2Builder, Self::G2Builder), SynthesisError> { Ok((cut(&self.0.b_g2, 0, i)?, cut(&self.0.b_g2, i, a)?)) }
}
fn main() {
    let p = params(mul_none()).unwrap();
    let (r, s) = (Scalar::from(5), Scalar::from(6));
    let want = groth16::create_proof::<Bls12, _, _>(mul(3, 4, 12), &p, r, s).unwrap();
    let got = groth16::create_proof::<Bls12, _, _>(mul(3, 4, 12), Windows(&p), r, s).expect("the source has everything that is needed");
    assert!(got == want);
}
'''
SEEDS = []
def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


seed("c02-zero-break", "C02", [(VER, """    for (i, b) in public_inputs.iter().zip(pvk.ic.iter().skip(1)) {
""", """    // Input lists are padded with zeros.
    for (i, b) in public_inputs
        .iter()
        .zip(pvk.ic.iter().skip(1))
        .take_while(|(i, _)| !i.is_zero_vartime())
    {
"""), (VER, "use group::{prime::PrimeCurveAffine, Curve};\n", "use ff::Field;\nuse group::{prime::PrimeCurveAffine, Curve};\n")], r"""
// x * x = sum of three public inputs
struct C(Option<[u64; 4]>);
impl Circuit<Scalar> for C {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let g = |i: usize| self.0.map(|v| Scalar::from(v[i])).ok_or(SynthesisError::AssignmentMissing);
        let x = cs.alloc(|| "x", || g(0))?;
        let mut v = vec![];
        for i in 1..4 { v.push(cs.alloc_input(|| format!("{}", i), || g(i))?); }
        cs.enforce(|| "m", |lc| lc + x, |lc| lc + x, |lc| lc + v[0] + v[1] + v[2]);
        Ok(())
    }
}
fn main() {
    let p = params(C(None)).unwrap();
    let pvk = groth16::prepare_verifying_key(&p.vk);
    for w in [[3u64, 4, 4, 1], [3, 4, 5, 0], [3, 4, 0, 5], [3, 0, 4, 5]] {
        let inputs: Vec<Scalar> = w[1..].iter().map(|x| Scalar::from(*x)).collect();
        let proof = groth16::create_proof(C(Some(w)), &p, Scalar::from(3), Scalar::from(4)).unwrap();
        assert!(groth16::verify_proof(&pvk, &proof, &inputs).is_ok(), "{:?} refused", w);
        let mut wrong = inputs.clone();
        wrong[2] += Scalar::ONE;
        assert!(groth16::verify_proof(&pvk, &proof, &wrong).is_err(), "{:?} accepted with another input", w);
    }
}
""", "a public input of zero before a non-zero one", "the inputs after the first zero are not bound")

seed("c09-proof-c-unchecked", "C09", [(GL, """        let a = read_g1(&mut reader)?;
        let b = read_g2(&mut reader)?;
        let c = read_g1(&mut reader)?;
""", """        let a = read_g1(&mut reader)?;
        let b = read_g2(&mut reader)?;
        // A is in the subgroup; the equation takes care of C.
        let c = {
            let mut repr = <E::G1Affine as GroupEncoding>::Repr::default();
            reader.read_exact(repr.as_mut())?;
            let c = E::G1Affine::from_bytes_unchecked(&repr);
            if bool::from(c.is_none()) || bool::from(c.unwrap().is_identity()) {
                return Err(io::Error::new(io::ErrorKind::InvalidData, "invalid G1"));
            }
            c.unwrap()
        };
""")], MUL + r"""
fn main() {
    use group::GroupEncoding;
    // a point on the curve that is not in the subgroup
    let bad = (0u8..=255).find_map(|i| {
        let mut r = [0u8; 48];
        r[0] = 0x80;
        r[47] = i;
        let p = Option::<G1Affine>::from(G1Affine::from_compressed_unchecked(&r))?;
        if bool::from(p.is_torsion_free()) { None } else { Some(r) }
    }).unwrap();
    let p = params(mul_none()).unwrap();
    let proof = groth16::create_proof::<Bls12, _, _>(mul(3, 4, 12), &p, Scalar::from(5), Scalar::from(6)).unwrap();
    let mut v = vec![];
    proof.write(&mut v).unwrap();
    assert!(groth16::Proof::<Bls12>::read(&v[..]).unwrap() == proof);
    for at in [0usize, v.len() - 48] {
        let mut w = v.clone();
        w[at..at + 48].copy_from_slice(&bad);
        assert!(groth16::Proof::<Bls12>::read(&w[..]).is_err(), "element at {} outside the subgroup accepted", at);
    }
}
""", "a proof whose last element is on the curve but outside the subgroup", "such a proof is read without an error")
