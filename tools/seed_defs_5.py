GEN = "groth16/src/generator.rs"; PRO = "groth16/src/prover.rs"; VER = "groth16/src/verifier.rs"; BAT = "groth16/src/verifier/batch.rs"; GL = "groth16/src/lib.rs"
DOM = "src/domain.rs"; MX = "src/multiexp.rs"; MC = "src/multicore.rs"; LIB = "src/lib.rs"
BOOL = "src/gadgets/boolean.rs"; NUM = "src/gadgets/num.rs"; U32 = "src/gadgets/uint32.rs"; MEQ = "src/gadgets/multieq.rs"; MP = "src/gadgets/multipack.rs"; LK = "src/gadgets/lookup.rs"; TC = "src/gadgets/test/mod.rs"; SHA = "src/gadgets/sha256.rs"; BL = "src/gadgets/blake2s.rs"
MUL = r'''
// x * y = z (public).
#[derive(Clone)]
struct Mul { x: Option<Scalar>, y: Option<Scalar>, z: Option<Scalar> }
impl Circuit<Scalar> for Mul {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let g = |v: Option<Scalar>| v.ok_or(SynthesisError::AssignmentMissing);
        let x = cs.alloc(|| "x", || g(self.x))?;
        let y = cs.alloc(|| "y", || g(self.y))?;
        let z = cs.alloc_input(|| "z", || g(self.z))?;
        cs.enforce(|| "m", |lc| lc + x, |lc| lc + y, |lc| lc + z);
        Ok(())
    }
}
fn mul(x: u64, y: u64, z: u64) -> Mul { Mul { x: Some(Scalar::from(x)), y: Some(Scalar::from(y)), z: Some(Scalar::from(z)) } }
fn mul_none() -> Mul { Mul { x: None, y: None, z: None } }
'''
SOURCE = r'''
use bellman::multiexp::{Source, SourceBuilder};
use groth16::{ParameterSource, Parameters, VerifyingKey};
// A source that streams exactly the windows it is asked for, as from a file.
struct Windows<'a>(&'a Parameters<Bls12>);
fn io<T>() -> Result<T, SynthesisError> { Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "no such window").into()) }
fn cut<G: Clone>(v: &[G], at: usize, n: usize) -> Result<(Arc<Vec<G>>, usize), SynthesisError> { match v.get(at..at + n) { Some(x) => Ok((Arc::new(x.to_vec()), 0)), None => io() } }
impl<'a> ParameterSource<Bls12> for Windows<'a> {
    type G1Builder = (Arc<Vec<G1Affine>>, usize);
    type G2Builder = (Arc<Vec<G2Affine>>, usize);
    fn get_vk(&mut self, n: usize) -> Result<VerifyingKey<Bls12>, SynthesisError> { if n == self.0.vk.ic.len() { Ok(self.0.vk.clone()) } else { io() } }
    fn get_h(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> { cut(&self.0.h, 0, n) }
    fn get_l(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> { cut(&self.0.l, 0, n) }
    fn get_a(&mut self, i: usize, a: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> { Ok((cut(&self.0.a, 0, i)?, cut(&self.0.a, i, a)?)) }
    fn get_b_g1(&mut self, i: usize, a: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> { Ok((cut(&self.0.b_g1, 0, i)?, cut(&self.0.b_g1, i, a)?)) }
    fn get_b_g2(&mut self, i: usize, a: usize) -> Result<(Self::G2Builder, Self::G2Builder), SynthesisError> { Ok((cut(&self.0.b_g2, 0, i)?, cut(&self.0.b_g2, i, a)?)) }
}
fn main() {
    let p = params(mul_none()).unwrap();
    let (r, s) = (Scalar::from(5), Scalar::from(6));
    let want = groth16::create_proof::<Bls12, _, _>(mul(3, 4, 12), &p, r, s).unwrap();
    let got = groth16::create_proof::<Bls12, _, _>(mul(3, 4, 12), Windows(&p), r, s).expect("the source has everything that is needed");
    assert!(got == want);
}
'''
SEEDS = []
def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

seed("c11-window-mismatch", "C11", [(MX, '''    // Split the exponents into chunks.
    let exponents = Arc::new(
        exponents
            .iter()
            .map(|exp| exp.chunks(c as usize))
''', '''    // Split the exponents into chunks, no wider than the buckets.
    let width = c.min(MAX_WINDOW) as usize;
    let exponents = Arc::new(
        exponents
            .iter()
            .map(|exp| exp.chunks(width))
'''), (MX, "vec![G::identity(); (1 << c) - 1]", "vec![G::identity(); (1 << c.min(MAX_WINDOW)) - 1]"), (MX, '''enum ChunkedExponent {
''', '''/// Keeps the buckets of all regions within the cache.
const MAX_WINDOW: u32 = 10;

enum ChunkedExponent {
''')], r'''
use bellman::{multicore::Worker, multiexp::{multiexp, FullDensity}};
fn main() {
    let w = Worker::new();
    let g = G1Affine::generator();
    for n in [5usize, 300, 9000, 23000] {
        let exps: Vec<Scalar> = (0..n).map(|i| Scalar::from(i as u64 * 7 + 3)).collect();
        let sum: Scalar = exps.iter().sum();
        let got: G1Projective = multiexp(&w, (Arc::new(vec![g; n]), 0), FullDensity, Arc::new(exps.iter().map(|e| e.into()).collect())).wait().unwrap();
        assert!(got == g * sum, "{} exponents", n);
    }
}
''', "more than 22026 exponents", "the sum is wrong")

seed("c11-leading-windows", "C11", [(MX, '''        .into_iter()
        .rev()
        .try_fold(G::identity(), |acc, part| {
''', '''        .into_iter()
        .rev()
        // The leading windows of small exponents are empty.
        .skip_while(|part| {
            part.as_ref()
                .map_or(true, |part: &G| bool::from(part.is_identity()))
        })
        .try_fold(G::identity(), |acc, part| {
''')], r'''
use bellman::{multicore::Worker, multiexp::{multiexp, FullDensity}};
fn main() {
    let w = Worker::new();
    let g = G1Affine::generator();
    for e in [Scalar::from(9), Scalar::from(1 << 40), Scalar::from(2).pow_vartime(&[253u64, 0, 0, 0])] {
        let got: Result<G1Projective, _> = multiexp(&w, (Arc::new(vec![g, G1Affine::identity(), g]), 0), FullDensity, Arc::new([Scalar::from(5), e, Scalar::from(7)].iter().map(|e| e.into()).collect())).wait();
        assert!(matches!(got, Err(SynthesisError::UnexpectedIdentity)), "a needed base is the identity");
    }
}
''', "an identity base whose exponent has nothing but leading windows", "a sum is returned although a needed base is the identity")

seed("c21-zero-tail", "C21", [(BL, '''    if blocks.is_empty() {
        blocks.push(''', '''    // A last block of constant zeros is the same as padding.
    let is_padding = |block: &Vec<UInt32>| {
        block
            .iter()
            .all(|word| word.clone().into_bits().iter().all(|b| matches!(b, Boolean::Constant(false))))
    };
    if input.len() % 512 != 0 && blocks.len() > 1 && blocks.last().map_or(false, is_padding) {
        blocks.pop();
    }

    if blocks.is_empty() {
        blocks.push(''')], r'''
use bellman::gadgets::{blake2s::blake2s, boolean::{AllocatedBit, Boolean}, test::TestConstraintSystem};
fn main() {
    for n in [10usize, 64, 80, 128, 140] {
        let data: Vec<u8> = (0..n).map(|i| if i < 64 { i as u8 * 37 + 1 } else { 0 }).collect();
        let mut cs = TestConstraintSystem::<Scalar>::new();
        let bits: Vec<Boolean> = (0..8 * n).map(|i| {
            let v = data[i / 8] >> (i % 8) & 1 == 1;
            if i < 512 { AllocatedBit::alloc(cs.namespace(|| format!("{}", i)), Some(v)).unwrap().into() } else { Boolean::constant(v) }
        }).collect();
        let out = blake2s(cs.namespace(|| "h"), &bits, b"12345678").unwrap();
        assert!(cs.is_satisfied());
        let want = blake2s_simd::Params::new().hash_length(32).personal(b"12345678").hash(&data);
        let got: Vec<bool> = out.iter().map(|b| b.get_value().unwrap()).collect();
        assert!(got.iter().enumerate().all(|(i, b)| *b == (want.as_bytes()[i / 8] >> (i % 8) & 1 == 1)), "{} bytes", n);
    }
}
''', "an input of more than one block whose partial last block is constant zeros", "the digest is of a shorter input's blocks")

seed("c21-counter-16", "C21", [(BL, "((i as u64) + 1) * 64, false)?;", "u64::from(((i as u16) + 1).wrapping_mul(64)), false)?;")], r'''
use bellman::gadgets::{blake2s::blake2s, boolean::Boolean, test::TestConstraintSystem};
fn main() {
    for n in [1000usize, 65535, 65537, 66000] {
        let data: Vec<u8> = (0..n).map(|i| (i * 37 + 1) as u8).collect();
        let mut cs = TestConstraintSystem::<Scalar>::new();
        let bits: Vec<Boolean> = (0..8 * n).map(|i| Boolean::constant(data[i / 8] >> (i % 8) & 1 == 1)).collect();
        let out = blake2s(cs.namespace(|| "h"), &bits, b"12345678").unwrap();
        let want = blake2s_simd::Params::new().hash_length(32).personal(b"12345678").hash(&data);
        let got: Vec<bool> = out.iter().map(|b| b.get_value().unwrap()).collect();
        assert!(got.iter().enumerate().all(|(i, b)| *b == (want.as_bytes()[i / 8] >> (i % 8) & 1 == 1)), "{} bytes", n);
    }
}
''', "more than 65536 bytes", "the offset counter wraps")

seed("c25-vk-count", "C25", [(PRO, '''    let vk = params.get_vk(prover.input_assignment.len())?;
''', '''    // The first input is the constant one.
    let vk = params.get_vk(prover.input_assignment.len() - 1)?;
''')], MUL + SOURCE, "a parameter source that honours the count of the verifying key", "the verifying key is requested for one input too few")

seed("c25-b-order", "C25", [(PRO, '''        params.get_b_g2(b_input_density_total, b_aux_density_total)?;
''', '''        params.get_b_g2(b_input_density_total, a_aux_density_total)?;
''')], MUL.replace("lc + x,", "lc + x + y,") + SOURCE, "a parameter source that honours the counts, and a circuit with different densities in A and B", "too few or too many elements of B in G2 are requested")
