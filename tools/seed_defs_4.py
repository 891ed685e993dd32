GEN = "groth16/src/generator.rs"; PRO = "groth16/src/prover.rs"; VER = "groth16/src/verifier.rs"; BAT = "groth16/src/verifier/batch.rs"; GL = "groth16/src/lib.rs"
DOM = "src/domain.rs"; MX = "src/multiexp.rs"; MC = "src/multicore.rs"; LIB = "src/lib.rs"
BOOL = "src/gadgets/boolean.rs"; NUM = "src/gadgets/num.rs"; U32 = "src/gadgets/uint32.rs"; MEQ = "src/gadgets/multieq.rs"; MP = "src/gadgets/multipack.rs"; LK = "src/gadgets/lookup.rs"; TC = "src/gadgets/test/mod.rs"; SHA = "src/gadgets/sha256.rs"; BL = "src/gadgets/blake2s.rs"
MUL = r'''
// x * y = z (public).
#[derive(Clone)]
struct Mul { x: Option<Scalar>, y: Option<Scalar>, z: Option<Scalar> }
impl Circuit<Scalar> for Mul {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let g = |v: Option<Scalar>| v.ok_or(SynthesisError::AssignmentMissing);
        let x = cs.alloc(|| "x", || g(self.x))?;
        let y = cs.alloc(|| "y", || g(self.y))?;
        let z = cs.alloc_input(|| "z", || g(self.z))?;
        cs.enforce(|| "m", |lc| lc + x, |lc| lc + y, |lc| lc + z);
        Ok(())
    }
}
fn mul(x: u64, y: u64, z: u64) -> Mul { Mul { x: Some(Scalar::from(x)), y: Some(Scalar::from(y)), z: Some(Scalar::from(z)) } }
fn mul_none() -> Mul { Mul { x: None, y: None, z: None } }
'''
SOURCE = r'''
use bellman::multiexp::{Source, SourceBuilder};
use groth16::{ParameterSource, Parameters, VerifyingKey};
// A source that streams exactly the windows it is asked for, as from a file.
struct Windows<'a>(&'a Parameters<Bls12>);
fn io<T>() -> Result<T, SynthesisError> { Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "no such window").into()) }
fn cut<G: Clone>(v: &[G], at: usize, n: usize) -> Result<(Arc<Vec<G>>, usize), SynthesisError> { match v.get(at..at + n) { Some(x) => Ok((Arc::new(x.to_vec()), 0)), None => io() } }
impl<'a> ParameterSource<Bls12> for Windows<'a> {
    type G1Builder = (Arc<Vec<G1Affine>>, usize);
    type G2Builder = (Arc<Vec<G2Affine>>, usize);
    fn get_vk(&mut self, n: usize) -> Result<VerifyingKey<Bls12>, SynthesisError> { if n == self.0.vk.ic.len() { Ok(self.0.vk.clone()) } else { io() } }
    fn get_h(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> { cut(&self.0.h, 0, n) }
    fn get_l(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> { cut(&self.0.l, 0, n) }
    fn get_a(&mut self, i: usize, a: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> { Ok((cut(&self.0.a, 0, i)?, cut(&self.0.a, i, a)?)) }
    fn get_b_g1(&mut self, i: usize, a: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> { Ok((cut(&self.0.b_g1, 0, i)?, cut(&self.0.b_g1, i, a)?)) }
    fn get_b_g2(&mut self, i: usize, a: usize) -> Result<(Self::G2Builder, Self::G2Builder), SynthesisError> { Ok((cut(&self.0.b_g2, 0, i)?, cut(&self.0.b_g2, i, a)?)) }
}
fn main() {
    let p = params(mul_none()).unwrap();
    let (r, s) = (Scalar::from(5), Scalar::from(6));
    let want = groth16::create_proof::<Bls12, _, _>(mul(3, 4, 12), &p, r, s).unwrap();
    let got = groth16::create_proof::<Bls12, _, _>(mul(3, 4, 12), Windows(&p), r, s).expect("the source has everything that is needed");
    assert!(got == want);
}
'''
SEEDS = []
def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

seed("c25-a-full-count", "C25", [(PRO, '''        params.get_a(input_assignment.len(), a_aux_density_total)?;
''', '''        params.get_a(input_assignment.len(), a_aux_density_total.max(aux_assignment.len()))?;
''')], MUL + SOURCE, "a parameter source that honours the counts, and a private variable that does not occur in A", "proving from streamed parameters fails or reads too much")

seed("c25-h-before-truncate", "C25", [(PRO, '''        let mut a = a.into_coeffs();
        let a_len = a.len() - 1;
''', '''        let mut a = a.into_coeffs();
        let h_query = params.get_h(a.len())?;
        let a_len = a.len() - 1;
'''), (PRO, "        multiexp(&worker, params.get_h(a.len())?, FullDensity, a)\n", "        multiexp(&worker, h_query, FullDensity, a)\n")], MUL + SOURCE, "a parameter source that honours the counts", "one element of h too many is requested")


seed("c13-serial-lazy", "C13", [(MC, '''            Waiter::done(f())
        }
''', '''            Waiter { val: None, task: Some(Box::new(f)) }
        }
'''), (MC, '''    pub struct Waiter<T> {
        val: Option<T>,
    }
''', '''    pub struct Waiter<T> {
        val: Option<T>,
        task: Option<Box<dyn FnOnce() -> T + Send>>,
    }
'''), (MC, '''            self.val.take().expect("unmet data dependency")
''', '''            match self.task.take() {
                Some(task) => task(),
                None => self.val.take().expect("unmet data dependency"),
            }
'''), (MC, '''            Waiter { val: Some(val) }
''', '''            Waiter { val: Some(val), task: None }
''')], r'''
use bellman::multicore::Worker;
use std::sync::{atomic::{AtomicUsize, Ordering}, Arc};
fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let w = Worker::new();
    let (a, b) = (n.clone(), n.clone());
    drop(w.compute(move || a.fetch_add(1, Ordering::SeqCst)));
    w.compute(move || b.fetch_add(1, Ordering::SeqCst)).wait();
    std::thread::sleep(std::time::Duration::from_millis(100));
    assert_eq!(n.load(Ordering::SeqCst), 2, "a submitted task did not run");
}
''', "a build without the multicore feature and a waiter dropped without waiting", "the task never runs", raw=True, bfeat=', default-features = false, features = ["groth16"]' if False else ', default-features = false')

seed("c10-short-reverse", "C10", [(DOM, '''    fn bitreverse(mut n: u32, l: u32) -> u32 {
        let mut r = 0;
        for _ in 0..l {
            r = (r << 1) | (n & 1);
            n >>= 1;
        }
        r
    }
''', '''    fn bitreverse(n: u32, l: u32) -> u32 {
        // Two half-words cover every domain size in use.
        let low = u32::from((n as u16).reverse_bits());
        if l <= 16 {
            low >> (16 - l)
        } else {
            (low << (l - 16)) | (n >> 16)
        }
    }
''')], r'''
use bellman::domain::{EvaluationDomain, Scalar as S};
use bellman::multicore::Worker;
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "1");
    let w = Worker::new();
    for log in [10u32, 16, 17, 18] {
        let n = 1usize << log;
        // p = x^3: the k-th value is omega^(3k)
        let mut v = vec![S(Scalar::ZERO); n];
        v[3] = S(Scalar::ONE);
        v[n / 2 + 1] = S(Scalar::ONE);
        let mut d = EvaluationDomain::from_coeffs(v).unwrap();
        d.fft(&w);
        let mut omega = Scalar::ROOT_OF_UNITY;
        for _ in log..Scalar::S { omega = omega.square(); }
        for k in [1usize, 2, 5, n / 2, n - 1] {
            let x = omega.pow_vartime(&[k as u64, 0, 0, 0]);
            assert!(d.as_ref()[k].0 == x.pow_vartime(&[3, 0, 0, 0]) + x.pow_vartime(&[n as u64 / 2 + 1, 0, 0, 0]), "size 2^{} at {}", log, k);
        }
    }
}
''', "transforms of at least 2^18 points in one piece (2^17: the shift happens to be exact)", "large transforms are permuted wrongly")

seed("c08-buffered", "C08", [(GL, '''        let vk = VerifyingKey::<E>::read(&mut reader)?;

        let mut h = vec![];
''', '''        let vk = VerifyingKey::<E>::read(&mut reader)?;

        // The queries are large; do not issue a read for every element.
        let mut buffered = io::BufReader::with_capacity(1 << 16, reader);
        let reader = &mut buffered;

        let mut h = vec![];
'''), (GL, '''        let read_g1 = |reader: &mut R| -> io::Result<E::G1Affine> {
            let mut repr = <E::G1Affine''', '''        let read_g1 = |reader: &mut io::BufReader<R>| -> io::Result<E::G1Affine> {
            let mut repr = <E::G1Affine'''), (GL, '''        let read_g2 = |reader: &mut R| -> io::Result<E::G2Affine> {
            let mut repr = <E::G2Affine''', '''        let read_g2 = |reader: &mut io::BufReader<R>| -> io::Result<E::G2Affine> {
            let mut repr = <E::G2Affine''')] + [(GL, "                %s.push(read_g%d(&mut reader)?);\n" % (v, g), "                %s.push(read_g%d(reader)?);\n" % (v, g)) for v, g in (("h", 1), ("l", 1), ("a", 1), ("b_g1", 1), ("b_g2", 2))], MUL + r'''
fn main() {
    // Two parameter sets and a proof in one stream.
    let p = params(mul_none()).unwrap();
    let q = groth16::create_proof::<Bls12, _, _>(mul(3, 4, 12), &p, Scalar::from(5), Scalar::from(6)).unwrap();
    let mut v = vec![];
    p.write(&mut v).unwrap();
    q.write(&mut v).unwrap();
    let mut r = &v[..];
    assert!(groth16::Parameters::<Bls12>::read(&mut r, true).unwrap() == p);
    let got = groth16::Proof::<Bls12>::read(&mut r).expect("what follows the parameters was consumed");
    assert!(got == q);
}
''', "data following the parameters in the same stream", "reading parameters consumes what follows them")

seed("c09-preallocate", "C09", [(GL, '''        let mut ic = vec![];

''', '''        let mut ic = Vec::with_capacity(ic_len);

''')], MUL + r'''
fn main() {
    // A truncated key whose length field is damaged must be an error.
    let p = params(mul_none()).unwrap();
    let mut v = vec![];
    p.vk.write(&mut v).unwrap();
    let at = v.len() - p.vk.ic.len() * 96 - 4;
    for len in [3u32, 0xffff, 0xffff_ffff] {
        v[at..at + 4].copy_from_slice(&len.to_be_bytes());
        assert!(groth16::VerifyingKey::<Bls12>::read(&v[..]).is_err());
    }
}
''', "a damaged length field with a huge value", "the process aborts instead of returning an error")

seed("c06-r-zero", "C06", [(PRO, '''    let mut b1_answer: E::G1 = b_g1_inputs.wait()?;
    AddAssign::<&E::G1>::add_assign(&mut b1_answer, &b_g1_aux.wait()?);
''', '''    // B in G1 is only needed for its multiple by r.
    let mut b1_answer = E::G1::identity();
    if !r.is_zero_vartime() {
        b1_answer = b_g1_inputs.wait()?;
        AddAssign::<&E::G1>::add_assign(&mut b1_answer, &b_g1_aux.wait()?);
    }
'''), (PRO, "use group::{prime::PrimeCurveAffine, Curve};\n", "use group::{prime::PrimeCurveAffine, Curve, Group};\n")], MUL + r'''
fn main() {
    let mut p = params(mul_none()).unwrap();
    p.b_g1 = Arc::new(vec![]);
    for r in [1u64, 0] {
        assert!(groth16::create_proof::<Bls12, _, _>(mul(3, 4, 12), &p, Scalar::from(r), Scalar::from(6)).is_err(), "r = {}", r);
    }
}
''', "r = 0 and a damaged b_g1 query", "malformed parameters go unreported")

seed("c07-shared-z", "C07", [(BAT, '''        let ic_len = vk.ic.len();

        let acc = self
''', '''        let ic_len = vk.ic.len();

        // Sample the coefficient before the work is distributed.
        let z = loop {
            let z = E::Fr::random(&mut OsRng);
            if !z.is_zero_vartime() {
                break z;
            }
        };

        let acc = self
'''), (BAT, '''                let mut ml_terms: Vec<(E::G1Affine, E::G2Prepared)> = vec![];
                let z = loop {
                    let z = E::Fr::random(&mut OsRng);
                    if !z.is_zero_vartime() {
                        break z;
                    }
                };
                let mut cur_z = z;
''', '''                let mut ml_terms: Vec<(E::G1Affine, E::G2Prepared)> = vec![];
                let mut cur_z = z;
''')], MUL + r'''
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "2");
    let p = params(mul_none()).unwrap();
    let proof = groth16::create_proof(mul(3, 5, 15), &p, Scalar::from(3), Scalar::from(4)).unwrap();
    let d = G1Affine::generator() * Scalar::from(99);
    let tamper = |s: Scalar| { let mut q = proof.clone(); q.c = (q.c.to_curve() + d * s).to_affine(); (q, vec![Scalar::from(15)]) };
    // Two tampered proofs whose errors cancel when they get the same coefficient, at every distance.
    for j in 1..40 {
        let mut v = groth16::batch::Verifier::<Bls12>::new();
        for k in 0..40 {
            if k == 0 { v.queue(tamper(Scalar::ONE)) } else if k == j { v.queue(tamper(-Scalar::ONE)) } else { v.queue((proof.clone(), vec![Scalar::from(15)])) }
        }
        assert!(v.verify_multicore(&p.vk).is_err(), "invalid proofs at 0 and {} accepted", j);
    }
}
''', "invalid proofs in different chunks whose errors cancel", "a batch with invalid proofs is accepted with certainty", env=r"""mkdir -p "$d/g"; ln -s "$repo/groth16/src" "$d/g/src"
sed -e "/^.dev-dependencies/,\$ d" -e "s#path = \"../\"#path = \"$repo\"#" -e "s#^readme.*##" "$repo/groth16/Cargo.toml" > "$d/g/Cargo.toml"
printf 'rayon = "1.5.1"\n[features]\nmulticore = []\n' >> "$d/g/Cargo.toml"
sed -i "s#path = \"$repo/groth16\"#path = \"g\", features = [\"multicore\"]#" "$d/Cargo.toml" """)

seed("c12-ceil-chunk", "C12", [(MC, '''            let chunk_size = if elements < num_threads {
                1
            } else {
                elements / num_threads
            };
''', '''            // Round up, so that there is no more than one chunk per thread.
            let chunk_size = (elements + num_threads - 1) / num_threads;
''')], r'''
// A circuit without private variables.
struct Square(Option<Scalar>);
impl Circuit<Scalar> for Square {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let x = cs.alloc_input(|| "x", || self.0.ok_or(SynthesisError::AssignmentMissing))?;
        cs.enforce(|| "c", |lc| lc + x, |lc| lc + x, |lc| lc + x);
        Ok(())
    }
}
fn main() {
    let p = params(Square(None)).unwrap();
    let q = groth16::create_proof::<Bls12, _, _>(Square(Some(Scalar::ONE)), &p, Scalar::from(5), Scalar::from(6)).unwrap();
    assert!(groth16::verify_proof(&groth16::prepare_verifying_key(&p.vk), &q, &[Scalar::ONE]).is_ok());
}
''', "a circuit without private variables", "generation panics with the multicore feature")

seed("c04-skip-empty", "C04", [(PRO, '''        self.a.push(Scalar(eval(
            &a,
''', '''        // A constraint without terms holds for every assignment.
        if a.as_ref().is_empty() && b.as_ref().is_empty() && c.as_ref().is_empty() {
            return;
        }

        self.a.push(Scalar(eval(
            &a,
''')], r'''
struct C(Option<Scalar>);
impl Circuit<Scalar> for C {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let x = cs.alloc(|| "x", || self.0.ok_or(SynthesisError::AssignmentMissing))?;
        cs.enforce(|| "nothing", |lc| lc, |lc| lc, |lc| lc);
        let y = cs.alloc_input(|| "y", || self.0.map(|x| x * x).ok_or(SynthesisError::AssignmentMissing))?;
        cs.enforce(|| "square", |lc| lc + x, |lc| lc + x, |lc| lc + y);
        Ok(())
    }
}
fn main() {
    let p = params(C(None)).unwrap();
    let q = groth16::create_proof::<Bls12, _, _>(C(Some(Scalar::from(3))), &p, Scalar::from(5), Scalar::from(6)).unwrap();
    assert!(groth16::verify_proof(&groth16::prepare_verifying_key(&p.vk), &q, &[Scalar::from(9)]).is_ok());
}
''', "a constraint without any term before other constraints", "the prover's constraints no longer line up with the key's")
SEEDS = [s for s in SEEDS if s and s["demo"]]
