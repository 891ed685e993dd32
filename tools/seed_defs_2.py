GEN = "groth16/src/generator.rs"; PRO = "groth16/src/prover.rs"; VER = "groth16/src/verifier.rs"; BAT = "groth16/src/verifier/batch.rs"; GL = "groth16/src/lib.rs"
DOM = "src/domain.rs"; MX = "src/multiexp.rs"; MC = "src/multicore.rs"; LIB = "src/lib.rs"
BOOL = "src/gadgets/boolean.rs"; NUM = "src/gadgets/num.rs"; U32 = "src/gadgets/uint32.rs"; MEQ = "src/gadgets/multieq.rs"; MP = "src/gadgets/multipack.rs"; LK = "src/gadgets/lookup.rs"; TC = "src/gadgets/test/mod.rs"; SHA = "src/gadgets/sha256.rs"; BL = "src/gadgets/blake2s.rs"
MUL = r'''
// x * y = z (public).
#[derive(Clone)]
struct Mul { x: Option<Scalar>, y: Option<Scalar>, z: Option<Scalar> }
impl Circuit<Scalar> for Mul {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let g = |v: Option<Scalar>| v.ok_or(SynthesisError::AssignmentMissing);
        let x = cs.alloc(|| "x", || g(self.x))?;
        let y = cs.alloc(|| "y", || g(self.y))?;
        let z = cs.alloc_input(|| "z", || g(self.z))?;
        cs.enforce(|| "m", |lc| lc + x, |lc| lc + y, |lc| lc + z);
        Ok(())
    }
}
fn mul(x: u64, y: u64, z: u64) -> Mul { Mul { x: Some(Scalar::from(x)), y: Some(Scalar::from(y)), z: Some(Scalar::from(z)) } }
fn mul_none() -> Mul { Mul { x: None, y: None, z: None } }
'''
GADGET = r'''
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::num::{AllocatedNum, Num};
use bellman::gadgets::uint32::UInt32;
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::test::TestConstraintSystem;
type TCS = TestConstraintSystem<Scalar>;
'''
SEEDS = []
def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

seed("c02-identity-rejected", "C02", [(VER, '''    if (public_inputs.len() + 1) != pvk.ic.len() {
        return Err(VerificationError::InvalidVerifyingKey);
    }
''', '''    if (public_inputs.len() + 1) != pvk.ic.len() {
        return Err(VerificationError::InvalidVerifyingKey);
    }

    // A proof never contains the point at infinity.
    if bool::from(proof.a.is_identity() | proof.b.is_identity() | proof.c.is_identity()) {
        return Err(VerificationError::InvalidProof);
    }
''')], r'''
fn main() {
    // alpha = beta = gamma = delta = 1, ic = [2]: a * b = 1 + 2 + c.
    let (g, h) = (G1Affine::generator(), G2Affine::generator());
    let vk = groth16::VerifyingKey::<Bls12> { alpha_g1: g, beta_g1: g, beta_g2: h, gamma_g2: h, delta_g1: g, delta_g2: h, ic: vec![(g * Scalar::from(2)).to_affine()] };
    let pvk = groth16::prepare_verifying_key(&vk);
    let proof = |a: u64, b: u64, c: u64| groth16::Proof::<Bls12> { a: (g * Scalar::from(a)).to_affine(), b: (h * Scalar::from(b)).to_affine(), c: (g * Scalar::from(c)).to_affine() };
    assert!(groth16::verify_proof(&pvk, &proof(2, 2, 1), &[]).is_ok());
    assert!(groth16::verify_proof(&pvk, &proof(2, 2, 2), &[]).is_err());
    assert!(groth16::verify_proof(&pvk, &proof(3, 1, 0), &[]).is_ok(), "the equation holds for a proof with C = 0 but it is rejected");
}
''', "a proof element that is the identity while the equation holds", "the verifier's verdict differs from the Groth16 equation")

seed("c03-gamma-zero", "C03", [(GEN, '''        let inverse = gamma.invert();
        if bool::from(inverse.is_some()) {
            Ok(inverse.unwrap())
        } else {
            Err(SynthesisError::UnexpectedIdentity)
        }''', '''        let inverse = gamma.invert();
        if bool::from(inverse.is_some()) || assembly.num_inputs == 1 {
            // Without public inputs there is nothing to divide by gamma.
            Ok(inverse.unwrap_or(E::Fr::ZERO))
        } else {
            Err(SynthesisError::UnexpectedIdentity)
        }''')], r'''
#[derive(Clone)]
struct Sq(Option<u64>);
impl Circuit<Scalar> for Sq {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let g = |v: Option<u64>| v.map(Scalar::from).ok_or(SynthesisError::AssignmentMissing);
        let x = cs.alloc(|| "x", || g(self.0))?;
        cs.enforce(|| "m", |lc| lc + x, |lc| lc + x, |lc| lc + (Scalar::from(9), CS::one()));
        Ok(())
    }
}
fn main() {
    let f = |k: u64| Scalar::from(k);
    let gen = |gamma: u64, delta: u64| groth16::generate_parameters::<Bls12, _>(Sq(None), G1Projective::generator(), G2Projective::generator(), f(11), f(12), f(gamma), f(delta), f(17));
    assert!(gen(13, 14).is_ok());
    assert!(matches!(gen(13, 0), Err(SynthesisError::UnexpectedIdentity)));
    assert!(matches!(gen(0, 14), Err(SynthesisError::UnexpectedIdentity)), "parameters generated with gamma = 0");
}
''', "gamma = 0 and a circuit without public inputs", "parameter generation returns a key with an identity gamma instead of UnexpectedIdentity")

seed("c03-one-unconstrained", "C03", [(GEN, '''    for e in l.iter() {
        if e.is_identity().into() {
            return Err(SynthesisError::UnconstrainedVariable);
        }
    }
''', '''    if !l.is_empty() && l.iter().rev().step_by(2).any(|e| e.is_identity().into()) {
        return Err(SynthesisError::UnconstrainedVariable);
    }
''')], r'''
struct U(usize);
impl Circuit<Scalar> for U {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        for i in 0..4 {
            let v = cs.alloc(|| format!("v{}", i), || Ok(Scalar::from(3)))?;
            if i != self.0 { cs.enforce(|| format!("c{}", i), |lc| lc + v, |lc| lc + CS::one(), |lc| lc + (Scalar::from(3), CS::one())); }
        }
        Ok(())
    }
}
fn main() {
    assert!(params(U(9)).is_ok());
    for i in 0..4 {
        assert!(matches!(params(U(i)), Err(SynthesisError::UnconstrainedVariable)), "variable {} is unconstrained but parameters were generated", i);
    }
}
''', "an unconstrained private variable at a position of the other parity", "parameters are generated for a circuit with an unconstrained variable")

seed("c04-missing-input", "C04", [(PRO, '''        self.input_assignment.push(f()?);
        self.b_input_density''', '''        // Inputs that are not known count as zero, the verifier supplies the real ones.
        self.input_assignment.push(match f() {
            Err(SynthesisError::AssignmentMissing) => S::ZERO,
            value => value?,
        });
        self.b_input_density''')], MUL + r'''
fn main() {
    let p = params(mul_none()).unwrap();
    let c = Mul { x: Some(Scalar::from(0)), y: Some(Scalar::from(5)), z: None };
    assert!(matches!(groth16::create_proof(c, &p, Scalar::from(3), Scalar::from(4)), Err(SynthesisError::AssignmentMissing)), "a proof was made without knowing a public input");
    let c = Mul { x: None, y: Some(Scalar::from(5)), z: Some(Scalar::from(0)) };
    assert!(matches!(groth16::create_proof(c, &p, Scalar::from(3), Scalar::from(4)), Err(SynthesisError::AssignmentMissing)));
}
''', "a public input whose value is missing while all private ones are known", "proving returns a proof although synthesis fails with AssignmentMissing")

seed("c04-minus-one", "C04", [(PRO, '''            if coeff != S::ONE {
                tmp *= coeff;
            }
            acc += tmp;
''', '''            // Most coefficients are 1 or -1.
            if coeff == S::ONE {
                acc += tmp;
                continue;
            }
            tmp *= coeff;
            acc += if acc.is_zero_vartime() && coeff == -S::ONE { -tmp } else { tmp };
''')], r'''
// (1*one - x) and (-x + one) in different term orders.
#[derive(Clone)]
struct B(Option<u64>);
impl Circuit<Scalar> for B {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let x = cs.alloc(|| "x", || self.0.map(Scalar::from).ok_or(SynthesisError::AssignmentMissing))?;
        cs.enforce(|| "m", |lc| lc - x + CS::one(), |lc| lc + x, |lc| lc - (Scalar::from(6), CS::one()));
        Ok(())
    }
}
fn main() {
    let p = params(B(None)).unwrap();
    let pvk = groth16::prepare_verifying_key(&p.vk);
    let proof = groth16::create_proof(B(Some(3)), &p, Scalar::from(3), Scalar::from(4)).unwrap();
    assert!(groth16::verify_proof(&pvk, &proof, &[]).is_ok(), "an honest proof of (1 - 3) * 3 = -6 is rejected");
}
''', "a linear combination that starts with a term of coefficient -1", "the prover evaluates such a combination wrongly and the proof is not the Groth16 one")

seed("c05-gamma-is-delta", "C05", [(GEN, "    let delta = E::Fr::random(&mut rng);\n    let tau = E::Fr::random(&mut rng);\n", "    let delta = gamma;\n    let tau = E::Fr::random(&mut rng);\n")], MUL + r'''
fn main() {
    let p = params(mul_none()).unwrap();
    assert!(p.vk.gamma_g2 != p.vk.delta_g2, "gamma and delta were not drawn independently");
    let mut rng = Rng(0x1234567);
    let g1 = G1Projective::random(&mut rng);
    let g2 = G2Projective::random(&mut rng);
    let mut t = || Scalar::random(&mut rng);
    let (alpha, beta, gamma, delta, tau) = (t(), t(), t(), t(), t());
    let q = groth16::generate_parameters::<Bls12, _>(mul_none(), g1, g2, alpha, beta, gamma, delta, tau).unwrap();
    assert!(p == q);
}
''', "looking at the distribution of the trapdoor (proofs and verification work as before)", "gamma equals delta, so the keys are unsound")

seed("c06-identity-base", "C06", [(MX, '''        if self.0[self.1].is_identity().into() {
            return Err(SynthesisError::UnexpectedIdentity);
        }

        let ret = &self.0[self.1];''', '''        // Adding an identity is a no-op, except at the start where it
        // would mean that the whole query is degenerate.
        if self.1 == 0 && bool::from(self.0[self.1].is_identity()) {
            return Err(SynthesisError::UnexpectedIdentity);
        }

        let ret = &self.0[self.1];''')], MUL + r'''
fn main() {
    let p = params(mul_none()).unwrap();
    for i in 0..p.l.len() {
        let mut q = p.clone();
        let mut l = (*p.l).clone(); l[i] = G1Affine::identity(); q.l = Arc::new(l);
        let r = groth16::create_proof(mul(3, 5, 15), &q, Scalar::from(3), Scalar::from(4));
        assert!(matches!(r, Err(SynthesisError::UnexpectedIdentity)), "identity at l[{}] accepted", i);
    }
}
''', "an identity element in a query at any position but the first", "the prover uses malformed parameters and returns a useless proof")

seed("c07-short-inputs", "C07", [(BAT, '''        if self
            .items
            .iter()
            .any(|Item { inputs, .. }| inputs.len() + 1 != vk.ic.len())
        {
            return Err(VerificationError::InvalidVerifyingKey);
        }

        let mut ml_terms = Vec''', '''        // All items of a batch are for the same statement, so they have equally many inputs.
        if let Some(Item { inputs, .. }) = self.items.last() {
            if inputs.len() + 1 != vk.ic.len() {
                return Err(VerificationError::InvalidVerifyingKey);
            }
        }

        let mut ml_terms = Vec''')], MUL + r'''
fn main() {
    let p = params(mul_none()).unwrap();
    let zero = groth16::create_proof(mul(0, 5, 0), &p, Scalar::from(3), Scalar::from(4)).unwrap();
    let f = Scalar::from(0);
    for (first, second, ok) in [(vec![f], vec![f], true), (vec![], vec![f], false), (vec![f], vec![], false), (vec![f, f], vec![f], false)] {
        let mut v = groth16::batch::Verifier::<Bls12>::new();
        v.queue((zero.clone(), first.clone()));
        v.queue((zero.clone(), second.clone()));
        let r = v.verify(Rng(7), &p.vk);
        assert!(r.is_ok() == ok, "inputs {:?} {:?}: {:?}", first.len(), second.len(), r);
    }
}
''', "a batch in which an item other than the last has the wrong number of inputs", "a batch with missing or surplus public inputs is accepted")

seed("c07-chunk-power", "C07", [(BAT, '''                    acc.delta += proof.c * cur_z;
                    acc.y += &cur_z;
                    ml_terms.push(((proof.a * cur_z).into(), (-proof.b).into()));

                    cur_z *= z;''', '''                    acc.delta += proof.c * cur_z;
                    acc.y += &cur_z;
                    ml_terms.push(((proof.a * cur_z).into(), (-proof.b).into()));

                    // Powers z, z^2, z^4, ... need no multiplications.
                    cur_z = if ml_terms.len() < 4 { cur_z.square() } else { z };''')], MUL + r'''
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "1");
    let p = params(mul_none()).unwrap();
    let proof = groth16::create_proof(mul(3, 5, 15), &p, Scalar::from(3), Scalar::from(4)).unwrap();
    let good = || (proof.clone(), vec![Scalar::from(15)]);
    // Two tampered proofs whose errors cancel when they get the same coefficient.
    let d = G1Affine::generator() * Scalar::from(99);
    let tamper = |s: Scalar| { let mut q = proof.clone(); q.c = (q.c.to_curve() + d * s).to_affine(); (q, vec![Scalar::from(15)]) };
    for i in 0..8 { for j in 0..8 { if i != j {
        let mut v = groth16::batch::Verifier::<Bls12>::new();
        for k in 0..8 {
            if k == i { v.queue(tamper(Scalar::ONE)) } else if k == j { v.queue(tamper(-Scalar::ONE)) } else { v.queue(good()) }
        }
        assert!(v.verify_multicore(&p.vk).is_err(), "invalid proofs at {} and {} accepted", i, j);
    }}}
}
''', "two invalid proofs in one chunk of the multi-threaded verifier whose errors cancel", "items share a coefficient, so an adversarial batch of invalid proofs is accepted with certainty",
     # The multi-threaded verifier sits behind a feature that groth16 does not declare; the demonstration declares it.
     env=r"""mkdir -p "$d/g"; ln -s "$repo/groth16/src" "$d/g/src"
sed -e "/^.dev-dependencies/,\$ d" -e "s#path = \"../\"#path = \"$repo\"#" -e "s#^readme.*##" "$repo/groth16/Cargo.toml" > "$d/g/Cargo.toml"
printf 'rayon = "1.5.1"\n[features]\nmulticore = []\n' >> "$d/g/Cargo.toml"
sed -i "s#path = \"$repo/groth16\"#path = \"g\", features = [\"multicore\"]#" "$d/Cargo.toml" """)

seed("c08-params-order", "C08", [(GL, '''            && self.h == other.h
            && self.l == other.l
            && self.a == other.a
            && self.b_g1 == other.b_g1
            && self.b_g2 == other.b_g2''', '''            && self.h == other.h
            && self.l == other.l
            && self.a == other.a
            && self.b_g1.len() == other.b_g1.len()
            && self.b_g2 == other.b_g2''')], MUL + r'''
fn main() {
    let p = params(mul_none()).unwrap();
    let mut q = p.clone();
    let mut b = (*p.b_g1).clone(); b[0] = (b[0] + G1Projective::generator()).to_affine(); q.b_g1 = Arc::new(b);
    assert!(p != q, "parameters with different b_g1 queries compare equal");
    assert!(p == p.clone());
}
''', "parameters that differ in the b_g1 query only", "unequal parameters compare equal")

seed("c09-truncated-query", "C09", [(GL, '''            let len = reader.read_u32::<BigEndian>()? as usize;
            for _ in 0..len {
                b_g2.push(read_g2(&mut reader)?);
            }''', '''            let len = reader.read_u32::<BigEndian>()? as usize;
            while b_g2.len() < len {
                match read_g2(&mut reader) {
                    Ok(e) => b_g2.push(e),
                    // The length is only an upper bound.
                    Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => break,
                    Err(e) => return Err(e),
                }
            }''')], MUL + r'''
fn main() {
    let p = params(mul_none()).unwrap();
    let mut buf = vec![]; p.write(&mut buf).unwrap();
    for cut in 1..=200 {
        for checked in [false, true] {
            assert!(groth16::Parameters::<Bls12>::read(&buf[..buf.len() - cut], checked).is_err(), "input without its last {} bytes was read", cut);
        }
    }
}
''', "an input that ends inside the last query", "truncated parameters are read without an error")


seed("c10-short-chunk", "C10", [(DOM, "                let mut idx = idx * chunk;\n", "                let mut idx = idx * a.len();\n")], r'''
use bellman::domain::{EvaluationDomain, Scalar as S};
use bellman::multicore::Worker;
fn main() {
    let w = Worker::new();
    for k in 0..7u32 {
        let n = 1usize << k;
        let v: Vec<_> = (0..n).map(|i| S(Scalar::from((i * i + 1) as u64))).collect();
        let mut d = EvaluationDomain::from_coeffs(v.clone()).unwrap();
        let omega = (k..32).fold(Scalar::ROOT_OF_UNITY, |a, _| a.square());
        d.fft(&w);
        for (i, y) in d.as_ref().iter().enumerate() {
            let x = Field::pow_vartime(&omega, [i as u64]);
            let want = v.iter().rev().fold(Scalar::ZERO, |a, c| a * x + c.0);
            assert!(y.0 == want, "fft of size {} wrong at {}", n, i);
        }
    }
}
''', "a thread count that does not divide the domain size", "the last, shorter part of a parallel FFT is taken from the wrong place", env="export RAYON_NUM_THREADS=6")

seed("c11-empty-list", "C11", [(MX, "    let c = if exponents.len() < 32 {\n        3u32\n", "    let c = if (1..32).contains(&exponents.len()) {\n        3u32\n")], r'''
use bellman::multiexp::{multiexp, FullDensity};
fn main() {
    let w = bellman::multicore::Worker::new();
    let r = std::panic::catch_unwind(|| {
        let r: Result<G1Projective, _> = multiexp(&w, (Arc::new(Vec::<G1Affine>::new()), 0), FullDensity, Arc::new(vec![])).wait();
        r
    });
    assert!(matches!(r, Ok(Ok(p)) if bool::from(p.is_identity())), "the empty sum is not the identity");
}
''', "an empty list of exponents (a circuit without private variables)", "the empty multi-exponentiation does not return the identity but dies")

seed("c12-power-chunk", "C12", [(GEN, "                        let mut current_tau_power = tau.pow_vartime(&[(i * chunk) as u64]);\n", "                        let mut current_tau_power =\n                            tau.pow_vartime(&[(i * powers_of_tau.len()) as u64]);\n")], r'''
#[derive(Clone)]
struct Chain(Option<u64>, usize);
impl Circuit<Scalar> for Chain {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut val = self.0.map(Scalar::from);
        let mut x = cs.alloc(|| "x", || val.ok_or(SynthesisError::AssignmentMissing))?;
        for i in 0..self.1 {
            let sq = val.map(|v| v.square());
            let y = cs.alloc(|| format!("y{}", i), || sq.ok_or(SynthesisError::AssignmentMissing))?;
            cs.enforce(|| format!("c{}", i), |lc| lc + x, |lc| lc + x, |lc| lc + y);
            x = y; val = sq;
        }
        Ok(())
    }
}
fn main() {
    for n in [1, 3, 7, 12, 15] {
        let p = params(Chain(None, n)).unwrap();
        let pvk = groth16::prepare_verifying_key(&p.vk);
        let proof = groth16::create_proof(Chain(Some(3), n), &p, Scalar::from(3), Scalar::from(4)).unwrap();
        assert!(groth16::verify_proof(&pvk, &proof, &[]).is_ok(), "honest proof of {} constraints rejected", n);
    }
}
''', "a number of threads that does not divide the domain size", "the generated parameters depend on the number of threads", env="export RAYON_NUM_THREADS=3")



seed("c13-wait-guard", "C13", [(MC, "            if rayon::current_thread_index().is_some() {\n", "            if rayon::current_thread_index().map_or(false, |i| i + 1 == current_num_threads()) {\n")], r'''
use bellman::multicore::Worker;
fn main() {
    // Tasks that wait inside the pool: each of them has to panic, none may return or block.
    let (tx, rx) = std::sync::mpsc::channel();
    std::panic::set_hook(Box::new(|_| {}));
    for _ in 0..4 {
        let tx = tx.clone();
        Worker::new().compute(move || {
            let w = Worker::new().compute(|| 5);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.wait()));
            tx.send(r.is_err()).unwrap();
        });
    }
    for _ in 0..4 {
        let r = rx.recv_timeout(std::time::Duration::from_secs(20)).expect("a task is blocked in wait()");
        assert!(r, "wait() inside the pool did not panic");
    }
}
''', "a task that waits while it runs on any pool thread but the last", "waiting inside the pool blocks a pool thread (and deadlocks when all of them do it)", env="export RAYON_NUM_THREADS=2")

seed("c13-done-rendezvous", "C13", [(MC, '''        pub fn done(val: T) -> Self {
            let (sender, receiver) = bounded(1);
            sender.send(val).unwrap();
''', '''        pub fn done(val: T) -> Self {
            let (sender, receiver) = bounded(1);
            let _ = sender.try_send(val);
            drop(receiver.try_iter().next());
''')], r'''
use bellman::multicore::Waiter;
fn main() {
    let w = Waiter::done(5);
    assert_eq!(w.wait(), 5);
}
''', "using the one-off constructor of a waiter", "a waiter made from a finished value does not deliver it")

seed("c14-equal-same-variable", "C14", [(BOOL, '''            (a, b) => {
                cs.enforce(
                    || "enforce equal",''', '''            // The same variable is equal to itself, no constraint is needed.
            (
                &Boolean::Is(ref a) | &Boolean::Not(ref a),
                &Boolean::Is(ref b) | &Boolean::Not(ref b),
            ) if a.get_variable().get_unchecked() == b.get_variable().get_unchecked() => Ok(()),
            (a, b) => {
                cs.enforce(
                    || "enforce equal",''')], GADGET + r'''
fn main() {
    for v in [false, true] {
        let mut cs = TCS::new();
        let a = Boolean::from(AllocatedBit::alloc(cs.namespace(|| "a"), Some(v)).unwrap());
        Boolean::enforce_equal(cs.namespace(|| "same"), &a, &a).unwrap();
        assert!(cs.is_satisfied());
        let r = Boolean::enforce_equal(cs.namespace(|| "not"), &a, &a.not());
        assert!(r.is_err() || !cs.is_satisfied(), "a = NOT a is satisfied");
    }
}
''', "equality of a boolean with its own negation", "a contradiction is accepted without a constraint")

seed("c14-free-product", "C14", [(BOOL, '''        let bc = Self::and(cs.namespace(|| "b and c"), b, c)?;
''', '''        // Only the product is needed here, its value is determined by the operands.
        let bc: Boolean = AllocatedBit::alloc(
            cs.namespace(|| "b and c"),
            match (b.get_value(), c.get_value()) {
                (Some(b), Some(c)) => Some(b & c),
                _ => None,
            },
        )?
        .into();
''')], GADGET + r'''
fn main() {
    let mut cs = TCS::new();
    let mut b = |n: &str, v| Boolean::from(AllocatedBit::alloc(cs.namespace(|| n.to_string()), Some(v)).unwrap());
    let (x, y, z) = (b("a", false), b("b", false), b("c", false));
    let m = Boolean::sha256_maj(cs.namespace(|| "m"), &x, &y, &z).unwrap();
    assert!(cs.is_satisfied() && m.get_value() == Some(false));
    for p in ["m/b and c/boolean", "m/b and c/and result"] {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cs.set(p, Scalar::ONE)));
        if r.is_ok() {
            cs.set("m/maj", Scalar::ONE);
            assert!(!cs.is_satisfied(), "maj(0, 0, 0) = 1 satisfies the constraints");
        }
    }
}
''', "a malicious assignment of the intermediate product of the majority function", "the majority gadget is unsound")

seed("c15-reverse-sum", "C15", [(NUM, '''            |lc| lc + b.variable - a.variable,
            |_| condition.lc(CS::one(), Scalar::ONE),
            |lc| lc + b.variable - d.variable,''', '''            |lc| lc + b.variable - d.variable,
            |lc| lc + a.variable - d.variable,
            |lc| lc,''')], GADGET + r'''
fn main() {
    for cond in [false, true] {
        let mut cs = TCS::new();
        let a = AllocatedNum::alloc(cs.namespace(|| "a"), || Ok(Scalar::from(3))).unwrap();
        let b = AllocatedNum::alloc(cs.namespace(|| "b"), || Ok(Scalar::from(4))).unwrap();
        let k = Boolean::from(AllocatedBit::alloc(cs.namespace(|| "k"), Some(cond)).unwrap());
        AllocatedNum::conditionally_reverse(cs.namespace(|| "r"), &a, &b, &k).unwrap();
        assert!(cs.is_satisfied());
        cs.set("r/conditional reversal result 2/num", Scalar::from(if cond { 4 } else { 3 }));
        assert!(!cs.is_satisfied(), "the second result can be either operand");
    }
}
''', "a malicious assignment of the second result", "the second output is only constrained to be one of the operands")

seed("c16-negated-bits", "C16", [(U32, '''                    Some(false) => {
                        if let Some(v) = value.as_mut() {
                            *v |= 1;
                        }
                    }
                    Some(true) => {}
                    None => value = None,''', '''                    Some(bit) => {
                        if let Some(v) = value.as_mut() {
                            *v |= bit as u32;
                        }
                    }
                    None => value = None,''')], GADGET + r'''
fn main() {
    let mut cs = TCS::new();
    let bits: Vec<_> = (0..32).map(|i| Boolean::from(AllocatedBit::alloc(cs.namespace(|| format!("b{}", i)), Some(i % 3 == 0)).unwrap())).map(|b| b.not()).collect();
    let w = UInt32::from_bits(&bits);
    let z = UInt32::constant(1);
    let got = { let mut m = MultiEq::new(cs.namespace(|| "m")); UInt32::addmany(m.namespace(|| "sum"), &[w, z]).unwrap().into_bits() };
    let val = (0..32).filter(|i| i % 3 != 0).fold(0u32, |a, i| a | 1 << i).wrapping_add(1);
    assert!(cs.is_satisfied(), "the honest assignment is rejected");
    for (i, b) in got.iter().enumerate() { assert_eq!(b.get_value(), Some(val >> i & 1 == 1)); }
}
''', "a word built from negated bits in little-endian order", "the tracked value differs from the bits, so later additions are unsatisfiable")

seed("c16-width-of-word", "C16", [(U32, "        cs.get_root().enforce_equal(i, &lc, &result_lc);\n", "        cs.get_root().enforce_equal(32, &lc, &result_lc);\n")], GADGET + r'''
fn main() {
    let mut cs = TCS::new();
    {
        let mut m = MultiEq::new(&mut cs);
        let a: Vec<_> = (0..4).map(|i| UInt32::alloc(m.namespace(|| format!("a{}", i)), Some(1)).unwrap()).collect();
        UInt32::addmany(m.namespace(|| "s"), &a).unwrap();
        UInt32::addmany(m.namespace(|| "t"), &a).unwrap();
    }
    assert!(cs.is_satisfied());
    // s = 4 + 2^32, t = 4 - 1 = 3
    cs.set("s/result bit 32/boolean", Scalar::ONE);
    cs.set("t/result bit 2/boolean", Scalar::ZERO);
    cs.set("t/result bit 1/boolean", Scalar::ONE);
    cs.set("t/result bit 0/boolean", Scalar::ONE);
    assert!(!cs.is_satisfied(), "1 + 1 + 1 + 1 = 3 satisfies the constraints");
}
''', "two packed sums of more than one operand and a malicious carry", "carries of one sum leak into the next one: wrong sums satisfy the constraints")

seed("c17-input-as-aux", "C17", [(MEQ, "        self.cs.alloc_input(annotation, f)\n", "        self.cs.alloc(annotation, f)\n")], GADGET + r'''
fn main() {
    let mut cs = TCS::new();
    {
        let mut m = MultiEq::new(&mut cs);
        let v = m.alloc_input(|| "in", || Ok(Scalar::from(3))).unwrap();
        m.enforce_equal(4, &(LinearCombination::zero() + v), &(LinearCombination::zero() + (Scalar::from(3), TCS::one())));
    }
    assert!(cs.is_satisfied());
    assert_eq!(cs.num_inputs(), 2, "the public input became a private variable");
    assert!(cs.verify(&[Scalar::from(3)]));
}
''', "allocating a public input through the accumulator", "public inputs become private variables")

seed("c17-empty-side", "C17", [(MEQ, '''        // Check if we will exceed the capacity
''', '''        // Nothing to enforce
        if lhs.as_ref().is_empty() || rhs.as_ref().is_empty() {
            return;
        }

        // Check if we will exceed the capacity
''')], GADGET + r'''
fn main() {
    for v in [0u64, 1] {
        let mut cs = TCS::new();
        {
            let mut m = MultiEq::new(&mut cs);
            let x = m.alloc(|| "x", || Ok(Scalar::from(v))).unwrap();
            m.enforce_equal(1, &(LinearCombination::zero() + x), &LinearCombination::zero());
        }
        assert_eq!(cs.is_satisfied(), v == 0, "x = 0 with x = {}", v);
    }
}
''', "an equality one side of which is the empty linear combination", "equalities with zero are dropped")

seed("c18-constant-chunk", "C18", [(MP, '''        // num * 1 = input
        cs.enforce(
            || format!("packing constraint {}", i),
            |_| num.lc(Scalar::ONE),''', '''        // A chunk of constants is known to the verifier anyway.
        if bits.iter().all(|b| b.is_constant()) {
            continue;
        }

        // num * 1 = input
        cs.enforce(
            || format!("packing constraint {}", i),
            |_| num.lc(Scalar::ONE),''')], GADGET + r'''
use bellman::gadgets::multipack::pack_into_inputs;
fn main() {
    let mut cs = TCS::new();
    pack_into_inputs(cs.namespace(|| "p"), &[Boolean::constant(true), Boolean::constant(true)]).unwrap();
    assert!(cs.is_satisfied() && cs.verify(&[Scalar::from(3)]));
    cs.set("p/input 0", Scalar::from(2));
    assert!(!cs.is_satisfied(), "the input for constant bits is unconstrained");
}
''', "a chunk that consists of constant bits only", "the packed input is unconstrained")

seed("c19-constant-sign", "C19", [(LK, '''        |lc| lc + &y_lc + &y_lc,
        |lc| lc + &bits[2].lc::<Scalar>(one, Scalar::ONE),
        |lc| lc + &y_lc - y.get_variable(),''', '''        |lc| lc + &y_lc + &y_lc,
        |lc| match bits[2] {
            // The sign is known, so there is nothing to select.
            Boolean::Constant(_) => lc,
            ref sign => lc + &sign.lc::<Scalar>(one, Scalar::ONE),
        },
        |lc| match bits[2] {
            Boolean::Constant(true) => lc - &y_lc - y.get_variable(),
            Boolean::Constant(false) if y_coeffs[0b11].is_zero_vartime() => lc,
            _ => lc + &y_lc - y.get_variable(),
        },''')], GADGET + r'''
use bellman::gadgets::lookup::lookup3_xy_with_conditional_negation;
fn main() {
    // an affine table: the coefficient of the product of the two bits is zero
    let table: Vec<_> = (0..4u64).map(|i| (Scalar::from(i * i + 7), Scalar::from(3 * i + 5))).collect();
    for sel in 0..4 { for sign in [false, true] {
        let mut cs = TCS::new();
        let b: Vec<_> = (0..2).map(|i| Boolean::from(AllocatedBit::alloc(cs.namespace(|| format!("b{}", i)), Some(sel >> i & 1 == 1)).unwrap())).chain(Some(Boolean::constant(sign))).collect();
        let (_, y) = lookup3_xy_with_conditional_negation(cs.namespace(|| "l"), &b, &table).unwrap();
        let want = if sign { -table[sel].1 } else { table[sel].1 };
        assert!(cs.is_satisfied() && y.get_value() == Some(want));
        cs.set("l/y/num", want + Scalar::ONE);
        assert!(!cs.is_satisfied(), "y is unconstrained for entry {} with sign {}", sel, sign);
    }}
}
''', "a constant sign bit together with a table whose y coordinates are affine in the selection bits", "the looked-up y coordinate is unconstrained")



seed("c23-empty-name", "C23", [(TC, '''    for ns in ns.iter().chain(Some(&this).into_iter()) {
        if needs_separation {''', '''    for ns in ns.iter().chain(Some(&this).into_iter()) {
        if needs_separation && !ns.is_empty() {''')], GADGET + r'''
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut cs = TCS::new();
        { let mut ns = cs.namespace(|| "a"); ns.alloc(|| "", || Ok(Scalar::from(3))).unwrap(); }
        cs.get("a/")
    });
    assert!(matches!(r, Ok(v) if v == Scalar::from(3)), "the variable `` in the namespace `a` collides with the namespace itself");
}
''', "an object with an empty name inside a namespace", "distinct paths collide")

seed("c23-hash-tags", "C23", [(TC, '''                buf[0] = b'A';
                BigEndian::write_u64(&mut buf[1..9], i as u64);''', '''                buf[0] = b'I';
                BigEndian::write_u64(&mut buf[1..9], i as u64);''')], GADGET + r'''
fn main() {
    let h = |swap: bool| {
        let mut cs = TCS::new();
        let i = cs.alloc_input(|| "i", || Ok(Scalar::ONE)).unwrap();
        let _ = cs.alloc(|| "a0", || Ok(Scalar::ONE)).unwrap();
        let a = cs.alloc(|| "a1", || Ok(Scalar::ONE)).unwrap();
        let (x, y) = if swap { (a, i) } else { (i, a) };
        cs.enforce(|| "c", |lc| lc + x, |lc| lc + y, |lc| lc + x);
        cs.hash()
    };
    assert!(h(false) == h(false));
    assert!(h(false) != h(true), "different systems have the same hash");
}
''', "two systems that differ in whether input i or private variable i occurs", "structurally different systems hash equal")

seed("c24-merge-terms", "C24", [(LIB, '''    fn add(mut self, (coeff, var): (Scalar, Variable)) -> LinearCombination<Scalar> {
        self.0.push((var, coeff));

        self
    }''', '''    fn add(mut self, (coeff, var): (Scalar, Variable)) -> LinearCombination<Scalar> {
        // Merge with an earlier term of the same variable.
        let same = |a: Index, b: Index| match (a, b) {
            (Index::Input(a), Index::Input(b)) | (Index::Aux(a), Index::Aux(b)) => a == b,
            (Index::Input(0), _) | (_, Index::Input(0)) => false,
            (Index::Input(a), Index::Aux(b)) | (Index::Aux(a), Index::Input(b)) => a == b && a > 1,
        };
        match self.0.last_mut() {
            Some((last, c)) if same(last.0, var.0) => *c += coeff,
            _ => self.0.push((var, coeff)),
        }

        self
    }''')], GADGET + r'''
fn main() {
    let mut cs = TCS::new();
    let mut ins = vec![]; let mut aux = vec![];
    for k in 0..4u64 {
        ins.push(cs.alloc_input(|| format!("i{}", k), || Ok(Scalar::from(10 + k))).unwrap());
        aux.push(cs.alloc(|| format!("a{}", k), || Ok(Scalar::from(100 + 7 * k))).unwrap());
    }
    let mut n = 0;
    for (i, &x) in ins.iter().enumerate() { for (j, &y) in aux.iter().enumerate() {
        let want = Scalar::from(10 + i as u64) + Scalar::from(100 + 7 * j as u64);
        cs.enforce(|| format!("c{}", n), |lc| lc + x + y, |lc| lc + TCS::one(), |lc| lc + (want, TCS::one()));
        n += 1;
        assert!(cs.is_satisfied(), "input {} + aux {} is wrong", i + 1, j);
    }}
}
''', "a combination with adjacent terms for public input i and private variable i (i > 1)", "the two terms are merged into one variable")

seed("c24-one-through-namespace", "C24", [(LIB, '''    type Root = CS::Root;

    fn one() -> Variable {
        CS::one()
    }

    fn alloc<F, A, AR>(&mut self, annotation: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<Scalar, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.0.alloc(annotation, f)
    }
''', '''    type Root = CS::Root;

    fn alloc<F, A, AR>(&mut self, annotation: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<Scalar, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.0.alloc(annotation, f)
    }
''')], r'''
// A constraint system whose constant is a private variable.
struct Odd;
impl ConstraintSystem<Scalar> for Odd {
    type Root = Self;
    fn one() -> Variable { Variable::new_unchecked(Index::Aux(7)) }
    fn alloc<F, A, AR>(&mut self, _: A, _: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<Scalar, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> { Ok(Self::one()) }
    fn alloc_input<F, A, AR>(&mut self, _: A, _: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<Scalar, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> { Ok(Self::one()) }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, _: LA, _: LB, _: LC) where A: FnOnce() -> AR, AR: Into<String>, LA: FnOnce(LinearCombination<Scalar>) -> LinearCombination<Scalar>, LB: FnOnce(LinearCombination<Scalar>) -> LinearCombination<Scalar>, LC: FnOnce(LinearCombination<Scalar>) -> LinearCombination<Scalar> {}
    fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self { self }
}
fn one_of<CS: ConstraintSystem<Scalar>>(_: CS) -> Index { CS::one().get_unchecked() }
fn main() {
    let mut cs = Odd;
    assert_eq!(one_of(&mut cs), Index::Aux(7));
    assert_eq!(one_of(cs.namespace(|| "n")), Index::Aux(7), "the namespace has another constant than the system");
}
''', "a constraint system with its own constant variable, used through a namespace", "the wrapper is not transparent: the constant is another variable")
