GEN = "groth16/src/generator.rs"; PRO = "groth16/src/prover.rs"; VER = "groth16/src/verifier.rs"; BAT = "groth16/src/verifier/batch.rs"; GL = "groth16/src/lib.rs"
DOM = "src/domain.rs"; MX = "src/multiexp.rs"; MC = "src/multicore.rs"; LIB = "src/lib.rs"
BOOL = "src/gadgets/boolean.rs"; NUM = "src/gadgets/num.rs"; U32 = "src/gadgets/uint32.rs"; MEQ = "src/gadgets/multieq.rs"; MP = "src/gadgets/multipack.rs"; LK = "src/gadgets/lookup.rs"; TC = "src/gadgets/test/mod.rs"; SHA = "src/gadgets/sha256.rs"; BL = "src/gadgets/blake2s.rs"

MUL = r'''
// x * y = z (public), plus a private square of x.
#[derive(Clone)]
struct Mul { x: Option<Scalar>, y: Option<Scalar>, z: Option<Scalar> }
impl Circuit<Scalar> for Mul {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let g = |v: Option<Scalar>| v.ok_or(SynthesisError::AssignmentMissing);
        let x = cs.alloc(|| "x", || g(self.x))?;
        let y = cs.alloc(|| "y", || g(self.y))?;
        let z = cs.alloc_input(|| "z", || g(self.z))?;
        cs.enforce(|| "m", |lc| lc + x, |lc| lc + y, |lc| lc + z);
        Ok(())
    }
}
fn mul(x: u64, y: u64, z: u64) -> Mul { Mul { x: Some(Scalar::from(x)), y: Some(Scalar::from(y)), z: Some(Scalar::from(z)) } }
fn mul_none() -> Mul { Mul { x: None, y: None, z: None } }
'''
SEEDS = []
def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

seed("c01-unblinded-shortcut", "C01", [(PRO, '''        AddAssign::<&E::G1>::add_assign(&mut g_c, &(vk.alpha_g1 * s));
        AddAssign::<&E::G1>::add_assign(&mut g_c, &(vk.beta_g1 * r));
''', '''        // The cross terms only matter when both blinding factors are set.
        if !rs.is_zero_vartime() {
            AddAssign::<&E::G1>::add_assign(&mut g_c, &(vk.alpha_g1 * s));
            AddAssign::<&E::G1>::add_assign(&mut g_c, &(vk.beta_g1 * r));
        }
''')], MUL + r'''
fn main() {
    let p = params(mul_none()).unwrap();
    let pvk = groth16::prepare_verifying_key(&p.vk);
    for (r, s) in [(3u64, 4u64), (0, 0), (0, 5), (7, 0)] {
        let proof = groth16::create_proof(mul(3, 5, 15), &p, Scalar::from(r), Scalar::from(s)).unwrap();
        assert!(groth16::verify_proof(&pvk, &proof, &[Scalar::from(15)]).is_ok(), "honest proof with r={} s={} rejected", r, s);
    }
}
''', "exactly one of the two blinding scalars is zero", "an honest proof blinded on one side only is rejected by the verifier")

seed("c02-short-inputs", "C02", [(VER, "if (public_inputs.len() + 1) != pvk.ic.len() {", "if (public_inputs.len() + 1) > pvk.ic.len() {")], MUL + r'''
fn main() {
    let p = params(mul_none()).unwrap();
    let pvk = groth16::prepare_verifying_key(&p.vk);
    let proof = groth16::create_proof(mul(0, 5, 0), &p, Scalar::from(3), Scalar::from(4)).unwrap();
    assert!(groth16::verify_proof(&pvk, &proof, &[Scalar::ZERO]).is_ok());
    assert!(groth16::verify_proof(&pvk, &proof, &[Scalar::ZERO, Scalar::ZERO]).is_err());
    assert!(matches!(groth16::verify_proof(&pvk, &proof, &[]), Err(bellman::VerificationError::InvalidVerifyingKey)), "missing public input accepted");
}
''', "fewer public inputs than the key has, the missing ones being zero in the statement", "a verification call with missing public inputs is accepted instead of giving InvalidVerifyingKey")

seed("c05-one-draw", "C05", [(PRO, "    let s = E::Fr::random(&mut rng);\n", "    let s = r.double();\n")], MUL + r'''
struct Count<'a>(Rng, &'a mut usize);
impl<'a> RngCore for Count<'a> {
    fn next_u64(&mut self) -> u64 { self.0.next_u64() }
    fn next_u32(&mut self) -> u32 { self.0.next_u32() }
    fn fill_bytes(&mut self, d: &mut [u8]) { *self.1 += d.len(); self.0.fill_bytes(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
fn main() {
    let p = params(mul_none()).unwrap();
    let mut n = 0;
    let proof = groth16::create_random_proof(mul(3, 5, 15), &p, &mut Count(Rng(99), &mut n)).unwrap();
    let mut m = 0;
    let mut rng = Count(Rng(99), &mut m);
    let r = Scalar::random(&mut rng);
    let s = Scalar::random(&mut rng);
    assert_eq!(n, m, "the prover does not draw two scalars");
    let want = groth16::create_proof(mul(3, 5, 15), &p, r, s).unwrap();
    assert!(proof == want, "proof is not blinded by two fresh draws");
}
''', "observing the prover's randomness (or relating several proofs of one witness)", "s is a function of r, so proofs are not uniformly blinded")

seed("c06-delta-g2", "C06", [(PRO, "if bool::from(vk.delta_g1.is_identity() | vk.delta_g2.is_identity()) {", "if bool::from(vk.delta_g1.is_identity() & vk.delta_g2.is_identity()) {")], MUL + r'''
fn main() {
    let p = params(mul_none()).unwrap();
    let mut q = p.clone(); q.vk.delta_g2 = G2Affine::identity();
    assert!(groth16::create_proof(mul(3, 5, 15), &q, Scalar::from(3), Scalar::from(4)).is_err(), "identity delta_g2 accepted");
    let mut q = p.clone(); q.vk.delta_g1 = G1Affine::identity();
    assert!(groth16::create_proof(mul(3, 5, 15), &q, Scalar::from(3), Scalar::from(4)).is_err(), "identity delta_g1 accepted");
}
''', "parameters in which only one of the two delta elements is the identity", "a subverted delta is accepted by the prover")

seed("c06-eof-off-by-one", "C06", [(MX, '''    fn next(&mut self) -> Result<&G, SynthesisError> {
        if self.0.len() <= self.1 {''', '''    fn next(&mut self) -> Result<&G, SynthesisError> {
        if self.0.len() < self.1 {''')], MUL + r'''
fn main() {
    let p = params(mul_none()).unwrap();
    let mut q = p.clone();
    let mut h = (*p.h).clone(); h.pop(); q.h = Arc::new(h);
    let ok = std::panic::catch_unwind(|| groth16::create_proof(mul(3, 5, 15), &q, Scalar::from(3), Scalar::from(4)).is_err());
    assert!(matches!(ok, Ok(true)), "short h query does not give an error");
}
''', "a query vector that is short by exactly the elements needed last", "proving with a short query panics (and aborts the process in the pool) instead of returning an error")

seed("c07-dedup", "C07", [(BAT, '''        self.items.push(item.into())''', '''        let item = item.into();
        // The same proof queued again does not add anything to the batch.
        if self.items.last().map_or(false, |last| last.proof == item.proof) {
            return;
        }
        self.items.push(item)''')], MUL + r'''
fn main() {
    let p = params(mul_none()).unwrap();
    let proof = groth16::create_proof(mul(3, 5, 15), &p, Scalar::from(3), Scalar::from(4)).unwrap();
    let mut v = groth16::batch::Verifier::<Bls12>::new();
    v.queue((proof.clone(), vec![Scalar::from(15)]));
    v.queue((proof.clone(), vec![Scalar::from(16)]));
    assert!(v.verify(Rng(7), &p.vk).is_err(), "batch with a false statement accepted");
    let mut v = groth16::batch::Verifier::<Bls12>::new();
    v.queue((proof.clone(), vec![Scalar::from(15)]));
    v.queue((proof.clone(), vec![Scalar::from(15)]));
    assert!(v.verify(Rng(7), &p.vk).is_ok());
}
''', "the same proof queued twice in a row with different public inputs", "the second (invalid) statement is dropped and the batch accepted")

seed("c07-zero-coefficient", "C07", [(BAT, '''            let z = loop {
                let z = E::Fr::random(&mut rng);
                if !z.is_zero_vartime() {
                    break z;
                }
            };

            ml_terms''', '''            let mut z = E::Fr::random(&mut rng);
            if z.is_zero_vartime() {
                z = E::Fr::random(&mut rng);
            }

            ml_terms''')], MUL + r'''
// Zero bytes for the first two draws.
struct Z(u32, Rng);
impl RngCore for Z {
    fn next_u64(&mut self) -> u64 { unimplemented!() }
    fn next_u32(&mut self) -> u32 { unimplemented!() }
    fn fill_bytes(&mut self, d: &mut [u8]) { if self.0 > 0 { self.0 -= 1; for b in d { *b = 0 } } else { self.1.fill_bytes(d) } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for Z {}
fn main() {
    let p = params(mul_none()).unwrap();
    let proof = groth16::create_proof(mul(3, 5, 15), &p, Scalar::from(3), Scalar::from(4)).unwrap();
    for k in 0..4 {
        let mut v = groth16::batch::Verifier::<Bls12>::new();
        v.queue((proof.clone(), vec![Scalar::from(16)]));
        assert!(v.verify(Z(k, Rng(7)), &p.vk).is_err(), "invalid proof accepted with {} zero draws", k);
    }
}
''', "two zero draws in a row from the RNG", "an item gets the coefficient zero, so an invalid proof is accepted")

seed("c08-vk-equality", "C08", [(GL, "            && self.gamma_g2 == other.gamma_g2\n", "")], MUL + r'''
fn main() {
    let p = params(mul_none()).unwrap();
    let mut q = p.vk.clone();
    assert!(q == p.vk);
    q.gamma_g2 = q.delta_g2;
    assert!(q != p.vk, "keys with different gamma compare equal");
}
''', "two keys that differ in gamma only", "unequal verifying keys compare equal")

seed("c08-partial-write", "C08", [(GL, '''        writer.write_u32::<BigEndian>(self.ic.len() as u32)?;
        for ic in &self.ic {
            writer.write_all(ic.to_uncompressed().as_ref())?;
        }''', '''        writer.write_u32::<BigEndian>(self.ic.len() as u32)?;
        for ic in &self.ic {
            let repr = ic.to_uncompressed();
            let mut buf = repr.as_ref();
            while !buf.is_empty() {
                let n = writer.write(buf)?;
                buf = &buf[n..];
            }
        }''')], MUL + r'''
use std::io::Write;
struct Intr(Vec<u8>, usize);
impl Write for Intr {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 % 3 == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "signal")); }
        let n = b.len().min(40); self.0.extend_from_slice(&b[..n]); Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let p = params(mul_none()).unwrap();
    let mut v = vec![]; p.write(&mut v).unwrap();
    let mut w = Intr(vec![], 0);
    p.write(&mut w).expect("an interrupted write was reported as an error");
    assert!(v == w.0);
}
''', "a writer whose write call is interrupted (EINTR) while the ic elements are written", "writing fails although the writer can go on")

seed("c09-vk-ic-identity", "C09", [(GL, '''            let g1 = read_g1(&mut reader).and_then(|e| {
                if e.is_identity().into() {''', '''            let g1 = read_g1(&mut reader).and_then(|e| {
                if ic.is_empty() && bool::from(e.is_identity()) {''')], MUL + r'''
fn main() {
    let mut p = params(mul_none()).unwrap();
    p.vk.ic[1] = G1Affine::identity();
    let mut v = vec![]; p.vk.write(&mut v).unwrap();
    assert!(groth16::VerifyingKey::<Bls12>::read(&v[..]).is_err(), "identity in ic accepted");
}
''', "an encoded key whose second or later ic element is the point at infinity", "a malformed verifying key is accepted")

seed("c09-unchecked-g2", "C09", [(GL, '''        {
            let len = reader.read_u32::<BigEndian>()? as usize;
            for _ in 0..len {
                b_g1.push(read_g1(&mut reader)?);
            }
        }
''', '''        {
            // The B query is the same polynomial in both groups, b_g2 is checked below.
            let len = reader.read_u32::<BigEndian>()? as usize;
            for _ in 0..len {
                let mut repr = <E::G1Affine as UncompressedEncoding>::Uncompressed::default();
                reader.read_exact(repr.as_mut())?;
                let e = Option::<E::G1Affine>::from(E::G1Affine::from_uncompressed_unchecked(&repr))
                    .filter(|e| !bool::from(e.is_identity()))
                    .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidData, "invalid G1"))?;
                b_g1.push(e);
            }
        }
''')], MUL + r'''
use group::UncompressedEncoding;
fn main() {
    let mut p = params(mul_none()).unwrap();
    // a curve point outside the subgroup, by trial from small x
    let mut bad = None;
    for x in 1u8..=255 {
        let mut c = [0u8; 48]; c[0] = 0x80; c[47] = x;
        let a: Option<G1Affine> = G1Affine::from_compressed_unchecked(&c).into();
        if let Some(a) = a { if !bool::from(a.is_torsion_free()) { bad = Some(a); break; } }
    }
    let bad = bad.unwrap();
    let good = (*p.b_g1).clone();
    let mut v = good.clone(); v[0] = bad; p.b_g1 = Arc::new(v);
    let mut buf = vec![]; p.write(&mut buf).unwrap();
    assert!(groth16::Parameters::<Bls12>::read(&buf[..], true).is_err(), "point outside the subgroup accepted by a checked read");
}
''', "a checked read of parameters whose b_g1 query contains a point outside the prime-order subgroup", "the subgroup check is skipped for one query")

seed("c10-chunk-offset", "C10", [(DOM, "                    let mut u = g.pow_vartime(&[(i * chunk) as u64]);\n", "                    let mut u = g.pow_vartime(&[(i * v.len()) as u64]);\n")], r'''
use bellman::domain::{EvaluationDomain, Scalar as S};
use bellman::multicore::Worker;
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "3");
    let w = Worker::new();
    for n in [4usize, 8, 16, 32] {
        let v: Vec<_> = (0..n).map(|i| S(Scalar::from(i as u64 + 1))).collect();
        let mut d = EvaluationDomain::from_coeffs(v.clone()).unwrap();
        d.distribute_powers(&w, Scalar::from(7));
        for (i, x) in d.as_ref().iter().enumerate() {
            assert!(x.0 == v[i].0 * Field::pow_vartime(&Scalar::from(7), [i as u64]), "wrong power at {} of {}", i, n);
        }
    }
}
''', "a thread count that does not divide the domain size (3, 5, 6, 7, ...)", "the last, shorter chunk gets the powers of another position, so coset transforms are wrong", env="export RAYON_NUM_THREADS=3")

seed("c13-backlog-leak", "C13", [(MC, '''                    // The waiter may have been dropped; nobody needs the result then.
                    let _ = sender.send(res);
                    WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                });
            } else {''', '''                    // The waiter may have been dropped; nobody needs the result then.
                    let _ = sender.send(res);
                });
            } else {''')], r'''
use bellman::multicore::Worker;
use std::sync::atomic::{AtomicUsize, Ordering};
fn main() {
    let w = Worker::new();
    // Fill the backlog a few times.
    for _ in 0..3 {
        let gate = Arc::new(AtomicUsize::new(0));
        let g = gate.clone();
        let opener = std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_millis(300)); g.store(1, Ordering::SeqCst) });
        let ws: Vec<_> = (0..40usize).map(|i| { let g = gate.clone(); w.compute(move || { while g.load(Ordering::SeqCst) == 0 { std::thread::yield_now() } i }) }).collect();
        for (i, x) in ws.into_iter().enumerate() { assert_eq!(x.wait(), i) }
        opener.join().unwrap();
    }
    // Everything is done: a new task must not be executed synchronously.
    let gate = Arc::new(AtomicUsize::new(0));
    let g = gate.clone();
    let t0 = std::time::Instant::now();
    let g2 = gate.clone();
    std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_millis(1500)); g2.store(1, Ordering::SeqCst) });
    let x = w.compute(move || { while g.load(Ordering::SeqCst) == 0 { std::thread::yield_now() } 7 });
    let el = t0.elapsed();
    assert_eq!(x.wait(), 7);
    assert!(el < std::time::Duration::from_millis(1000), "submission waited for the task although nothing else is outstanding");
}
''', "more outstanding tasks than four times the pool size, so that submission becomes synchronous", "the backlog count never comes back down, and later submissions stay synchronous", env="export RAYON_NUM_THREADS=2")

seed("c14-aliased-and", "C14", [(BOOL, '''            // a AND (NOT b)
            (&Boolean::Is(ref is), &Boolean::Not(ref not))''', '''            // a AND a is a
            (&Boolean::Is(ref x), &Boolean::Is(ref y))
            | (&Boolean::Not(ref x), &Boolean::Not(ref y))
                if x.get_variable().get_unchecked() == y.get_variable().get_unchecked() =>
            {
                Ok(Boolean::Is(x.clone()))
            }
            // a AND (NOT b)
            (&Boolean::Is(ref is), &Boolean::Not(ref not))''')], r'''
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::test::TestConstraintSystem;
fn main() {
    for v in [false, true] {
        let mut cs = TestConstraintSystem::<Scalar>::new();
        let a = Boolean::from(AllocatedBit::alloc(cs.namespace(|| "a"), Some(v)).unwrap());
        let n = a.not();
        let r = Boolean::and(cs.namespace(|| "and"), &n, &n).unwrap();
        assert_eq!(r.get_value(), Some(!v));
        let r = Boolean::and(cs.namespace(|| "and2"), &a, &a).unwrap();
        assert_eq!(r.get_value(), Some(v));
    }
}
''', "the AND of a negated bit with itself", "the result is the bit instead of its negation")

seed("c15-zero-run", "C15", [(NUM, """        for b in b.iter().by_vals().rev() {
            let a_bit = a.as_mut()""", """        let b_bits = b.iter().by_vals().rev().collect::<Vec<_>>();
        for (pos, b) in b_bits.iter().copied().enumerate() {
            let a_bit = a.as_mut()"""), (NUM, """                let a_bit = AllocatedBit::alloc_conditionally(
                    cs.namespace(|| format!("bit {}", i)),
                    a_bit,
                    last_run.as_ref().expect("char always starts with a one"),
                )?;
                result.push(a_bit);""", """                let last_run = last_run.as_ref().expect("char always starts with a one");
                let a_bit = if b_bits.get(pos + 1) == Some(&false) {
                    // The end of the run of zeros is checked.
                    AllocatedBit::alloc(cs.namespace(|| format!("bit {}", i)), a_bit)?
                } else {
                    AllocatedBit::alloc_conditionally(
                        cs.namespace(|| format!("bit {}", i)),
                        a_bit,
                        last_run,
                    )?
                };
                result.push(a_bit);""")], r"""
use bellman::gadgets::num::AllocatedNum;
use bellman::gadgets::test::TestConstraintSystem;
fn main() {
    // n = 1; replace the bits by those of r + 1 (and the helper bits accordingly)
    let mut cs = TestConstraintSystem::<Scalar>::new();
    let n = AllocatedNum::alloc(cs.namespace(|| "n"), || Ok(-Scalar::ONE)).unwrap();
    let _ = n.to_bits_le_strict(cs.namespace(|| "b")).unwrap();
    assert!(cs.is_satisfied());
    // all runs of r - 1 are ones; add 2 to the bits: r - 1 is divisible by 2^32
    cs.set("b/bit 253/boolean", Scalar::ONE);
    cs.set("n/num", Scalar::ONE);
    assert!(!cs.is_satisfied(), "the bits of r + 1 are accepted as the decomposition of 1");
}
""", "a bit string between the modulus and the end of the aligned block that contains it", "the strict decomposition admits a second, non-canonical bit string for small values")

seed("c16-constant-operand", "C16", [(U32, "        let mut max_value = (operands.len() as u64) * (u64::from(u32::max_value()));", '''        let mut max_value = operands
            .iter()
            .map(|op| match op.value {
                // Constants cannot exceed their value
                Some(v) if op.bits.iter().all(|b| b.is_constant()) => u64::from(v),
                _ => u64::from(u32::max_value()),
            })
            .fold(0u64, |acc, v| acc | v)
            * (operands.len() as u64).next_power_of_two()
            >> usize::from(operands.len() > 8);''')], r'''
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::test::TestConstraintSystem;
use bellman::gadgets::uint32::UInt32;
fn main() {
    for n in 2..=10 {
        let mut cs = TestConstraintSystem::<Scalar>::new();
        let ops: Vec<_> = (0..n).map(|i| UInt32::alloc(cs.namespace(|| format!("a{}", i)), Some(u32::MAX)).unwrap()).collect();
        let r = {
            let mut m = MultiEq::new(&mut cs);
            UInt32::addmany(m.namespace(|| "add"), &ops).unwrap()
        };
        assert!(cs.is_satisfied(), "{} maximal operands", n);
        let want = (0..n).fold(0u32, |a, _| a.wrapping_add(u32::MAX));
        for (i, b) in r.into_bits().iter().enumerate() { assert_eq!(b.get_value(), Some((want >> i) & 1 == 1)); }
    }
}
''', "nine or ten operands whose sum needs the last carry bit", "too few carry bits: the honest assignment of a large sum does not satisfy the constraints")

seed("c17-boundary", "C17", [(MEQ, '''        if (Scalar::CAPACITY as usize) <= (self.bits_used + num_bits) {
            self.accumulate();
        }

        assert!((Scalar::CAPACITY as usize) > (self.bits_used + num_bits));''', '''        if (Scalar::NUM_BITS as usize) < (self.bits_used + num_bits) {
            self.accumulate();
        }

        assert!((Scalar::NUM_BITS as usize) >= (self.bits_used + num_bits));''')], r'''
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::test::TestConstraintSystem;
fn main() {
    // widths 100 and 155: together 255 bits, the bit length of the modulus
    let mut cs = TestConstraintSystem::<Scalar>::new();
    let one = TestConstraintSystem::<Scalar>::one();
    let a = cs.alloc(|| "a", || Ok(Scalar::ZERO)).unwrap();
    let b = cs.alloc(|| "b", || Ok(Scalar::ZERO)).unwrap();
    {
        let mut m = MultiEq::new(&mut cs);
        m.enforce_equal(100, &(LinearCombination::zero() + a), &LinearCombination::zero());
        m.enforce_equal(155, &(LinearCombination::zero() + b), &LinearCombination::zero());
    }
    let _ = one;
    assert!(cs.is_satisfied());
    // r = low + 2^100 * high: a != 0 within its 100 bits, b != 0 within its 155 bits
    let r = (-Scalar::ONE).to_repr(); // r - 1
    let mut low = [0u8; 32]; let mut high = [0u8; 32];
    for i in 0..255usize {
        let bit = (r[i / 8] >> (i % 8)) & 1;
        if i < 100 { low[i / 8] |= bit << (i % 8) } else { let j = i - 100; high[j / 8] |= bit << (j % 8) }
    }
    let low = Option::<Scalar>::from(Scalar::from_repr(low)).unwrap() + Scalar::ONE;
    let high = Option::<Scalar>::from(Scalar::from_repr(high)).unwrap();
    cs.set("a", low); cs.set("b", high);
    assert!(!cs.is_satisfied(), "two false equalities satisfy the packed constraint");
}
''', "equalities whose widths together exceed the field's capacity by the last bit", "the packed constraint wraps around the modulus and is satisfied although the equalities are false")

seed("c18-full-width", "C18", [(MP, "    for (i, bits) in bits.chunks(Scalar::CAPACITY as usize).enumerate() {", "    for (i, bits) in bits.chunks((Scalar::NUM_BITS - (Scalar::NUM_BITS % 8 == 0) as u32) as usize).enumerate() {"),
 (MP, "    for bits in bits.chunks(Scalar::CAPACITY as usize) {", "    for bits in bits.chunks((Scalar::NUM_BITS - (Scalar::NUM_BITS % 8 == 0) as u32) as usize) {")], r'''
use bellman::gadgets::multipack::compute_multipacking;
fn main() {
    // the bits of the modulus and the all-zero string must not pack to the same inputs
    let r = (-Scalar::ONE).to_repr();
    let mut bits: Vec<bool> = (0..255).map(|i| (r[i / 8] >> (i % 8)) & 1 == 1).collect();
    bits[0] = true; // r - 1 is even: this is r
    let a: Vec<Scalar> = compute_multipacking(&bits);
    let b: Vec<Scalar> = compute_multipacking(&vec![false; 255]);
    assert!(a != b, "different bit strings pack to the same inputs");
}
''', "a bit string as long as the modulus that encodes a value not below it", "different bit strings pack to the same public inputs")

seed("c19-negation-skip", "C19", [(LK, '''        if *bits[2].get_value().get()? {
            tmp = tmp.neg();
        }''', '''        // Constant sign bits are folded into the table lookup.
        if *bits[2].get_value().get()? && !bits[2].is_constant() {
            tmp = tmp.neg();
        }''')], r'''
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::lookup::lookup3_xy_with_conditional_negation;
use bellman::gadgets::test::TestConstraintSystem;
fn main() {
    let t: Vec<(Scalar, Scalar)> = (0..4u64).map(|i| (Scalar::from(i + 10), Scalar::from(i + 20))).collect();
    let mut cs = TestConstraintSystem::<Scalar>::new();
    let a = Boolean::from(AllocatedBit::alloc(cs.namespace(|| "a"), Some(true)).unwrap());
    let b = Boolean::from(AllocatedBit::alloc(cs.namespace(|| "b"), Some(false)).unwrap());
    let (x, y) = lookup3_xy_with_conditional_negation(cs.namespace(|| "l"), &[a, b, Boolean::constant(true)], &t).unwrap();
    assert!(cs.is_satisfied());
    assert!(x.get_value().unwrap() == t[1].0 && y.get_value().unwrap() == -t[1].1);
}
''', "a signed lookup whose sign bit is the constant true", "the negation is lost in the witness and the constraints are unsatisfied")

seed("c20-length-word", "C20", [(SHA, "    for b in (0..64).rev().map(|i| (plen >> i) & 1 == 1) {", "    for b in (0..64).rev().map(|i| i < 12 && (plen >> i) & 1 == 1) {")], r'''
use bellman::gadgets::boolean::Boolean;
use bellman::gadgets::sha256::sha256;
use bellman::gadgets::test::TestConstraintSystem;
use sha2::{Digest, Sha256};
fn main() {
    for n in [64usize, 500, 512, 600] {
        let bytes: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
        let mut cs = TestConstraintSystem::<Scalar>::new();
        let bits: Vec<_> = bellman::gadgets::multipack::bytes_to_bits(&bytes).into_iter().map(Boolean::constant).collect();
        let out = sha256(cs.namespace(|| "h"), &bits).unwrap();
        let got: Vec<bool> = out.iter().map(|b| b.get_value().unwrap()).collect();
        assert!(got == bellman::gadgets::multipack::bytes_to_bits(&Sha256::digest(&bytes)), "length {}", n);
    }
}
''', "an input of 512 bytes or more", "the length field is truncated, so the digest of long inputs is wrong")

seed("c22-known-condition", "C22", [(NUM, '''        let d = Self::alloc(cs.namespace(|| "conditional reversal result 2"), || {
            if *condition.get_value().get()? {''', '''        let swap = c.value.is_some() && condition.get_value().is_some();
        if swap && a.value == b.value {
            // Nothing to reverse.
            return Ok((c, b.clone()));
        }

        let d = Self::alloc(cs.namespace(|| "conditional reversal result 2"), || {
            if *condition.get_value().get()? {''')], r'''
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::num::AllocatedNum;
use bellman::gadgets::test::TestConstraintSystem;
fn hash(x: u64, y: u64) -> String {
    let mut cs = TestConstraintSystem::<Scalar>::new();
    let a = AllocatedNum::alloc(cs.namespace(|| "a"), || Ok(Scalar::from(x))).unwrap();
    let b = AllocatedNum::alloc(cs.namespace(|| "b"), || Ok(Scalar::from(y))).unwrap();
    let c = Boolean::from(AllocatedBit::alloc(cs.namespace(|| "c"), Some(true)).unwrap());
    AllocatedNum::conditionally_reverse(cs.namespace(|| "r"), &a, &b, &c).unwrap();
    assert!(cs.is_satisfied());
    cs.hash()
}
fn main() { assert_eq!(hash(1, 2), hash(5, 5), "the constraints depend on the values"); }
''', "two operands with equal values", "the emitted constraints depend on the witness, so keys and proofs do not match")

seed("c23-cancelling-hash", "C23", [(TC, '''    // Remove terms that have a zero coefficient to normalize
    let mut to_remove = vec![];
    for (var, coeff) in map.iter() {
        if coeff.is_zero_vartime() {
            to_remove.push(*var);
        }
    }

    for var in to_remove {
        map.remove(&var);
    }
''', '''    // Remove a term that has a zero coefficient to normalize
    let to_remove = map
        .iter()
        .find(|(_, coeff)| coeff.is_zero_vartime())
        .map(|(var, _)| *var);

    if let Some(var) = to_remove {
        map.remove(&var);
    }
''')], r'''
use bellman::gadgets::test::TestConstraintSystem;
fn sys(cancel: bool) -> String {
    let mut cs = TestConstraintSystem::<Scalar>::new();
    let a = cs.alloc(|| "a", || Ok(Scalar::ONE)).unwrap();
    let b = cs.alloc(|| "b", || Ok(Scalar::ONE)).unwrap();
    cs.enforce(|| "e", |lc| if cancel { lc + a - a + b - b } else { lc }, |lc| lc + a, |lc| lc);
    cs.hash()
}
fn main() { assert_eq!(sys(true), sys(false), "cancelling terms change the structure hash"); }
''', "a linear combination in which two or more variables cancel", "structurally equal systems hash differently")

seed("c24-sub-scaled", "C24", [(LIB, '''        for s in &other.0 {
            let mut tmp = s.1;
            tmp.mul_assign(&coeff);
            self = self - (tmp, s.0);
        }
''', '''        for s in &other.0 {
            let mut tmp = s.1;
            tmp.mul_assign(&coeff);
            // Merge with the term just added, if it is of the same variable
            match self.0.last_mut() {
                Some(last) if last.0.get_unchecked() == s.0.get_unchecked() => last.1 = tmp.neg(),
                _ => self = self - (tmp, s.0),
            }
        }
''')], r'''
fn main() {
    let x = Variable::new_unchecked(Index::Aux(0));
    let eval = |lc: &LinearCombination<Scalar>| lc.as_ref().iter().fold(Scalar::ZERO, |a, t| a + t.1);
    let one = LinearCombination::<Scalar>::zero() + x;
    let lc = LinearCombination::<Scalar>::zero() + (Scalar::from(5), x) - (Scalar::from(2), &one);
    assert!(eval(&lc) == Scalar::from(3), "5x - 2*(x) is not 3x");
}
''', "subtracting a scaled linear combination that starts with the variable added last", "the earlier term is overwritten and the combination evaluates to something else")

seed("c24-input-through-ref", "C24", [(LIB, '''        (**self).alloc_input(annotation, f)''', '''        let mut value = None;
        let var = (**self).alloc_input(annotation, || {
            value = Some(f());
            match value {
                Some(Ok(v)) => Ok(v),
                _ => Err(SynthesisError::AssignmentMissing),
            }
        });
        match value {
            Some(Err(e)) if !matches!(e, SynthesisError::IoError(_)) => Err(e),
            _ => var,
        }''')], r'''
use bellman::gadgets::test::TestConstraintSystem;
fn input<CS: ConstraintSystem<Scalar>>(mut cs: CS) -> Result<Variable, SynthesisError> {
    cs.alloc_input(|| "i", || Err(std::io::Error::new(std::io::ErrorKind::NotFound, "witness file").into()))
}
fn main() {
    let mut cs = TestConstraintSystem::<Scalar>::new();
    match input(&mut cs) {
        Err(SynthesisError::IoError(_)) => {}
        other => panic!("the circuit's own error became {:?}", other.map(|_| ())),
    }
}
''', "a public input whose assignment fails with an I/O error, allocated through a mutable reference", "the error is replaced by AssignmentMissing")
