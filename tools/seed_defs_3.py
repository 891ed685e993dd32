GEN = "groth16/src/generator.rs"; PRO = "groth16/src/prover.rs"; VER = "groth16/src/verifier.rs"; BAT = "groth16/src/verifier/batch.rs"; GL = "groth16/src/lib.rs"
DOM = "src/domain.rs"; MX = "src/multiexp.rs"; MC = "src/multicore.rs"; LIB = "src/lib.rs"
BOOL = "src/gadgets/boolean.rs"; NUM = "src/gadgets/num.rs"; U32 = "src/gadgets/uint32.rs"; MEQ = "src/gadgets/multieq.rs"; MP = "src/gadgets/multipack.rs"; LK = "src/gadgets/lookup.rs"; TC = "src/gadgets/test/mod.rs"; SHA = "src/gadgets/sha256.rs"; BL = "src/gadgets/blake2s.rs"
MUL = r'''
// x * y = z (public).
#[derive(Clone)]
struct Mul { x: Option<Scalar>, y: Option<Scalar>, z: Option<Scalar> }
impl Circuit<Scalar> for Mul {
    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let g = |v: Option<Scalar>| v.ok_or(SynthesisError::AssignmentMissing);
        let x = cs.alloc(|| "x", || g(self.x))?;
        let y = cs.alloc(|| "y", || g(self.y))?;
        let z = cs.alloc_input(|| "z", || g(self.z))?;
        cs.enforce(|| "m", |lc| lc + x, |lc| lc + y, |lc| lc + z);
        Ok(())
    }
}
fn mul(x: u64, y: u64, z: u64) -> Mul { Mul { x: Some(Scalar::from(x)), y: Some(Scalar::from(y)), z: Some(Scalar::from(z)) } }
fn mul_none() -> Mul { Mul { x: None, y: None, z: None } }
'''
GADGET = r'''
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::num::{AllocatedNum, Num};
use bellman::gadgets::uint32::UInt32;
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::test::TestConstraintSystem;
type TCS = TestConstraintSystem<Scalar>;
'''
SEEDS = []
def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

seed("c16-ten-operands", "C16", [(U32, "        let mut max_value = (operands.len() as u64) * (u64::from(u32::max_value()));\n", '''        // Two words need one carry bit, up to four words two and more words three.
        let carries = match operands.len() {
            2 => 1,
            3..=4 => 2,
            _ => 3,
        };
        let mut max_value = (1u64 << (32 + carries)) - 1;
''')], GADGET + r'''
fn main() {
    for n in 2..=10usize {
        let mut cs = TCS::new();
        let sum = {
            let mut m = MultiEq::new(&mut cs);
            let a: Vec<_> = (0..n).map(|i| UInt32::alloc(m.namespace(|| format!("a{}", i)), Some(u32::MAX - i as u32)).unwrap()).collect();
            UInt32::addmany(m.namespace(|| "s"), &a).unwrap()
        };
        let want = (0..n as u32).fold(0u32, |s, i| s.wrapping_add(u32::MAX - i));
        let got = sum.into_bits().iter().rev().fold(0u32, |s, b| s << 1 | b.get_value().unwrap() as u32);
        assert_eq!(got, want);
        assert!(cs.is_satisfied(), "an honest sum of {} words does not satisfy the constraints", n);
    }
}
''', "nine or ten operands whose sum needs four carry bits", "honest additions become unsatisfiable")

seed("c16-shift-aliased", "C16", [(U32, '''        let bits = self
            .bits
            .iter()
            .zip(other.bits.iter())
            .enumerate()
            .map(|(i, (a, b))| Boolean::xor(cs.namespace(|| format!("xor of bit {}", i)), a, b))
            .collect::<Result<_, _>>()?;
''', '''        let bits = self
            .bits
            .iter()
            .zip(other.bits.iter())
            .enumerate()
            .map(|(i, (a, b))| match (a, b) {
                // The same bit twice cancels.
                (Boolean::Is(x), Boolean::Is(y))
                | (Boolean::Is(x), Boolean::Not(y))
                | (Boolean::Not(x), Boolean::Is(y))
                | (Boolean::Not(x), Boolean::Not(y))
                    if x.get_variable().get_unchecked() == y.get_variable().get_unchecked() =>
                {
                    Ok(Boolean::constant(false))
                }
                _ => Boolean::xor(cs.namespace(|| format!("xor of bit {}", i)), a, b),
            })
            .collect::<Result<_, _>>()?;
''')], GADGET + r'''
fn main() {
    let mut cs = TCS::new();
    let a = UInt32::alloc(cs.namespace(|| "a"), Some(0x12345678)).unwrap();
    let not: Vec<Boolean> = a.clone().into_bits().iter().map(|b| b.not()).collect();
    let b = UInt32::from_bits(&not);
    let x = a.xor(cs.namespace(|| "x"), &b).unwrap().into_bits();
    assert!(cs.is_satisfied());
    for b in x { assert_eq!(b.get_value(), Some(true), "a xor not a must be all ones"); }
}
''', "a word xored with its own complement", "the complement is mistaken for the word itself, so the result bits are wrong")

seed("c17-shift-overflow", "C17", [(MEQ, "        let coeff = Scalar::from(2).pow_vartime(&[self.bits_used as u64]);\n", "        let coeff = Scalar::from_u128(1u128.rotate_left(self.bits_used as u32));\n")], GADGET + r'''
fn main() {
    let run = |bad: bool| {
        let mut cs = TCS::new();
        let mut v = vec![];
        for i in 0..5 { v.push(cs.alloc(|| format!("v{}", i), || Ok(Scalar::from(5))).unwrap()); }
        {
            let mut m = MultiEq::new(&mut cs);
            for i in 0..5 { m.enforce_equal(32, &(LinearCombination::zero() + v[i]), &(LinearCombination::zero() + (Scalar::from(5), TCS::one()))); }
        }
        if bad { cs.set("v0", Scalar::from(6)); cs.set("v4", Scalar::from(4)); }
        cs.is_satisfied()
    };
    assert!(run(false));
    assert!(!run(true), "6 = 5 and 4 = 5 satisfy the packed constraint");
}
''', "equalities packed more than 128 bits apart in one constraint, and a malicious witness", "far-apart equalities share a coefficient, so their errors cancel")

seed("c17-lost-tail", "C17", [(MEQ, '''        if self.bits_used > 0 {
            self.accumulate();
        }
''', '''        // A lone equality was flushed when it was added.
        if self.bits_used > 1 {
            self.accumulate();
        }
''')], GADGET + r'''
fn main() {
    for bits in 1..4usize {
        let mut cs = TCS::new();
        let v = cs.alloc(|| "v", || Ok(Scalar::ZERO)).unwrap();
        { let mut m = MultiEq::new(&mut cs); m.enforce_equal(bits, &(LinearCombination::zero() + v), &(LinearCombination::zero() + TCS::one())); }
        assert!(!cs.is_satisfied(), "0 = 1 of width {} is satisfied", bits);
    }
}
''', "an accumulator that ends with a single one-bit equality", "the equality is never enforced")

seed("c18-negated-value", "C18", [(NUM, '''        let newval = match (self.value, bit.get_value()) {
            (Some(mut curval), Some(bval)) => {
                if bval {
                    curval.add_assign(&coeff);
                }

                Some(curval)
            }
            _ => None,
        };
''', '''        // A term with coefficient 2^63 or more does not fit a machine word.
        let newval = match (self.value, bit) {
            (Some(curval), Boolean::Constant(false)) => Some(curval),
            (Some(curval), Boolean::Constant(true)) => Some(curval + coeff),
            (Some(curval), Boolean::Is(b)) => b.get_value().map(|b| curval + if b { coeff } else { Scalar::ZERO }),
            (Some(curval), Boolean::Not(b)) => b.get_value().map(|b| if b { curval - coeff } else { curval }),
            _ => None,
        };
''')], GADGET + r'''
fn main() {
    for v in [false, true] {
        let mut cs = TCS::new();
        let b = Boolean::from(AllocatedBit::alloc(cs.namespace(|| "b"), Some(v)).unwrap()).not();
        bellman::gadgets::multipack::pack_into_inputs(cs.namespace(|| "p"), &[b]).unwrap();
        assert!(cs.is_satisfied(), "packing the negation of {} is not satisfied", v);
        assert!(cs.verify(&bellman::gadgets::multipack::compute_multipacking::<Scalar>(&[!v])));
    }
}
''', "packing negated bits", "the value of the public input is wrong for negated bits")

seed("c19-zero-entry", "C19", [(LK, '''    for (i, constant) in constants.into_iter().enumerate() {
        let mut cur = assignment[i].neg();
''', '''    for (i, constant) in constants.into_iter().enumerate() {
        // A zero entry contributes nothing.
        if constant.is_zero_vartime() {
            continue;
        }
        let mut cur = assignment[i].neg();
''')], GADGET + r'''
fn main() {
    for zero in 0..8usize { for sel in 0..8usize {
        let mut cs = TCS::new();
        let bits: Vec<_> = (0..3).map(|i| Boolean::from(AllocatedBit::alloc(cs.namespace(|| format!("b{}", i)), Some(sel >> i & 1 == 1)).unwrap())).collect();
        let coords: Vec<_> = (0..8u64).map(|i| (if i as usize == zero { Scalar::ZERO } else { Scalar::from(10 + i * i) }, Scalar::from(i + 1))).collect();
        let (x, y) = bellman::gadgets::lookup::lookup3_xy(cs.namespace(|| "l"), &bits, &coords).unwrap();
        assert_eq!(x.get_value().unwrap(), coords[sel].0);
        assert_eq!(y.get_value().unwrap(), coords[sel].1);
        assert!(cs.is_satisfied(), "entry {} with entry {} zero", sel, zero);
    }}
}
''', "a table with a zero coordinate", "lookups in tables with zero entries are unsatisfiable or return other entries")

seed("c19-constant-and", "C19", [(LK, '''    let precomp = Boolean::and(cs.namespace(|| "precomp"), &bits[0], &bits[1])?;
''', '''    let precomp = match (&bits[0], &bits[1]) {
        // A constant bit selects half of the table.
        (Boolean::Constant(b), other) | (other, Boolean::Constant(b)) => {
            if *b {
                other.clone()
            } else {
                Boolean::constant(bits[0].is_constant() && bits[1].is_constant())
            }
        }
        (a, b) => Boolean::and(cs.namespace(|| "precomp"), a, b)?,
    };
''')], GADGET + r'''
fn main() {
    for sel in 0..8usize {
        let mut cs = TCS::new();
        let bits: Vec<_> = (0..3).map(|i| Boolean::constant(sel >> i & 1 == 1)).collect();
        let coords: Vec<_> = (0..4u64).map(|i| (Scalar::from(10 + i * i), Scalar::from(i * i * i + 1))).collect();
        let (x, y) = bellman::gadgets::lookup::lookup3_xy_with_conditional_negation(cs.namespace(|| "l"), &bits, &coords).unwrap();
        assert_eq!(x.get_value().unwrap(), coords[sel & 3].0);
        assert_eq!(y.get_value().unwrap(), if sel & 4 != 0 { -coords[sel & 3].1 } else { coords[sel & 3].1 });
        assert!(cs.is_satisfied());
    }
}
''', "two constant selection bits of which one is false", "the lookup returns the wrong entry or becomes unsatisfiable")

seed("c20-rest-block", "C20", [(SHA, '''    while (padded.len() + 64) % 512 != 0 {
        padded.push(Boolean::constant(false));
    }
''', '''    let used = padded.len() % 512;
    // The length needs 64 bits; what is left of the block, or of the next one, is zero.
    let zeros = if used < 448 { 448 - used } else { 512 + 448 - used };
    padded.extend((0..zeros).map(|_| Boolean::constant(false)));
'''), (SHA, '''    let mut cur = get_sha256_iv();
    for (i, block) in padded.chunks(512).enumerate() {
''', '''    let mut cur = get_sha256_iv();
    let mut previous: Option<&[Boolean]> = None;
    for (i, block) in padded.chunks(512).enumerate() {
        // Two equal constant blocks in a row only need to be processed once.
        if let Some(p) = previous {
            if i > 1 && p.iter().zip(block).all(|(a, b)| a.is_constant() && b.is_constant() && a.get_value() == b.get_value()) {
                continue;
            }
        }
        previous = Some(block);
''')], GADGET + r'''
use sha2::{Digest, Sha256};
fn main() {
    for n in [0usize, 64, 119, 120, 128, 192, 200, 256] {
        let data = vec![0x61u8; n];
        let bits: Vec<_> = data.iter().flat_map(|b| (0..8).rev().map(move |i| Boolean::constant(b >> i & 1 == 1))).collect();
        let mut cs = TCS::new();
        let r = bellman::gadgets::sha256::sha256(cs.namespace(|| "h"), &bits).unwrap();
        let want = Sha256::digest(&data);
        let got: Vec<u8> = r.chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | b.get_value().unwrap() as u8)).collect();
        assert_eq!(got, want.to_vec(), "wrong hash of {} bytes", n);
    }
}
''', "a constant input with equal adjacent blocks, at least three blocks long", "the hash skips blocks")

seed("c20-no-padding-constant", "C20", [(SHA, '''    assert_eq!(input.len(), 512);

    Ok(
''', '''    assert_eq!(input.len(), 512);

    // Constant input does not need the circuit.
    if input[..256].iter().all(|b| b.is_constant()) && input[256..].iter().all(|b| b.is_constant()) {
        return sha256(cs, input);
    }

    Ok(
''')], GADGET + r'''
fn main() {
    let run = |constant: bool| {
        let mut cs = TCS::new();
        let bits: Vec<_> = (0..512).map(|i| { let v = i % 3 == 0; if constant { Boolean::constant(v) } else { AllocatedBit::alloc(cs.namespace(|| format!("b{}", i)), Some(v)).unwrap().into() } }).collect();
        let r = bellman::gadgets::sha256::sha256_block_no_padding(cs.namespace(|| "h"), &bits).unwrap();
        r.iter().map(|b| b.get_value().unwrap()).collect::<Vec<_>>()
    };
    assert_eq!(run(true), run(false), "the compression of constant input differs");
}
''', "unpadded compression of an all-constant block", "the padded hash is returned instead")

seed("c21-personal-sign", "C21", [(BL, "        UInt32::constant(0x5BE0CD19 ^ LittleEndian::read_u32(&personalization[4..8])),\n", "        UInt32::constant(0x5BE0CD19 ^ (LittleEndian::read_u24(&personalization[4..7]) | i32::from(personalization[7] as i8).wrapping_shl(24) as u32 & 0x7fff_ffff)),\n")], GADGET + r'''
fn main() {
    for p in [*b"abcdefgh", [0, 0, 0, 0, 0, 0, 0, 127], [0, 0, 0, 0, 0, 0, 0, 128], [255; 8]] {
        let mut cs = TCS::new();
        let r = bellman::gadgets::blake2s::blake2s(cs.namespace(|| "h"), &[], &p).unwrap();
        let want = blake2s_simd::Params::new().hash_length(32).personal(&p).hash(b"");
        let got: Vec<u8> = r.chunks(8).map(|c| c.iter().rev().fold(0u8, |a, b| a << 1 | b.get_value().unwrap() as u8)).collect();
        assert_eq!(&got[..], want.as_bytes(), "wrong hash for personalisation {:?}", p);
    }
}
''', "a personalisation whose last byte has its top bit set", "personalisations that differ in that bit give the same hash")

seed("c22-one-skip", "C22", [(NUM, '''        let inv = cs.alloc(
            || "ephemeral inverse",
''', '''        // One is its own inverse.
        if self.value == Some(Scalar::ONE) {
            cs.enforce(
                || "nonzero assertion constraint",
                |lc| lc + self.variable,
                |lc| lc + self.variable,
                |lc| lc + CS::one(),
            );

            return Ok(());
        }

        let inv = cs.alloc(
            || "ephemeral inverse",
''')], GADGET + r'''
fn main() {
    let shape = |v: u64| { let mut cs = TCS::new(); let n = AllocatedNum::alloc(cs.namespace(|| "n"), || Ok(Scalar::from(v))).unwrap(); n.assert_nonzero(cs.namespace(|| "z")).unwrap(); cs.hash() };
    assert_eq!(shape(3), shape(5));
    assert_eq!(shape(3), shape(1), "the circuit depends on the witness");
}
''', "a witness value of one", "the emitted circuit depends on the witness, so proofs for it use the wrong key")

seed("c22-foreign-bits", "C22", [(BOOL, "        None => vec![None; F::NUM_BITS as usize],\n", "        None => vec![None; Scalar::NUM_BITS as usize],\n")], GADGET + r'''
use bellman::gadgets::boolean::field_into_boolean_vec_le;
mod toy;
type Small = toy::F65537;
struct Unknown(usize);
impl ConstraintSystem<Scalar> for Unknown {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, _: A, _: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<Scalar, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> { self.0 += 1; Ok(Variable::new_unchecked(Index::Aux(self.0 - 1))) }
    fn alloc_input<F, A, AR>(&mut self, _: A, _: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<Scalar, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> { unreachable!() }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, _: LA, _: LB, _: LC) where A: FnOnce() -> AR, AR: Into<String>, LA: FnOnce(LinearCombination<Scalar>) -> LinearCombination<Scalar>, LB: FnOnce(LinearCombination<Scalar>) -> LinearCombination<Scalar>, LC: FnOnce(LinearCombination<Scalar>) -> LinearCombination<Scalar> {}
    fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self { self }
}
fn main() {
    for v in [Some(Small::from(5)), None] {
        let mut cs = Unknown(0);
        let bits = field_into_boolean_vec_le::<Scalar, _, Small>(&mut cs, v).unwrap();
        assert_eq!(bits.len(), 17, "wrong number of bits");
        assert_eq!(cs.0, 17);
    }
}
''', "bits of a value of another field, unknown at parameter generation", "the circuit has a different number of variables when the value is unknown")

seed("c22-unknown-negation", "C22", [(U32, '''                Boolean::Not(ref b) => match b.get_value() {
                    Some(false) => {
                        if let Some(v) = value.as_mut() {
                            *v |= 1;
                        }
                    }
                    Some(true) => {}
                    None => value = None,
                },
''', '''                Boolean::Not(ref b) => {
                    if b.get_value() == Some(false) {
                        if let Some(v) = value.as_mut() {
                            *v |= 1;
                        }
                    }
                }
''')], GADGET + r'''
fn main() {
    // In a proving context an unknown operand must be reported, not replaced by a guess.
    struct C;
    impl Circuit<Scalar> for C {
        fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
            let b = bellman::gadgets::boolean::Boolean::Not(unknown(cs)?);
            let w = UInt32::from_bits(&(0..32).map(|i| if i == 3 { b.clone() } else { Boolean::constant(false) }).collect::<Vec<_>>());
            let mut m = MultiEq::new(cs.namespace(|| "m"));
            let bits = UInt32::addmany(m.namespace(|| "s"), &[w, UInt32::constant(1)])?.into_bits();
            assert!(bits[0].get_value().is_none(), "the sum of an unknown word has a value");
            Ok(())
        }
    }
    fn unknown<CS: ConstraintSystem<Scalar>>(cs: &mut CS) -> Result<AllocatedBit, SynthesisError> { AllocatedBit::alloc(cs.namespace(|| "b"), None) }
    groth16::generate_random_parameters::<Bls12, _, _>(C, &mut Rng(7)).map(|_| ()).ok();
}
''', "a word assembled from negated bits whose values are unknown", "the word reports a wrong value instead of none")

seed("c14-maj-alias", "C14", [(BOOL, '''        let bc = Self::and(cs.namespace(|| "b and c"), b, c)?;
''', '''        let bc = match (b, c) {
            // b and b equals b
            (Boolean::Is(x), Boolean::Is(y)) | (Boolean::Not(x), Boolean::Not(y)) | (Boolean::Is(x), Boolean::Not(y))
                if x.get_variable().get_unchecked() == y.get_variable().get_unchecked() =>
            {
                b.clone()
            }
            _ => Self::and(cs.namespace(|| "b and c"), b, c)?,
        };
''')], GADGET + r'''
fn main() {
    for v in 0..4 {
        let mut cs = TCS::new();
        let x = Boolean::from(AllocatedBit::alloc(cs.namespace(|| "x"), Some(v & 1 == 1)).unwrap());
        let y = Boolean::from(AllocatedBit::alloc(cs.namespace(|| "y"), Some(v & 2 == 2)).unwrap());
        for (i, (b, c)) in [(y.clone(), y.clone()), (y.clone(), y.not()), (y.not(), y.not()), (y.not(), y.clone())].iter().enumerate() {
            Boolean::sha256_maj(cs.namespace(|| format!("m{}", i)), &x, b, c).unwrap();
            assert!(cs.is_satisfied(), "maj of aliased operands {} at {}", i, v);
        }
    }
}
''', "majority of a bit and its own negation", "the honest assignment is rejected and a wrong result accepted")

seed("c15-negated-reversal", "C15", [(NUM, '''        cs.enforce(
            || "second conditional reversal",
            |lc| lc + b.variable - a.variable,
            |_| condition.lc(CS::one(), Scalar::ONE),
            |lc| lc + b.variable - d.variable,
        );
''', '''        // The two results are a and b in some order, so their sum is known.
        cs.enforce(
            || "second conditional reversal",
            |_| condition.lc(CS::one(), Scalar::ONE),
            |lc| lc + a.variable + b.variable - c.variable - d.variable,
            |lc| lc,
        );
''')], GADGET + r'''
fn main() {
    for cond in [false, true] {
        let mut cs = TCS::new();
        let a = AllocatedNum::alloc(cs.namespace(|| "a"), || Ok(Scalar::from(3))).unwrap();
        let b = AllocatedNum::alloc(cs.namespace(|| "b"), || Ok(Scalar::from(4))).unwrap();
        let c = Boolean::from(AllocatedBit::alloc(cs.namespace(|| "c"), Some(cond)).unwrap());
        AllocatedNum::conditionally_reverse(cs.namespace(|| "r"), &a, &b, &c).unwrap();
        assert!(cs.is_satisfied());
        cs.set("r/conditional reversal result 2/num", Scalar::from(77));
        assert!(!cs.is_satisfied(), "any second result is accepted when the condition is {}", cond);
    }
}
''', "a false condition and a malicious second result", "the second result is unconstrained when nothing is reversed")

seed("c23-verify-zip", "C23", [(TC, '''        for (a, b) in self.inputs.iter().skip(1).zip(expected.iter()) {
            if &a.0 != b {
                return false;
            }
        }

        true
''', '''        // Compare the sums first, which is cheaper than the names.
        let a: Vec<_> = self.inputs[1..].iter().map(|a| a.0).collect();
        let sum = |v: &[Scalar]| v.iter().enumerate().fold(Scalar::ZERO, |s, (i, x)| s + Scalar::from((i % 2) as u64 + 1) * x);

        sum(&a) == sum(expected) && a.iter().all(|x| expected.contains(x))
''')], GADGET + r'''
fn main() {
    let mut cs = TCS::new();
    let v = [5u64, 6, 7, 8];
    for (i, x) in v.iter().enumerate() { cs.alloc_input(|| format!("i{}", i), || Ok(Scalar::from(*x))).unwrap(); }
    let f = |v: [u64; 4]| v.iter().map(|x| Scalar::from(*x)).collect::<Vec<_>>();
    assert!(cs.verify(&f(v)));
    assert!(!cs.verify(&f([5, 6, 7, 9])));
    assert!(!cs.verify(&f([7, 6, 5, 8])), "exchanged inputs verify");
}
''', "public inputs exchanged two places apart", "wrong public inputs verify")

seed("c23-slash-value", "C23", [(TC, "        assert_eq!(expected.len() + 1, self.inputs.len());\n", "        if expected.is_empty() {\n            return self.inputs.iter().skip(1).all(|a| a.0.is_zero_vartime());\n        }\n\n        assert_eq!(expected.len() + 1, self.inputs.len());\n")], GADGET + r'''
fn main() {
    let mut cs = TCS::new();
    assert!(cs.verify(&[]));
    cs.alloc_input(|| "x", || Ok(Scalar::ZERO)).unwrap();
    assert!(cs.verify(&[Scalar::ZERO]));
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cs.verify(&[])));
    assert!(!matches!(r, Ok(true)), "no public inputs verify although the system has one");
}
''', "an empty list of expected inputs for a system that has inputs", "a wrong number of public inputs verifies")

seed("c13-count-late", "C13", [(MC, '''            let previous_count = WORKER_SPAWN_COUNTER.fetch_add(1, Ordering::SeqCst);
''', '''            let previous_count = WORKER_SPAWN_COUNTER.load(Ordering::SeqCst);
            WORKER_SPAWN_COUNTER.store(previous_count + 1, Ordering::SeqCst);
''')], r'''
use bellman::multicore::Worker;
use std::sync::mpsc::channel;
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "2");
    // Many submissions and completions; afterwards the accounting must be back to zero, so
    // submissions below the limit still do not run in the caller.
    let w = Worker::new();
    for _ in 0..300 {
        let t: Vec<_> = (0..2).map(|k| { let w = w.clone(); std::thread::spawn(move || { let v: Vec<_> = (0..50u64).map(|i| w.compute(move || i + k)).collect(); v.into_iter().map(|x| x.wait()).sum::<u64>() }) }).collect();
        for x in t { x.join().unwrap(); }
    }
    std::thread::sleep(std::time::Duration::from_millis(200));
    // Eight tasks that wait for the caller: with the limit at 8 all must be queued.
    let mut senders = vec![]; let mut waiters = vec![];
    let (done_tx, done_rx) = channel();
    std::thread::spawn(move || {
        for i in 0..8u64 { let (tx, rx) = channel::<()>(); senders.push(tx); waiters.push(w.compute(move || { let _ = rx.recv(); i })); }
        for s in senders { let _ = s.send(()); }
        let r: Vec<_> = waiters.into_iter().map(|x| x.wait()).collect();
        done_tx.send(r).unwrap();
    });
    let r = done_rx.recv_timeout(std::time::Duration::from_secs(20)).expect("submission below the limit waits for the task");
    assert_eq!(r, (0..8).collect::<Vec<_>>());
}
''', "two threads submitting, or a submission racing with a completion", "the backlog counter drifts; eventually every submission runs in the caller and can deadlock")

seed("c24-cancel-last", "C24", [(LIB, '''impl<Scalar: PrimeField> Sub<Variable> for LinearCombination<Scalar> {
    type Output = LinearCombination<Scalar>;

    fn sub(self, other: Variable) -> LinearCombination<Scalar> {
        self - (Scalar::ONE, other)
    }
}
''', '''impl<Scalar: PrimeField> Sub<Variable> for LinearCombination<Scalar> {
    type Output = LinearCombination<Scalar>;

    fn sub(mut self, other: Variable) -> LinearCombination<Scalar> {
        // Cancel with the last term if it is the same variable.
        if let Some(true) = self.0.last().map(|(v, _)| v.get_unchecked() == other.get_unchecked()) {
            self.0.pop();
            return self;
        }

        self - (Scalar::ONE, other)
    }
}
''')], GADGET + r'''
fn main() {
    for k in [1u64, 2, 5] {
        let mut cs = TCS::new();
        let x = cs.alloc(|| "x", || Ok(Scalar::from(3))).unwrap();
        cs.enforce(|| "c", |lc| lc + (Scalar::from(k), x) - x, |lc| lc + TCS::one(), |lc| lc + (Scalar::from(3 * (k - 1)), TCS::one()));
        assert!(cs.is_satisfied(), "{} x - x is not {} x", k, k - 1);
    }
}
''', "subtracting a variable right after adding it with a coefficient other than one", "the linear combination loses terms")
