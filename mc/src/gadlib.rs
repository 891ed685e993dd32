//! The gadget instances that C14-C22 enumerate.
use crate::gad::*;
use crate::toy::TF;
use bellman::gadgets::boolean::{self, AllocatedBit, Boolean};
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::num::{AllocatedNum, Num};
use bellman::gadgets::uint32::UInt32;
use bellman::gadgets::{blake2s, lookup, multipack, sha256};
use bellman::{ConstraintSystem, SynthesisError};
use std::marker::PhantomData;

// ---------------------------------------------------------------- booleans
/// An operand of a program: index into the pool (constants, inputs, earlier results), negated?
pub type Op = (u8, bool);
#[derive(Clone, Debug, PartialEq)]
pub enum BOp { And(Op, Op), Xor(Op, Op), Ch(Op, Op, Op), Maj(Op, Op, Op), Eq(Op, Op) }
/// Pool: 0 = false, 1 = true, 2.. = inputs, then results.
#[derive(Clone, Debug)]
pub struct BoolProg { pub nv: u8, pub ops: Vec<BOp> }
impl BoolProg {
    fn eval(&self, x: &[bool]) -> Option<Vec<bool>> {
        let mut p = vec![false, true];
        p.extend_from_slice(x);
        let mut ok = true;
        let n = p.len();
        for o in &self.ops {
            let g = |o: &Op| p[o.0 as usize] ^ o.1;
            let r = match o {
                BOp::And(a, b) => g(a) & g(b),
                BOp::Xor(a, b) => g(a) ^ g(b),
                BOp::Ch(a, b, c) => if g(a) { g(b) } else { g(c) },
                BOp::Maj(a, b, c) => (g(a) as u8 + g(b) as u8 + g(c) as u8) >= 2,
                BOp::Eq(a, b) => { ok &= g(a) == g(b); continue }
            };
            p.push(r);
        }
        if ok { Some(p[n..].to_vec()) } else { None }
    }
    /// Is operand `o` a compile-time constant? (inputs are not, results of constants are)
    fn consts(&self) -> Vec<bool> {
        let mut c = vec![true, true];
        c.extend((0..self.nv).map(|_| false));
        for o in &self.ops {
            let g = |o: &Op| c[o.0 as usize];
            let r = match o { BOp::And(a, b) | BOp::Xor(a, b) => g(a) && g(b), BOp::Ch(a, b, d) | BOp::Maj(a, b, d) => g(a) && g(b) && g(d), BOp::Eq(..) => continue };
            c.push(r);
        }
        c
    }
}
impl<F: TF> Gadget<F> for BoolProg {
    fn ins(&self) -> Vec<Ty> { vec![Ty::Bit; self.nv as usize] }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, x: &[In<F>]) -> Result<Vec<Out<F>>, SynthesisError> {
        let mut p = vec![Boolean::constant(false), Boolean::constant(true)];
        p.extend(x.iter().map(|b| Boolean::from(b.bit().clone())));
        let n = p.len();
        for (i, o) in self.ops.iter().enumerate() {
            let g = |o: &Op| if o.1 { p[o.0 as usize].not() } else { p[o.0 as usize].clone() };
            let mut cs = cs.namespace(|| format!("op {}", i));
            let r = match o {
                BOp::And(a, b) => Boolean::and(&mut cs, &g(a), &g(b))?,
                BOp::Xor(a, b) => Boolean::xor(&mut cs, &g(a), &g(b))?,
                BOp::Ch(a, b, c) => Boolean::sha256_ch(&mut cs, &g(a), &g(b), &g(c))?,
                BOp::Maj(a, b, c) => Boolean::sha256_maj(&mut cs, &g(a), &g(b), &g(c))?,
                BOp::Eq(a, b) => { Boolean::enforce_equal(&mut cs, &g(a), &g(b))?; continue }
            };
            p.push(r);
        }
        Ok(obs(&p[n..]))
    }
    fn spec(&self, x: &[F]) -> Sp<F> {
        let b: Vec<bool> = x.iter().map(|v| *v == F::ONE).collect();
        // unequal constants are an error; unequal variables make the constraints unsatisfiable
        let c = self.consts();
        for (i, o) in self.ops.iter().enumerate() {
            if let BOp::Eq(l, r) = o {
                if c[l.0 as usize] && c[r.0 as usize] {
                    let pre = BoolProg { nv: self.nv, ops: self.ops[..i].iter().filter(|o| !matches!(o, BOp::Eq(..))).cloned().collect() };
                    let mut p = vec![false, true];
                    p.extend_from_slice(&b);
                    p.extend(pre.eval(&b).unwrap());
                    if p[l.0 as usize] ^ l.1 != p[r.0 as usize] ^ r.1 { return Sp::Err("Unsatisfiable"); }
                }
            }
        }
        match self.eval(&b) { Some(o) => Sp::Out(o.into_iter().map(fb).collect()), None => Sp::Unsat }
    }
    fn constant(&self) -> bool {
        let c = self.consts();
        self.ops.iter().all(|o| match o { BOp::And(a, b) | BOp::Xor(a, b) | BOp::Eq(a, b) => c[a.0 as usize] && c[b.0 as usize], BOp::Ch(a, b, d) | BOp::Maj(a, b, d) => c[a.0 as usize] && c[b.0 as usize] && c[d.0 as usize] })
    }
}
/// every operand over the pool of `n` entries
pub fn operands(n: u8) -> Vec<Op> { (0..n).filter(|i| *i != 1).flat_map(|i| [(i, false), (i, true)]).collect() }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AOp { Xor, And, AndNot, Nor }
#[derive(Clone, Debug)]
pub struct ABit { pub op: AOp, pub nv: u8, pub a: u8, pub b: u8 }
impl<F: TF> Gadget<F> for ABit {
    fn ins(&self) -> Vec<Ty> { vec![Ty::Bit; self.nv as usize] }
    fn synth<CS: ConstraintSystem<F>>(&self, cs: CS, x: &[In<F>]) -> Result<Vec<Out<F>>, SynthesisError> {
        let (a, b) = (x[self.a as usize].bit(), x[self.b as usize].bit());
        let r = match self.op { AOp::Xor => AllocatedBit::xor(cs, a, b)?, AOp::And => AllocatedBit::and(cs, a, b)?, AOp::AndNot => AllocatedBit::and_not(cs, a, b)?, AOp::Nor => AllocatedBit::nor(cs, a, b)? };
        Ok(vec![ob(&Boolean::from(r))])
    }
    fn spec(&self, x: &[F]) -> Sp<F> {
        let (a, b) = (x[self.a as usize] == F::ONE, x[self.b as usize] == F::ONE);
        Sp::Out(vec![fb(match self.op { AOp::Xor => a ^ b, AOp::And => a & b, AOp::AndNot => a & !b, AOp::Nor => !a & !b })])
    }
}
/// alloc_conditionally with the value of input 1, forced to false by input 0.
#[derive(Clone, Debug)]
pub struct Cond;
impl<F: TF> Gadget<F> for Cond {
    fn ins(&self) -> Vec<Ty> { vec![Ty::Bit; 2] }
    fn synth<CS: ConstraintSystem<F>>(&self, cs: CS, x: &[In<F>]) -> Result<Vec<Out<F>>, SynthesisError> {
        Ok(vec![ob(&Boolean::from(AllocatedBit::alloc_conditionally(cs, x[1].bit().get_value(), x[0].bit())?))])
    }
    fn spec(&self, x: &[F]) -> Sp<F> { if x[0] == F::ONE && x[1] == F::ONE { Sp::Unsat } else { Sp::Out(vec![x[1]]) } }
    fn accept(&self, x: &[F], o: &[F]) -> bool { o[0] == F::ZERO || (o[0] == F::ONE && x[0] == F::ZERO) }
}
/// lc(one, coeff) of every operand kind
#[derive(Clone, Debug)]
pub struct LcOf<F> { pub k: K, pub c: F }
impl<F: TF> Gadget<F> for LcOf<F> {
    fn ins(&self) -> Vec<Ty> { vec![Ty::Bit; 2] }
    fn synth<CS: ConstraintSystem<F>>(&self, _cs: CS, x: &[In<F>]) -> Result<Vec<Out<F>>, SynthesisError> {
        let b = self.k.mk(x);
        Ok(vec![Out { lc: b.lc(CS::one(), self.c), val: b.get_value().map(|v| if v { self.c } else { F::ZERO }), constant: b.is_constant() }])
    }
    fn spec(&self, x: &[F]) -> Sp<F> { Sp::Out(vec![if self.k.ev(x) { self.c } else { F::ZERO }]) }
    fn constant(&self) -> bool { self.k.is_const() }
}

// ---------------------------------------------------------------- numbers
#[derive(Clone, Debug)]
pub enum NOp { Mul(u8, u8), Square(u8), Nonzero(u8), Reverse(u8, u8, K), Inputize(u8), Strict(u8), Plain(u8), MulSq(u8, u8), InputProduct(u8, u8) }
/// inputs: `bits` bits, then `nums` numbers; the operation indexes numbers from 0.
#[derive(Clone, Debug)]
pub struct NumG { pub bits: u8, pub nums: u8, pub op: NOp }
fn le_bits<F: TF>(x: &F) -> Vec<F> {
    let r = x.to_repr();
    (0..F::NUM_BITS as usize).map(|i| fb((r[i / 8] >> (i % 8)) & 1 == 1)).collect()
}
fn sum_bits<F: TF>(b: &[F]) -> F { b.iter().rev().fold(F::ZERO, |a, x| a.double() + x) }
impl<F: TF> Gadget<F> for NumG {
    fn ins(&self) -> Vec<Ty> { let mut v = vec![Ty::Bit; self.bits as usize]; v.extend(vec![Ty::Num; self.nums as usize]); v }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, x: &[In<F>]) -> Result<Vec<Out<F>>, SynthesisError> {
        let n = |i: u8| x[(self.bits + i) as usize].num();
        Ok(match &self.op {
            NOp::Mul(a, b) => vec![on(&n(*a).mul(cs, n(*b))?)],
            NOp::Square(a) => vec![on(&n(*a).square(cs)?)],
            NOp::Nonzero(a) => { n(*a).assert_nonzero(cs)?; vec![] }
            NOp::Reverse(a, b, k) => { let (c, d) = AllocatedNum::conditionally_reverse(cs, n(*a), n(*b), &k.mk(x))?; vec![on(&c), on(&d)] }
            NOp::Inputize(a) => { n(*a).inputize(cs)?; vec![] }
            NOp::Strict(a) => obs(&n(*a).to_bits_le_strict(cs)?),
            NOp::Plain(a) => obs(&n(*a).to_bits_le(cs)?),
            NOp::MulSq(a, b) => { let m = n(*a).mul(cs.namespace(|| "m"), n(*b))?; let s = m.square(cs.namespace(|| "s"))?; let t = s.mul(cs.namespace(|| "t"), &m)?; vec![on(&m), on(&s), on(&t)] }
            NOp::InputProduct(a, b) => { let m = n(*a).mul(cs.namespace(|| "m"), n(*b))?; m.inputize(cs.namespace(|| "i"))?; n(*a).inputize(cs.namespace(|| "j"))?; vec![on(&m)] }
        })
    }
    fn spec(&self, x: &[F]) -> Sp<F> {
        let n = |i: u8| x[(self.bits + i) as usize];
        Sp::Out(match &self.op {
            NOp::Mul(a, b) => vec![n(*a) * n(*b)],
            NOp::Square(a) => vec![n(*a) * n(*a)],
            NOp::Nonzero(a) => if n(*a).is_zero_vartime() { return Sp::Err("DivisionByZero") } else { vec![] },
            NOp::Reverse(a, b, k) => if k.ev(x) { vec![n(*b), n(*a)] } else { vec![n(*a), n(*b)] },
            NOp::Inputize(_) => vec![],
            NOp::Strict(a) | NOp::Plain(a) => le_bits(&n(*a)),
            NOp::MulSq(a, b) => { let m = n(*a) * n(*b); vec![m, m * m, m * m * m] }
            NOp::InputProduct(a, b) => vec![n(*a) * n(*b)],
        })
    }
    fn pubs(&self, x: &[F]) -> Vec<F> {
        let n = |i: u8| x[(self.bits + i) as usize];
        match &self.op { NOp::Inputize(a) => vec![n(*a)], NOp::InputProduct(a, b) => vec![n(*a) * n(*b), n(*a)], _ => vec![] }
    }
    fn accept(&self, x: &[F], o: &[F]) -> bool {
        match &self.op {
            NOp::Plain(a) => o.len() == F::NUM_BITS as usize && o.iter().all(|b| *b == F::ZERO || *b == F::ONE) && sum_bits(o) == x[(self.bits + a) as usize],
            _ => match self.spec(x) { Sp::Out(e) => e == o, _ => false },
        }
    }
}
/// Num: a start (zero or an allocated number) and a sequence of additions of booleans with coefficients.
#[derive(Clone, Debug)]
pub struct NumAcc<F> { pub nv: usize, pub start: bool, pub terms: Vec<(K, F)>, pub scale: F }
impl<F: TF> Gadget<F> for NumAcc<F> {
    fn ins(&self) -> Vec<Ty> { let mut v = vec![Ty::Bit; self.nv]; if self.start { v.push(Ty::Num) } v }
    fn synth<CS: ConstraintSystem<F>>(&self, _cs: CS, x: &[In<F>]) -> Result<Vec<Out<F>>, SynthesisError> {
        let mut n = if self.start { Num::from(x[self.nv].num().clone()) } else { Num::zero() };
        for (k, c) in &self.terms { n = n.add_bool_with_coeff(CS::one(), &k.mk(x), *c); }
        Ok(vec![Out { lc: n.lc(self.scale), val: n.get_value().map(|v| v * self.scale), constant: false }])
    }
    fn spec(&self, x: &[F]) -> Sp<F> {
        let mut s = if self.start { x[self.nv] } else { F::ZERO };
        for (k, c) in &self.terms { if k.ev(x) { s += *c } }
        Sp::Out(vec![s * self.scale])
    }
}
/// field_into_boolean_vec_le / field_into_allocated_bits_le of a value of `G` in a circuit over F.
#[derive(Clone, Debug)]
pub struct FieldBitsG<G> { pub v: G, pub bools: bool }
impl<F: TF, G: TF> Gadget<F> for FieldBitsG<G> {
    fn ins(&self) -> Vec<Ty> { vec![] }
    fn synth<CS: ConstraintSystem<F>>(&self, cs: CS, _x: &[In<F>]) -> Result<Vec<Out<F>>, SynthesisError> {
        if self.bools { Ok(obs(&boolean::field_into_boolean_vec_le::<F, _, G>(cs, Some(self.v))?)) }
        else { Ok(boolean::field_into_allocated_bits_le::<F, _, G>(cs, Some(self.v))?.into_iter().map(|b| ob(&Boolean::from(b))).collect()) }
    }
    fn spec(&self, _x: &[F]) -> Sp<F> { Sp::Out(le_bits(&self.v).into_iter().map(|b: G| fb(b == G::ONE)).collect()) }
    fn accept(&self, _x: &[F], o: &[F]) -> bool { o.iter().all(|b| *b == F::ZERO || *b == F::ONE) }
}
#[derive(Clone, Debug)]
pub struct U64Bits(pub u64);
impl<F: TF> Gadget<F> for U64Bits {
    fn ins(&self) -> Vec<Ty> { vec![] }
    fn synth<CS: ConstraintSystem<F>>(&self, cs: CS, _x: &[In<F>]) -> Result<Vec<Out<F>>, SynthesisError> { Ok(obs(&boolean::u64_into_boolean_vec_le(cs, Some(self.0))?)) }
    fn spec(&self, _x: &[F]) -> Sp<F> { Sp::Out((0..64).map(|i| fb((self.0 >> i) & 1 == 1)).collect()) }
}

// ---------------------------------------------------------------- 32-bit words
#[derive(Clone, Debug)]
pub enum W { Bits(Vec<K>), Be(Vec<K>), Const(u32) }
#[derive(Clone, Debug)]
pub enum WOp { Xor(usize, usize), Ch(usize, usize, usize), Maj(usize, usize, usize), Rotr(usize, usize), Shr(usize, usize), Add(Vec<usize>), Same(usize) }
#[derive(Clone, Debug)]
pub struct WordProg { pub nv: usize, pub words: Vec<W>, pub ops: Vec<WOp>, pub be: bool, /// bring the tracked value to light by adding the constant 0
    pub probe: bool }
impl WordProg {
    fn k(k: &K, nv: usize) -> bool { match k { K::C(_) => true, K::Is(i) | K::Not(i) => (*i as usize) < nv } }
    pub fn valid(&self) -> bool { self.words.iter().all(|w| match w { W::Bits(b) | W::Be(b) => b.len() == 32 && b.iter().all(|k| Self::k(k, self.nv)), _ => true }) }
}
impl<F: TF> Gadget<F> for WordProg {
    fn ins(&self) -> Vec<Ty> { vec![Ty::Bit; self.nv] }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, x: &[In<F>]) -> Result<Vec<Out<F>>, SynthesisError> {
        let mk = |b: &Vec<K>| b.iter().map(|k| k.mk(x)).collect::<Vec<_>>();
        let mut p: Vec<UInt32> = self.words.iter().map(|w| match w { W::Bits(b) => UInt32::from_bits(&mk(b)), W::Be(b) => UInt32::from_bits_be(&mk(b)), W::Const(c) => UInt32::constant(*c) }).collect();
        let adds = self.probe || self.ops.iter().any(|o| matches!(o, WOp::Add(_)));
        if adds {
            let mut m = MultiEq::new(&mut cs);
            for (i, o) in self.ops.iter().enumerate() {
                let mut ns = m.namespace(|| format!("op {}", i));
                let r = match o { WOp::Add(l) => UInt32::addmany(&mut ns, &l.iter().map(|i| p[*i].clone()).collect::<Vec<_>>())?, o => simple(&mut ns, &p, o)? };
                p.push(r);
            }
            if self.probe {
                let last = p.last().unwrap().clone();
                let r = UInt32::addmany(m.namespace(|| "probe"), &[last, UInt32::constant(0)])?;
                p.push(r);
            }
        } else {
            for (i, o) in self.ops.iter().enumerate() { let r = simple(cs.namespace(|| format!("op {}", i)), &p, o)?; p.push(r); }
        }
        let last = p.pop().unwrap();
        Ok(obs(&if self.be { last.into_bits_be() } else { last.into_bits() }))
    }
    fn spec(&self, x: &[F]) -> Sp<F> {
        let val = |b: &Vec<K>| b.iter().enumerate().fold(0u32, |a, (i, k)| a | (k.ev(x) as u32) << i);
        let mut p: Vec<u32> = self.words.iter().map(|w| match w { W::Bits(b) => val(b), W::Be(b) => val(&b.iter().rev().cloned().collect()), W::Const(c) => *c }).collect();
        for o in &self.ops {
            let r = match o {
                WOp::Xor(a, b) => p[*a] ^ p[*b],
                WOp::Ch(a, b, c) => (p[*a] & p[*b]) ^ (!p[*a] & p[*c]),
                WOp::Maj(a, b, c) => (p[*a] & p[*b]) ^ (p[*a] & p[*c]) ^ (p[*b] & p[*c]),
                WOp::Rotr(a, n) => p[*a].rotate_right((*n % 32) as u32),
                WOp::Shr(a, n) => p[*a] >> *n,
                WOp::Add(l) => l.iter().fold(0u32, |s, i| s.wrapping_add(p[*i])),
                WOp::Same(a) => p[*a],
            };
            p.push(r);
        }
        let v = *p.last().unwrap();
        let mut o: Vec<F> = (0..32).map(|i| fb((v >> i) & 1 == 1)).collect();
        if self.be { o.reverse() }
        Sp::Out(o)
    }
    fn constant(&self) -> bool { self.words.iter().all(|w| match w { W::Const(_) => true, W::Bits(b) | W::Be(b) => b.iter().all(|k| k.is_const()) }) }
}
fn simple<F: TF, CS: ConstraintSystem<F>>(cs: CS, p: &[UInt32], o: &WOp) -> Result<UInt32, SynthesisError> {
    Ok(match o {
        WOp::Xor(a, b) => p[*a].xor(cs, &p[*b])?,
        WOp::Ch(a, b, c) => UInt32::sha256_ch(cs, &p[*a], &p[*b], &p[*c])?,
        WOp::Maj(a, b, c) => UInt32::sha256_maj(cs, &p[*a], &p[*b], &p[*c])?,
        WOp::Rotr(a, n) => p[*a].rotr(*n),
        WOp::Shr(a, n) => p[*a].shr(*n),
        WOp::Same(a) => UInt32::from_bits_be(&p[*a].clone().into_bits_be()),
        WOp::Add(_) => unreachable!(),
    })
}
/// UInt32::alloc
#[derive(Clone, Debug)]
pub struct WordAlloc(pub u32);
impl<F: TF> Gadget<F> for WordAlloc {
    fn ins(&self) -> Vec<Ty> { vec![] }
    fn synth<CS: ConstraintSystem<F>>(&self, mut cs: CS, _x: &[In<F>]) -> Result<Vec<Out<F>>, SynthesisError> {
        let w = UInt32::alloc(cs.namespace(|| "w"), Some(self.0))?;
        let mut m = MultiEq::new(&mut cs);
        let r = UInt32::addmany(m.namespace(|| "probe"), &[w.clone(), UInt32::constant(0)])?;
        let mut o = obs(&w.into_bits());
        o.extend(obs(&r.into_bits()));
        Ok(o)
    }
    fn spec(&self, _x: &[F]) -> Sp<F> { Sp::Out((0..64).map(|i| fb((self.0 >> (i % 32)) & 1 == 1)).collect()) }
}

// ---------------------------------------------------------------- lookups
#[derive(Clone, Debug)]
pub struct Lookup<F> { pub nv: u8, pub sel: [K; 3], pub table: Vec<(F, F)> }
impl<F: TF> Gadget<F> for Lookup<F> {
    fn ins(&self) -> Vec<Ty> { vec![Ty::Bit; self.nv as usize] }
    fn synth<CS: ConstraintSystem<F>>(&self, cs: CS, x: &[In<F>]) -> Result<Vec<Out<F>>, SynthesisError> {
        let b: Vec<Boolean> = self.sel.iter().map(|k| k.mk(x)).collect();
        if self.table.len() == 8 {
            let (a, b) = lookup::lookup3_xy(cs, &b, &self.table)?;
            Ok(vec![on(&a), on(&b)])
        } else {
            let (a, b) = lookup::lookup3_xy_with_conditional_negation(cs, &b, &self.table)?;
            Ok(vec![onum(&a), onum(&b)])
        }
    }
    fn spec(&self, x: &[F]) -> Sp<F> {
        let s: Vec<bool> = self.sel.iter().map(|k| k.ev(x)).collect();
        Sp::Out(if self.table.len() == 8 {
            let (a, b) = self.table[s[0] as usize + 2 * s[1] as usize + 4 * s[2] as usize];
            vec![a, b]
        } else {
            let (a, b) = self.table[s[0] as usize + 2 * s[1] as usize];
            vec![a, if s[2] { -b } else { b }]
        })
    }
}

// ---------------------------------------------------------------- packing
#[derive(Clone, Debug)]
pub struct Pack<F> { pub nv: usize, pub bits: Vec<K>, pub p: PhantomData<F> }
pub fn native_pack<F: TF>(b: &[bool]) -> Vec<F> {
    b.chunks(F::CAPACITY as usize).map(|c| c.iter().rev().fold(F::ZERO, |a, x| a + a + fb::<F>(*x))).collect()
}
impl<F: TF> Gadget<F> for Pack<F> {
    fn ins(&self) -> Vec<Ty> { vec![Ty::Bit; self.nv] }
    fn synth<CS: ConstraintSystem<F>>(&self, cs: CS, x: &[In<F>]) -> Result<Vec<Out<F>>, SynthesisError> {
        let b: Vec<Boolean> = self.bits.iter().map(|k| k.mk(x)).collect();
        multipack::pack_into_inputs(cs, &b)?;
        Ok(vec![])
    }
    fn spec(&self, _x: &[F]) -> Sp<F> { Sp::Out(vec![]) }
    fn pubs(&self, x: &[F]) -> Vec<F> { native_pack(&self.bits.iter().map(|k| k.ev(x)).collect::<Vec<_>>()) }
}

// ---------------------------------------------------------------- hashes
#[derive(Clone, Debug, PartialEq)]
pub enum HashKind { Sha, ShaBlock, Blake([u8; 8]) }
#[derive(Clone, Debug)]
pub struct Hash { pub kind: HashKind, pub nv: usize, pub bits: Vec<KBig> }
/// As `K`, with more than 256 inputs.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum KBig { C(bool), Is(u32), Not(u32) }
impl KBig {
    fn ev<F: TF>(self, x: &[F]) -> bool { match self { KBig::C(b) => b, KBig::Is(i) => x[i as usize] == F::ONE, KBig::Not(i) => x[i as usize] != F::ONE } }
}
pub fn sha_compress(h: &mut [u32; 8], block: &[u8]) {
    const K: [u32; 64] = sha_k();
    let mut w = [0u32; 64];
    for i in 0..16 { w[i] = u32::from_be_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]); }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
}
/// The first 32 bits of the fractional parts of the cube roots of the first 64 primes.
const fn sha_k() -> [u32; 64] {
    let mut out = [0u32; 64];
    let (mut n, mut i) = (2u128, 0);
    while i < 64 {
        let mut d = 2;
        let mut prime = true;
        while d * d <= n { if n % d == 0 { prime = false; } d += 1; }
        if prime {
            // floor(cbrt(n) * 2^32) by bisection on x^3 <= n 2^96
            let (mut lo, mut hi) = (0u128, 1u128 << 36);
            while hi - lo > 1 { let m = (lo + hi) / 2; if m * m * m <= n << 96 { lo = m } else { hi = m } }
            out[i] = lo as u32;
            i += 1;
        }
        n += 1;
    }
    out
}
pub const SHA_IV: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
impl<F: TF> Gadget<F> for Hash {
    fn ins(&self) -> Vec<Ty> { vec![Ty::Bit; self.nv] }
    fn synth<CS: ConstraintSystem<F>>(&self, cs: CS, x: &[In<F>]) -> Result<Vec<Out<F>>, SynthesisError> {
        let b: Vec<Boolean> = self.bits.iter().map(|k| match *k { KBig::C(b) => Boolean::constant(b), KBig::Is(i) => Boolean::from(x[i as usize].bit().clone()), KBig::Not(i) => Boolean::from(x[i as usize].bit().clone()).not() }).collect();
        Ok(obs(&match self.kind {
            HashKind::Sha => sha256::sha256(cs, &b)?,
            HashKind::ShaBlock => sha256::sha256_block_no_padding(cs, &b)?,
            HashKind::Blake(p) => blake2s::blake2s(cs, &b, &p)?,
        }))
    }
    fn spec(&self, x: &[F]) -> Sp<F> {
        let bits: Vec<bool> = self.bits.iter().map(|k| k.ev(x)).collect();
        let le = matches!(self.kind, HashKind::Blake(_));
        let bytes: Vec<u8> = bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | (*b as u8) << if le { i } else { 7 - i })).collect();
        let out: Vec<u8> = match self.kind {
            HashKind::Sha => { use sha2::Digest; sha2::Sha256::digest(&bytes).to_vec() }
            HashKind::ShaBlock => { let mut h = SHA_IV; sha_compress(&mut h, &bytes); h.iter().flat_map(|w| w.to_be_bytes()).collect() }
            HashKind::Blake(p) => blake2s_simd::Params::new().hash_length(32).personal(&p).hash(&bytes).as_bytes().to_vec(),
        };
        Sp::Out(out.iter().flat_map(|b| (0..8).map(move |i| fb((b >> if le { i } else { 7 - i }) & 1 == 1))).collect())
    }
}
