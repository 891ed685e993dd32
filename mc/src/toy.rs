//! Finite, fully enumerable algebra: prime fields `Fp<P>` and a pairing engine `Toy<F>`
//! whose group elements are their own discrete logarithms (so every pairing equation can be
//! decided exactly by an independent oracle).
use ff::{Field, FieldBits, PrimeField, PrimeFieldBits};
use group::{
    cofactor::{CofactorCurve, CofactorCurveAffine, CofactorGroup},
    prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup},
    Curve, Group, GroupEncoding, UncompressedEncoding, WnafGroup,
};
use pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use rand_core::RngCore;
use std::fmt;
use std::iter::{Product, Sum};
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

const fn mulmod(a: u64, b: u64, p: u64) -> u64 {
    if p < (1 << 32) {
        (a * b) % p
    } else {
        ((a as u128 * b as u128) % p as u128) as u64
    }
}
const fn powmod(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, b, p);
        }
        b = mulmod(b, b, p);
        e >>= 1;
    }
    r
}
const fn is_generator(g: u64, p: u64) -> bool {
    let mut m = p - 1;
    let mut d = 2;
    while d * d <= m {
        if m % d == 0 {
            while m % d == 0 {
                m /= d;
            }
            if powmod(g, (p - 1) / d, p) == 1 {
                return false;
            }
        }
        d += 1;
    }
    if m > 1 && powmod(g, (p - 1) / m, p) == 1 {
        return false;
    }
    true
}
const fn find_generator(p: u64) -> u64 {
    let mut g = 2;
    while g < p {
        if is_generator(g, p) {
            return g;
        }
        g += 1;
    }
    1
}

/// The prime field of order P (P < 2^64 prime).
#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Fp<const P: u64>(pub u64);

impl<const P: u64> Fp<P> {
    const GEN: u64 = find_generator(P);
    pub fn new(v: u64) -> Self {
        Fp(v % P)
    }
    /// Every element of the field (only for small P).
    pub fn all() -> impl Iterator<Item = Self> + Clone {
        (0..P).map(Fp)
    }
    /// Every non-zero element.
    pub fn units() -> impl Iterator<Item = Self> + Clone {
        (1..P).map(Fp)
    }
}
impl<const P: u64> fmt::Debug for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> From<u64> for Fp<P> {
    fn from(v: u64) -> Self {
        Fp(v % P)
    }
}
impl<const P: u64> ConstantTimeEq for Fp<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl<const P: u64> ConditionallySelectable for Fp<P> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Fp(u64::conditional_select(&a.0, &b.0, c))
    }
}
impl<const P: u64> Neg for Fp<P> {
    type Output = Self;
    #[inline]
    fn neg(self) -> Self {
        if self.0 == 0 {
            self
        } else {
            Fp(P - self.0)
        }
    }
}
#[inline]
fn addm<const P: u64>(a: u64, b: u64) -> u64 {
    if P < (1 << 63) {
        let s = a + b;
        if s >= P {
            s - P
        } else {
            s
        }
    } else {
        ((a as u128 + b as u128) % P as u128) as u64
    }
}
macro_rules! field_ops {
    ($($tr:ident $m:ident $tra:ident $ma:ident |$a:ident,$b:ident| $e:expr;)*) => {$(
        impl<const P: u64> $tr for Fp<P> { type Output = Self; #[inline] fn $m(self, o: Self) -> Self { let ($a,$b)=(self.0,o.0); Fp($e) } }
        impl<'a, const P: u64> $tr<&'a Fp<P>> for Fp<P> { type Output = Self; #[inline] fn $m(self, o: &'a Self) -> Self { let ($a,$b)=(self.0,o.0); Fp($e) } }
        impl<const P: u64> $tra for Fp<P> { #[inline] fn $ma(&mut self, o: Self) { let ($a,$b)=(self.0,o.0); self.0 = $e; } }
        impl<'a, const P: u64> $tra<&'a Fp<P>> for Fp<P> { #[inline] fn $ma(&mut self, o: &'a Self) { let ($a,$b)=(self.0,o.0); self.0 = $e; } }
    )*};
}
field_ops! {
    Add add AddAssign add_assign |a,b| addm::<P>(a,b);
    Sub sub SubAssign sub_assign |a,b| if a >= b { a - b } else { P - (b - a) };
    Mul mul MulAssign mul_assign |a,b| mulmod(a,b,P);
}
impl<const P: u64> Sum for Fp<P> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Fp(0), |a, b| a + b)
    }
}
impl<'a, const P: u64> Sum<&'a Fp<P>> for Fp<P> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Fp(0), |a, b| a + b)
    }
}
impl<const P: u64> Product for Fp<P> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Fp(1), |a, b| a * b)
    }
}
impl<'a, const P: u64> Product<&'a Fp<P>> for Fp<P> {
    fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Fp(1), |a, b| a * b)
    }
}
impl<const P: u64> Field for Fp<P> {
    const ZERO: Self = Fp(0);
    const ONE: Self = Fp(1);
    /// Exactly one `next_u64` per element (so an RNG script enumerates field elements).
    fn random(mut rng: impl RngCore) -> Self {
        if let Some(v) = oracle::next() {
            return Fp(v % P);
        }
        Fp(rng.next_u64() % P)
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(
            Fp(powmod(self.0, P - 2, P)),
            Choice::from((self.0 != 0) as u8),
        )
    }
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
        ff::helpers::sqrt_ratio_generic(num, div)
    }
    fn sqrt(&self) -> CtOption<Self> {
        let mut x = 0;
        while x < P {
            if mulmod(x, x, P) == self.0 {
                return CtOption::new(Fp(x), Choice::from(1));
            }
            x += 1;
        }
        CtOption::new(Fp(0), Choice::from(0))
    }
}
impl<const P: u64> PrimeField for Fp<P> {
    type Repr = [u8; 32];
    fn from_repr(r: [u8; 32]) -> CtOption<Self> {
        let mut b = [0u8; 8];
        b.copy_from_slice(&r[..8]);
        let v = u64::from_le_bytes(b);
        let ok = r[8..].iter().all(|x| *x == 0) && v < P;
        CtOption::new(Fp(if ok { v } else { 0 }), Choice::from(ok as u8))
    }
    fn to_repr(&self) -> [u8; 32] {
        let mut r = [0u8; 32];
        r[..8].copy_from_slice(&self.0.to_le_bytes());
        r
    }
    fn is_odd(&self) -> Choice {
        Choice::from((self.0 & 1) as u8)
    }
    const MODULUS: &'static str = "toy";
    const NUM_BITS: u32 = 64 - P.leading_zeros();
    const CAPACITY: u32 = Self::NUM_BITS - 1;
    const TWO_INV: Self = Fp((P + 1) / 2 % P + ((P == u64::MAX) as u64));
    const MULTIPLICATIVE_GENERATOR: Self = Fp(Self::GEN);
    const S: u32 = (P - 1).trailing_zeros();
    const ROOT_OF_UNITY: Self = Fp(powmod(Self::GEN, (P - 1) >> Self::S, P));
    const ROOT_OF_UNITY_INV: Self = Fp(powmod(powmod(Self::GEN, (P - 1) >> Self::S, P), P - 2, P));
    const DELTA: Self = Fp(powmod(Self::GEN, 1 << Self::S, P));
}
impl<const P: u64> PrimeFieldBits for Fp<P> {
    type ReprBits = u64;
    fn to_le_bits(&self) -> FieldBits<u64> {
        FieldBits::new(self.0)
    }
    fn char_le_bits() -> FieldBits<u64> {
        FieldBits::new(P)
    }
}

/// Fixed-size byte encodings.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Enc<const N: usize>(pub [u8; N]);
impl<const N: usize> Default for Enc<N> {
    fn default() -> Self {
        Enc([0; N])
    }
}
impl<const N: usize> AsRef<[u8]> for Enc<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> AsMut<[u8]> for Enc<N> {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}

/// What the toy engine needs of a scalar field.
pub trait TF: PrimeField<Repr = [u8; 32]> + PrimeFieldBits {}
impl<T: PrimeField<Repr = [u8; 32]> + PrimeFieldBits> TF for T {}

macro_rules! group_type {
    ($G:ident, $pair:ident, $comp:expr, $uncomp:expr, $tc:expr, $tu:expr) => {
        /// A group element, represented by its discrete logarithm.
        #[derive(Copy, Clone, PartialEq, Eq, Debug)]
        pub struct $G<F: TF>(pub F);
        impl<F: TF> $G<F> {
            /// Tag of an encoding of a subgroup element / of a point outside the subgroup.
            pub const TAG_C: u8 = $tc;
            pub const TAG_U: u8 = $tu;
            pub const TAG_BADSUB: u8 = 0x80;
            pub const LEN_C: usize = $comp;
            pub const LEN_U: usize = $uncomp;
            fn dec(b: &[u8], tag: u8, unchecked: bool) -> CtOption<Self> {
                let mut r = [0u8; 32];
                r.copy_from_slice(&b[1..33]);
                let f = F::from_repr(r);
                let tag_ok = b[0] == tag || (unchecked && b[0] == tag | Self::TAG_BADSUB);
                let ok = tag_ok && b[33..].iter().all(|x| *x == 0) && bool::from(f.is_some());
                CtOption::new($G(f.unwrap_or(F::ZERO)), Choice::from(ok as u8))
            }
            fn enc(&self, b: &mut [u8], tag: u8) {
                b[0] = tag;
                b[1..33].copy_from_slice(&self.0.to_repr());
            }
        }
        impl<F: TF> Default for $G<F> {
            fn default() -> Self {
                $G(F::ZERO)
            }
        }
        impl<F: TF> ConditionallySelectable for $G<F> {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                $G(F::conditional_select(&a.0, &b.0, c))
            }
        }
        impl<F: TF> Neg for $G<F> {
            type Output = Self;
            fn neg(self) -> Self {
                $G(-self.0)
            }
        }
        impl<F: TF> Add for $G<F> { type Output = Self; #[inline] fn add(self, o: Self) -> Self { $G(self.0 + o.0) } }
        impl<'a, F: TF> Add<&'a $G<F>> for $G<F> { type Output = Self; #[inline] fn add(self, o: &'a Self) -> Self { $G(self.0 + o.0) } }
        impl<F: TF> Sub for $G<F> { type Output = Self; #[inline] fn sub(self, o: Self) -> Self { $G(self.0 - o.0) } }
        impl<'a, F: TF> Sub<&'a $G<F>> for $G<F> { type Output = Self; #[inline] fn sub(self, o: &'a Self) -> Self { $G(self.0 - o.0) } }
        impl<F: TF> AddAssign for $G<F> { #[inline] fn add_assign(&mut self, o: Self) { self.0 += o.0 } }
        impl<'a, F: TF> AddAssign<&'a $G<F>> for $G<F> { #[inline] fn add_assign(&mut self, o: &'a Self) { self.0 += o.0 } }
        impl<F: TF> SubAssign for $G<F> { #[inline] fn sub_assign(&mut self, o: Self) { self.0 -= o.0 } }
        impl<'a, F: TF> SubAssign<&'a $G<F>> for $G<F> { #[inline] fn sub_assign(&mut self, o: &'a Self) { self.0 -= o.0 } }
        impl<F: TF> Mul<F> for $G<F> { type Output = Self; #[inline] fn mul(self, o: F) -> Self { $G(self.0 * o) } }
        impl<'a, F: TF> Mul<&'a F> for $G<F> { type Output = Self; #[inline] fn mul(self, o: &'a F) -> Self { $G(self.0 * *o) } }
        impl<F: TF> MulAssign<F> for $G<F> { #[inline] fn mul_assign(&mut self, o: F) { self.0 *= o } }
        impl<'a, F: TF> MulAssign<&'a F> for $G<F> { #[inline] fn mul_assign(&mut self, o: &'a F) { self.0 *= *o } }
        impl<F: TF> Sum for $G<F> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold($G(F::ZERO), |a, b| a + b) } }
        impl<'a, F: TF> Sum<&'a $G<F>> for $G<F> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold($G(F::ZERO), |a, b| a + b) } }
        impl<F: TF> Group for $G<F> {
            type Scalar = F;
            fn random(mut rng: impl RngCore) -> Self {
                loop {
                    let v = F::random(&mut rng);
                    if !v.is_zero_vartime() { return $G(v); }
                }
            }
            fn identity() -> Self { $G(F::ZERO) }
            fn generator() -> Self { $G(F::ONE) }
            fn is_identity(&self) -> Choice { self.0.is_zero() }
            fn double(&self) -> Self { $G(self.0.double()) }
        }
        impl<F: TF> GroupEncoding for $G<F> {
            type Repr = Enc<{ $comp }>;
            fn from_bytes(b: &Self::Repr) -> CtOption<Self> { Self::dec(&b.0, $tc, false) }
            fn from_bytes_unchecked(b: &Self::Repr) -> CtOption<Self> { Self::dec(&b.0, $tc, true) }
            fn to_bytes(&self) -> Self::Repr { let mut e = Enc([0; $comp]); self.enc(&mut e.0, $tc); e }
        }
        impl<F: TF> UncompressedEncoding for $G<F> {
            type Uncompressed = Enc<{ $uncomp }>;
            fn from_uncompressed(b: &Self::Uncompressed) -> CtOption<Self> { Self::dec(&b.0, $tu, false) }
            fn from_uncompressed_unchecked(b: &Self::Uncompressed) -> CtOption<Self> { Self::dec(&b.0, $tu, true) }
            fn to_uncompressed(&self) -> Self::Uncompressed { let mut e = Enc([0; $uncomp]); self.enc(&mut e.0, $tu); e }
        }
        impl<F: TF> PrimeGroup for $G<F> {}
        impl<F: TF> Curve for $G<F> {
            type AffineRepr = Self;
            fn to_affine(&self) -> Self { *self }
        }
        impl<F: TF> PrimeCurve for $G<F> { type Affine = Self; }
        impl<F: TF> PrimeCurveAffine for $G<F> {
            type Curve = Self;
            type Scalar = F;
            fn identity() -> Self { $G(F::ZERO) }
            fn generator() -> Self { $G(F::ONE) }
            fn is_identity(&self) -> Choice { self.0.is_zero() }
            fn to_curve(&self) -> Self { *self }
        }
        impl<F: TF> CofactorGroup for $G<F> {
            type Subgroup = Self;
            fn clear_cofactor(&self) -> Self { *self }
            fn into_subgroup(self) -> CtOption<Self> { CtOption::new(self, Choice::from(1)) }
            fn is_torsion_free(&self) -> Choice { Choice::from(1) }
        }
        impl<F: TF> CofactorCurve for $G<F> { type Affine = Self; }
        impl<F: TF> CofactorCurveAffine for $G<F> {
            type Curve = Self;
            type Scalar = F;
            fn identity() -> Self { $G(F::ZERO) }
            fn generator() -> Self { $G(F::ONE) }
            fn is_identity(&self) -> Choice { self.0.is_zero() }
            fn to_curve(&self) -> Self { *self }
        }
        impl<F: TF> WnafGroup for $G<F> {
            fn recommended_wnaf_for_num_scalars(n: usize) -> usize { if n < 20 { 2 } else if n < 200 { 3 } else { 4 } }
        }
        impl<F: TF> PairingCurveAffine for $G<F> {
            type Pair = $pair<F>;
            type PairingResult = Pt<F>;
            fn pairing_with(&self, o: &$pair<F>) -> Pt<F> { Pt(self.0 * o.0) }
        }
    };
}
group_type!(P1, P2, 33, 35, 0x11, 0x12);
group_type!(P2, P1, 37, 39, 0x21, 0x22);
group_type!(Pt, Pt, 33, 35, 0x31, 0x32);

/// Prepared G2 elements.
#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Prep<F: TF>(pub F);
impl<F: TF> From<P2<F>> for Prep<F> {
    fn from(p: P2<F>) -> Self {
        Prep(p.0)
    }
}
/// Miller loop output, not yet exponentiated.
#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Ml<F: TF>(pub F);
impl<F: TF> Default for Ml<F> {
    fn default() -> Self {
        Ml(F::ZERO)
    }
}
impl<F: TF> Add for Ml<F> { type Output = Self; fn add(self, o: Self) -> Self { Ml(self.0 + o.0) } }
impl<'a, F: TF> Add<&'a Ml<F>> for Ml<F> { type Output = Self; fn add(self, o: &'a Self) -> Self { Ml(self.0 + o.0) } }
impl<F: TF> AddAssign for Ml<F> { fn add_assign(&mut self, o: Self) { self.0 += o.0 } }
impl<'a, F: TF> AddAssign<&'a Ml<F>> for Ml<F> { fn add_assign(&mut self, o: &'a Self) { self.0 += o.0 } }
impl<F: TF> MillerLoopResult for Ml<F> {
    type Gt = Pt<F>;
    fn final_exponentiation(&self) -> Pt<F> {
        Pt(self.0)
    }
}
/// The toy pairing engine: e(a, b) = a*b on discrete logarithms.
#[derive(Clone, Debug)]
pub struct Toy<F>(PhantomData<F>);
impl<F: TF> Engine for Toy<F> {
    type Fr = F;
    type G1 = P1<F>;
    type G1Affine = P1<F>;
    type G2 = P2<F>;
    type G2Affine = P2<F>;
    type Gt = Pt<F>;
    fn pairing(p: &P1<F>, q: &P2<F>) -> Pt<F> {
        Pt(p.0 * q.0)
    }
}
impl<F: TF> MultiMillerLoop for Toy<F> {
    type G2Prepared = Prep<F>;
    type Result = Ml<F>;
    fn multi_miller_loop(terms: &[(&P1<F>, &Prep<F>)]) -> Ml<F> {
        Ml(terms.iter().map(|(a, b)| a.0 * b.0).sum())
    }
}
/// An RNG that replays a script of u64 draws (panics past its end) and counts them.
pub struct ScriptRng {
    pub script: Vec<u64>,
    pub pos: usize,
}
impl ScriptRng {
    pub fn new(script: Vec<u64>) -> Self {
        ScriptRng { script, pos: 0 }
    }
}
impl RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let v = *self.script.get(self.pos).expect("RNG script exhausted");
        self.pos += 1;
        v
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for ScriptRng {}

/// A small deterministic generator for choosing constants of structured cases.
#[derive(Clone)]
pub struct SplitMix(pub u64);
impl SplitMix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn f<F: Field + From<u64>>(&mut self) -> F {
        F::from(self.next())
    }
}
impl RngCore for SplitMix {
    fn next_u32(&mut self) -> u32 {
        self.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.next()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for SplitMix {}

pub type F2 = Fp<3>;
pub type F5 = Fp<5>;
pub type F7 = Fp<7>;
pub type F11 = Fp<11>;
pub type F13 = Fp<13>;
pub type F17 = Fp<17>;
pub type F97 = Fp<97>;
pub type F193 = Fp<193>;
pub type F257 = Fp<257>;
pub type F12289 = Fp<12289>;
pub type F64513 = Fp<64513>;
pub type F65537 = Fp<65537>;
pub type M61 = Fp<0x1FFF_FFFF_FFFF_FFFF>;
pub type Gold = Fp<0xFFFF_FFFF_0000_0001>;
pub type Bls = bls12_381::Scalar;

/// Replaces the draws of `Fp::random` (for code that takes its randomness from the OS).
/// Each thread replays the given list from the start for every draw sequence that ends in a
/// non-zero value.
pub mod oracle {
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Mutex;
    static ON: AtomicBool = AtomicBool::new(false);
    static LIST: Mutex<Vec<u64>> = Mutex::new(Vec::new());
    thread_local! { static POS: std::cell::Cell<usize> = std::cell::Cell::new(0); }
    pub fn constant(l: Vec<u64>) {
        *LIST.lock().unwrap() = l;
        ON.store(true, Ordering::SeqCst);
    }
    pub fn off() {
        ON.store(false, Ordering::SeqCst);
    }
    #[inline]
    pub fn next() -> Option<u64> {
        if !ON.load(Ordering::Relaxed) {
            return None;
        }
        let l = LIST.lock().unwrap();
        let p = POS.with(|p| p.get()) % l.len();
        POS.with(|c| c.set(if p + 1 == l.len() { 0 } else { p + 1 }));
        Some(l[p])
    }
}
