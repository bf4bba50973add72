//! A prime field whose operations the executor performs on polynomials over Z_p in symbolic atoms
//! (engine/ff.py; natively engine/replay_ff.h).  The generic code of the repository is instantiated
//! with it.  It stands for any field type of the repository, whose operations are decided one by
//! one elsewhere: canonical results (C01, C02), lazily reduced results of the *_fast forms (C03), digits
//! (C11), transforms (C12, C13).  The *_fast forms return value + P here, so that a caller that may not
//! see lazily reduced values is caught.
use crate::sym::*;
use algebra::{transformation::*, *};
use num_traits::{ConstOne, ConstZero, Inv, One, Pow, Zero};
use std::fmt;
use std::ops::*;
use std::sync::Arc;
pub mod ext {
    extern "C" {
        pub fn ff_add(a: u64, b: u64, p: u64) -> u64;
        pub fn ff_sub(a: u64, b: u64, p: u64) -> u64;
        pub fn ff_mul(a: u64, b: u64, p: u64) -> u64;
        pub fn ff_fold(a: u64, p: u64) -> u64;
        pub fn ff_inv(a: u64, p: u64) -> u64;
        pub fn ff_eq(a: u64, b: u64, p: u64) -> bool;
        pub fn ff_shr(a: u64, k: u32) -> u64;
        pub fn ff_lsb(a: u64, mask: u64, bits: u32, p: u64) -> u64;
    }
}
#[derive(Clone, Copy, Default, Debug)]
pub struct SymF<const P: u64>(pub u64);
/// any field element
pub fn elem<const P: u64>() -> SymF<P> { SymF(below(P)) }
pub fn elems<const P: u64>(n: usize) -> Vec<SymF<P>> { (0..n).map(|_| elem()).collect() }
impl<const P: u64> PartialEq for SymF<P> { #[inline(always)] fn eq(&self, o: &Self) -> bool { unsafe { ext::ff_eq(self.0, o.0, P) } } }
impl<const P: u64> Eq for SymF<P> {}
impl<const P: u64> PartialOrd for SymF<P> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
impl<const P: u64> Ord for SymF<P> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
impl<const P: u64> std::hash::Hash for SymF<P> { fn hash<H: std::hash::Hasher>(&self, s: &mut H) { self.0.hash(s) } }
impl<const P: u64> fmt::Display for SymF<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
macro_rules! bin { ($($tr:ident, $f:ident, $tra:ident, $fa:ident, $a:ident, $b:ident => $e:expr);*) => { $(
    impl<const P: u64> $tr for SymF<P> { type Output = Self; #[inline(always)] fn $f(self, o: Self) -> Self { let ($a, $b) = (self.0, o.0); SymF(unsafe { $e }) } }
    impl<'a, const P: u64> $tr<&'a SymF<P>> for SymF<P> { type Output = Self; #[inline(always)] fn $f(self, o: &Self) -> Self { let ($a, $b) = (self.0, o.0); SymF(unsafe { $e }) } }
    impl<const P: u64> $tra for SymF<P> { #[inline(always)] fn $fa(&mut self, o: Self) { let ($a, $b) = (self.0, o.0); self.0 = unsafe { $e } } }
    impl<'a, const P: u64> $tra<&'a SymF<P>> for SymF<P> { #[inline(always)] fn $fa(&mut self, o: &Self) { let ($a, $b) = (self.0, o.0); self.0 = unsafe { $e } } }
)* } }
bin! { Add, add, AddAssign, add_assign, a, b => ext::ff_add(a, b, P); Sub, sub, SubAssign, sub_assign, a, b => ext::ff_sub(a, b, P);
       Mul, mul, MulAssign, mul_assign, a, b => ext::ff_mul(a, b, P); Div, div, DivAssign, div_assign, a, b => ext::ff_mul(a, ext::ff_inv(b, P), P) }
impl<const P: u64> Neg for SymF<P> { type Output = Self; #[inline(always)] fn neg(self) -> Self { SymF(unsafe { ext::ff_sub(0, self.0, P) }) } }
impl<const P: u64> Inv for SymF<P> { type Output = Self; fn inv(self) -> Self { SymF(unsafe { ext::ff_inv(self.0, P) }) } }
impl<const P: u64> Pow<u64> for SymF<P> { type Output = Self; fn pow(self, mut e: u64) -> Self { let (mut r, mut b) = (SymF(1), self); while e > 0 { if e & 1 == 1 { r = r * b; } b = b * b; e >>= 1; } r } }
impl<const P: u64> Zero for SymF<P> { #[inline(always)] fn zero() -> Self { SymF(0) } #[inline(always)] fn is_zero(&self) -> bool { *self == SymF(0) } }
impl<const P: u64> One for SymF<P> { #[inline(always)] fn one() -> Self { SymF(1) } #[inline(always)] fn is_one(&self) -> bool { *self == SymF(1) } }
impl<const P: u64> ConstZero for SymF<P> { const ZERO: Self = SymF(0); }
impl<const P: u64> ConstOne for SymF<P> { const ONE: Self = SymF(1); }
impl<const P: u64> NegOne for SymF<P> { #[inline(always)] fn neg_one() -> Self { SymF(P - 1) } #[inline(always)] fn is_neg_one(&self) -> bool { *self == SymF(P - 1) } }
impl<const P: u64> ConstNegOne for SymF<P> { const NEG_ONE: Self = SymF(P - 1); }
impl<const P: u64> From<usize> for SymF<P> { fn from(v: usize) -> Self { SymF(unsafe { ext::ff_fold(v as u64, P) }) } }
impl<const P: u64> Field for SymF<P> {
    type Value = u64; type Order = u64;
    const MODULUS_VALUE: u64 = P;
    #[inline(always)] fn new(v: u64) -> Self { SymF(unsafe { ext::ff_fold(v, P) }) }
    #[inline(always)] fn value(self) -> u64 { self.0 }
}
impl<const P: u64> PrimeField for SymF<P> { fn is_prime_field() -> bool { true } }
impl<const P: u64> DecomposableField for SymF<P> {
    fn decompose(self, basis: Basis<Self>) -> Vec<Self> { let mut v = vec![SymF(0); basis.decompose_len()]; self.decompose_at(basis, &mut v); v }
    fn decompose_at(self, basis: Basis<Self>, d: &mut [Self]) { let mut t = self; for x in d.iter_mut() { *x = t.decompose_lsb_bits(basis.mask(), basis.bits()); } }
    fn decompose_lsb_bits(&mut self, mask: u64, bits: u32) -> Self { let d = SymF(unsafe { ext::ff_lsb(self.0, mask, bits, P) }); self.0 = unsafe { ext::ff_shr(self.0, bits) }; d }
    fn decompose_lsb_bits_at(&mut self, d: &mut Self, mask: u64, bits: u32) { *d = self.decompose_lsb_bits(mask, bits); }
}
/// lazily reduced results: the canonical value plus P; the accumulator may itself be lazily reduced
impl<const P: u64> FheField for SymF<P> {
    #[inline(always)] fn lazy_new(v: u64) -> Self { SymF(v) }
    fn add_mul(self, a: Self, b: Self) -> Self { SymF(unsafe { ext::ff_add(ext::ff_fold(self.0, P), ext::ff_mul(ext::ff_fold(a.0, P), ext::ff_fold(b.0, P), P), P) }) }
    fn add_mul_assign(&mut self, a: Self, b: Self) { *self = self.add_mul(a, b) }
    fn mul_fast(self, r: Self) -> Self { SymF(unsafe { ext::ff_mul(ext::ff_fold(self.0, P), ext::ff_fold(r.0, P), P) } + P) }
    fn mul_assign_fast(&mut self, r: Self) { *self = self.mul_fast(r) }
    fn add_mul_fast(self, a: Self, b: Self) -> Self { assert!(self.0 < 2 * P); SymF(unsafe { ext::ff_add(ext::ff_fold(self.0, P), ext::ff_mul(ext::ff_fold(a.0, P), ext::ff_fold(b.0, P), P), P) } + P) }
    fn add_mul_assign_fast(&mut self, a: Self, b: Self) { *self = self.add_mul_fast(a, b) }
}
pub fn pw(g: u64, mut e: u64, p: u64) -> u64 { let (mut r, mut b) = (1u64, g % p); while e > 0 { if e & 1 == 1 { r = r * b % p; } b = b * b % p; e >>= 1; } r }
pub struct SymTab<const P: u64> { pub l: u32, pub g: u64 }
impl<const P: u64> SymTab<P> {
    pub fn new(l: u32) -> Self {
        let m = 2u64 << l; assert!((P - 1) % m == 0);
        let mut x = 2; let g = loop { let g = pw(x, (P - 1) / m, P); if pw(g, m / 2, P) == P - 1 { break g; } x += 1; };
        SymTab { l, g }
    }
    /// documented evaluation point of position k
    pub fn node(&self, k: usize) -> u64 { let r = if self.l == 0 { 0 } else { (k as u64).reverse_bits() >> (64 - self.l) }; pw(self.g, 2 * r + 1, P) }
}
impl<const P: u64> AbstractNTT<SymF<P>> for SymTab<P> {
    fn root(&self) -> SymF<P> { SymF(self.g) }
    fn transform_slice(&self, s: &mut [SymF<P>]) {
        let n = 1usize << self.l; assert!(s.len() == n);
        let c: Vec<u64> = s.iter().map(|x| { assert!(x.0 < 4 * P); unsafe { ext::ff_fold(x.0, P) } }).collect();
        for k in 0..n { let z = self.node(k); let (mut w, mut r) = (1u64, 0u64);
            for j in 0..n { r = unsafe { ext::ff_add(r, ext::ff_mul(c[j], w, P), P) }; w = w * z % P; } s[k] = SymF(r); }
    }
    fn inverse_transform_slice(&self, s: &mut [SymF<P>]) {
        let n = 1usize << self.l; assert!(s.len() == n);
        let c: Vec<u64> = s.iter().map(|x| { assert!(x.0 < 2 * P); unsafe { ext::ff_fold(x.0, P) } }).collect();
        let ni = pw(n as u64, P - 2, P);
        for j in 0..n { let mut r = 0u64;
            for k in 0..n { let w = pw(pw(self.node(k), P - 2, P), j as u64, P) * ni % P; r = unsafe { ext::ff_add(r, ext::ff_mul(c[k], w, P), P) }; } s[j] = SymF(r); }
    }
}
impl<const P: u64> MonomialNTT<SymF<P>> for SymTab<P> {
    fn transform_monomial(&self, coeff: SymF<P>, degree: usize, v: &mut [SymF<P>]) { let degree = fork(degree); assert!(v.len() == 1 << self.l); for k in 0..v.len() { v[k] = coeff * SymF(pw(self.node(k), degree as u64, P)); } }
}
impl<const P: u64> NTTField for SymF<P> {
    type Table = SymTab<P>; type Root = u64; type Degree = u64;
    fn from_root(r: u64) -> Self { SymF(r) }
    fn to_root(self) -> u64 { self.0 }
    fn mul_root(self, r: u64) -> Self { self * SymF(r) }
    fn mul_root_assign(&mut self, r: u64) { *self *= SymF(r) }
    fn is_primitive_root(root: Self, degree: u64) -> bool { pw(root.0, degree / 2, P) == P - 1 }
    fn try_primitive_root(degree: u64) -> Result<Self, AlgebraError> { Ok(SymF(SymTab::<P>::new(degree.trailing_zeros() - 1).g)) }
    fn try_minimal_primitive_root(degree: u64) -> Result<Self, AlgebraError> { Self::try_primitive_root(degree) }
    fn generate_ntt_table(l: u32) -> Result<SymTab<P>, AlgebraError> { Ok(SymTab::new(l)) }
    fn get_ntt_table(l: u32) -> Result<Arc<SymTab<P>>, AlgebraError> { Ok(Arc::new(SymTab::new(l))) }
    fn init_ntt_table(_: &[u32]) -> Result<(), AlgebraError> { Ok(()) }
}
/// product modulo X^n + 1 by definition
pub fn negacyclic<const P: u64>(a: &[SymF<P>], b: &[SymF<P>]) -> Vec<SymF<P>> {
    let n = a.len(); let mut r = vec![SymF(0); n];
    for i in 0..n { for j in 0..n { let t = a[i] * b[j]; if i + j < n { r[i + j] += t } else { r[i + j - n] -= t } } } r
}
/// a * X^d modulo X^n + 1, any d
pub fn shift<const P: u64>(a: &[SymF<P>], d: usize) -> Vec<SymF<P>> {
    let n = a.len(); let mut r = vec![SymF(0); n];
    for i in 0..n { let k = (i + d) % (2 * n); if k < n { r[k] = a[i] } else { r[k - n] = -a[i] } } r
}
/// random stream of a harness: 64-bit words (uniform field elements) and bytes (binomial noise) are symbolic or fixed
pub struct SymRng { pub words: bool, pub u32s: bool, pub noise: bool, pub c: u64, pub first: Vec<u32> }
impl SymRng { pub fn new(words: bool, u32s: bool, noise: bool) -> Self { SymRng { words, u32s, noise, c: 1, first: vec![] } }
  /// the first 32-bit words (secrets) are the given ones
  pub fn seeded(mut self, first: &[u32]) -> Self { self.first = first.iter().rev().copied().collect(); self }
  fn step(&mut self) -> u64 { self.c = self.c.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (self.c >> 8) ^ (self.c << 40) } }
impl rand::RngCore for SymRng {
    fn next_u32(&mut self) -> u32 { if let Some(x) = self.first.pop() { x } else if self.u32s { any() } else { self.step() as u32 } }
    fn next_u64(&mut self) -> u64 { if self.words { let x: u64 = any(); assume(x > 0); x } else { self.step() } }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d.iter_mut() { *x = if self.noise { self.step() as u8 } else { 0 }; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
/// word from which n binary (ternary) secrets are drawn, every secret explored
pub fn binary_word(n: usize) -> u32 { let mut w = 0; for i in 0..n { w |= (pick(2) as u32) << i; } w }
pub fn ternary_word(n: usize) -> u32 { let mut w = 0; for i in 0..n { w |= (1 + pick(3) as u32) << (2 * i); } w }
impl rand::CryptoRng for SymRng {}
