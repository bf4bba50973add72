//! C18: LWE encryption and homomorphic operations
use crate::sym::*;
use crate::symf::*;
use algebra::{modulus::{BarrettModulus, PowOf2Modulus}, reduce::*, *};
use fhe_core::*;
use lattice::LWE;
use zkfhe::{Decryptor, Encryptor, KeyGen};
type Fp = SymF<257>;
/// first words (secrets) given, then `free` symbolic 64-bit and all 32-bit words (masks), the rest (Gaussian draws) from a fixed stream
struct R18 { first: Vec<u32>, free: usize, c: u64 }
impl R18 { fn step(&mut self) -> u64 { self.c = self.c.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (self.c >> 8) ^ (self.c << 40) } }
impl rand::RngCore for R18 {
  fn next_u32(&mut self) -> u32 { if let Some(x) = self.first.pop() { x } else { any() } }
  fn next_u64(&mut self) -> u64 { if self.free > 0 { self.free -= 1; any() } else { self.step() } }
  fn fill_bytes(&mut self, d: &mut [u8]) { for x in d.iter_mut() { *x = 0; } }
  fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand::CryptoRng for R18 {}
fn params<C: LWEModulusType>(n: usize, q: C, t: C, ternary: bool, steps: Steps, sd: f64) -> Parameters<C, Fp> {
  Parameters::new(ConstParameters { lwe_dimension: n, lwe_plain_modulus: t, lwe_cipher_modulus: q, lwe_noise_standard_deviation: sd,
    lwe_secret_key_type: if ternary { LWESecretKeyType::Ternary } else { LWESecretKeyType::Binary }, ring_dimension: 2, ring_modulus: 257, ring_noise_standard_deviation: 3.2,
    ring_secret_key_type: RingSecretKeyType::Ternary, blind_rotation_basis_bits: 4, steps, key_switching_basis_bits: 2, key_switching_standard_deviation: 3.2 }).unwrap()
}
trait Msg: LWEMsgType { fn of(v: u64) -> Self; fn to(self) -> u64; }
impl Msg for bool { fn of(v: u64) -> bool { v == 1 } fn to(self) -> u64 { self as u64 } }
macro_rules! msg { ($($t:ty)*) => { $(impl Msg for $t { fn of(v: u64) -> $t { v as $t } fn to(self) -> u64 { self as u64 } })* } }
msg! { u8 u16 u32 u64 }
//@ c18_enc_* nomerge=1; every message, every mask, every secret (path by path), every added noise of less than half a message step; dimension, moduli and types per harness; the Gaussian draw itself rounds to zero (standard deviation 0.01)
macro_rules! enc { ($($h:ident, $c:ty, $m:ty, $n:expr, $q:expr, $t:expr, $tern:expr);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let (n, q, t): (usize, $c, $c) = ($n, $q, $t); let mask = q - 1; let step = q / t;
    let ws = if $tern { ternary_word(n) } else { binary_word(n) };
    let mut rng = R18 { first: vec![0x5555_5555, ws], free: 0, c: 7 };
    let pack = KeyGen::generate_secret_key(params::<$c>(n, q, t, $tern, Steps::BrKsMs, 0.01), &mut rng);
    let s: Vec<$c> = pack.lwe_secret_key().to_vec();
    check!(s.len() == n, 5);
    for i in 0..n { check!((s[i] <= 1) | ($tern && s[i] == q - 1), 6); }
    if <$c>::BITS == 64 { rng.free = n; }
    let (mv, mv2): (u64, u64) = (below(t as u64), below(t as u64));
    let c = Encryptor::new(pack.clone()).encrypt::<$m, _>(<$m as Msg>::of(mv), &mut rng);
    let phase = |c: &LWECiphertext<$c>| { check!(c.a().len() == n && c.b() < q, 7); let mut r = c.b(); for i in 0..n { check!(c.a()[i] < q, 8); r = r.wrapping_sub(c.a()[i].wrapping_mul(s[i])); } r & mask };
    check!(phase(&c) == (mv as $c).wrapping_mul(step), 10);
    let dec = Decryptor::new(pack.clone());
    check!(dec.decrypt::<$m>(&c).to() == mv, 11);
    // added noise
    let e: $c = below(step); assume(e < step - e);
    for neg in [false, true] {
      let mut d = c.clone(); *d.b_mut() = (if neg { d.b().wrapping_sub(e) } else { d.b().wrapping_add(e) }) & mask;
      check!(dec.decrypt::<$m>(&d).to() == mv, 12);
      let (m, noise) = dec.decrypt_with_noise::<$m>(&d);
      check!(m.to() == mv, 13); check!(noise == e, 14);
    }
    // addition and subtraction of two encryptions, negation
    if <$c>::BITS == 64 { rng.free = n; }
    let d = pack.encrypt::<$m, _>(<$m as Msg>::of(mv2), &mut rng); let md = pack.parameters().lwe_cipher_modulus();
    let tm = t as u64 - 1;
    check!(pack.decrypt::<$m>(&c.add_reduce_component_wise_ref(&d, md)).to() == (mv + mv2) & tm, 15);
    check!(pack.decrypt::<$m>(&c.sub_reduce_component_wise_ref(&d, md)).to() == mv.wrapping_sub(mv2) & tm, 16);
    check!(pack.decrypt::<$m>(&c.neg_reduce(md)).to() == 0u64.wrapping_sub(mv) & tm, 17);
    out(c.b() as u64);
  }
)* } }
enc! {
  c18_enc_u8_bool, u8, bool, 2, 64, 2, true; c18_enc_u8_u8, u8, u8, 1, 128, 16, false; c18_enc_u16_bool, u16, bool, 3, 1024, 2, false; c18_enc_u16_u8, u16, u8, 2, 1024, 4, true;
  c18_enc_u16_u16, u16, u16, 1, 32768, 1024, true; c18_enc_u32_u8, u32, u8, 3, 1 << 20, 4, true; c18_enc_u32_u32, u32, u32, 2, 1 << 31, 1 << 9, false; c18_enc_u64_u64, u64, u64, 2, 1 << 63, 1 << 40, true; c18_enc_u64_bool, u64, bool, 2, 1 << 32, 2, false; c18_enc_u16_same, u16, u16, 2, 256, 128, true;
}
//@ c18_dec_* nomerge=1; every ciphertext (mask and body), every secret path by path
macro_rules! dec { ($($h:ident, $c:ty, $n:expr, $q:expr, $t:expr, $tern:expr);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let (n, q, t): (usize, $c, $c) = ($n, $q, $t); let mask = q - 1; let step = q / t;
    let ws = if $tern { ternary_word(n) } else { binary_word(n) };
    let mut rng = R18 { first: vec![0x5555_5555, ws], free: 0, c: 7 };
    let pack = SecretKeyPack::<$c, Fp>::new(params::<$c>(n, q, t, $tern, Steps::BrMsKs, 0.01), &mut rng);
    let (a, b): (Vec<$c>, $c) = ((0..n).map(|_| below(q)).collect(), below(q));
    let mut p = b; for i in 0..n { p = p.wrapping_sub(a[i].wrapping_mul(pack.lwe_secret_key()[i])); } p &= mask;
    let c = LWE::new(a, b);
    let m: u64 = pack.decrypt(&c); let (m2, noise): (u64, $c) = pack.decrypt_with_noise(&c);
    // a nearest multiple of the step, and the distance to it
    let d = p.wrapping_sub((m as $c).wrapping_mul(step)) & mask; let d = if d > q - d { q - d } else { d };
    check!(m < t as u64, 20); check!(d <= step - d, 21); check!(m2 == m, 22); check!(noise == d, 23); out(m);
  }
)* } }
dec! { c18_dec_u8, u8, 2, 128, 4, true; c18_dec_u16, u16, 3, 1024, 4, true; c18_dec_u16_bin, u16, 4, 1024, 8, false; c18_dec_u32, u32, 2, 1 << 31, 16, true; c18_dec_u64, u64, 2, 1 << 40, 2, true }
//@ c18_long_* nomerge=1; every mask and body, pseudo-random secrets; dimensions around and beyond the sampling block of 16
macro_rules! long { ($($h:ident, $c:ty, $n:expr, $q:expr, $t:expr, $tern:expr);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let (n, q, t): (usize, $c, $c) = ($n, $q, $t); let step = q / t;
    let mut rng = R18 { first: vec![0x5555_5555, 0x9e37_79b9, 0x7f4a_7c15, 0xf39c_c060, 0x5ced_c834], free: 0, c: 7 };
    let pack = SecretKeyPack::<$c, Fp>::new(params::<$c>(n, q, t, $tern, Steps::BrKsMs, 0.01), &mut rng);
    rng.first.clear(); if <$c>::BITS == 64 { rng.free = n; }
    let m: u64 = below(t as u64);
    let c = pack.encrypt::<u8, _>(m as u8, &mut rng);
    let s = pack.lwe_secret_key(); check!(s.len() == n && c.a().len() == n, 30);
    let mut p = c.b(); for i in 0..n { p = p.wrapping_sub(c.a()[i].wrapping_mul(s[i])); }
    check!(p & (q - 1) == m as $c * step, 31);
    check!(pack.decrypt::<u8>(&c) as u64 == m, 32); out(c.b() as u64);
  }
)* } }
long! { c18_long_u16_16, u16, 16, 1024, 4, true; c18_long_u16_17, u16, 17, 1024, 4, false; c18_long_u32_33, u32, 33, 1 << 16, 4, true; c18_long_u64_35, u64, 35, 1 << 12, 8, false }
/// fixed Gaussian draws: the noise is the sampled one, bounded by six standard deviations
#[no_mangle] pub extern "C" fn c18_long_noise() {
  let (n, q) = (2usize, 1u32 << 16);
  let mut rng = R18 { first: vec![0x5555_5555, ternary_word(n)], free: 0, c: [3, 99, 12345, 0xabcdef][pick(4)] };
  let pack = SecretKeyPack::<u32, Fp>::new(params::<u32>(n, q, 4, true, Steps::BrKsMs, 3.2), &mut rng);
  let m: u64 = below(4);
  let c = pack.encrypt::<u8, _>(m as u8, &mut rng);
  let (r, e) = pack.decrypt_with_noise::<u8>(&c); check!(r as u64 == m, 35); check!(e <= 20, 36); out(e as u64);
}
/// a message outside the message space is refused; BrMs uses the same secret for both keys
#[no_mangle] pub extern "C" fn c18_enc_refuse() {
  let mut rng = R18 { first: vec![ternary_word(2)], free: 0, c: 7 };
  let pack = SecretKeyPack::<u16, Fp>::new(params::<u16>(2, 1024, 4, true, Steps::BrMs, 0.01), &mut rng);
  for i in 0..2 { let z = pack.ring_secret_key().as_slice()[i].0; check!(match pack.lwe_secret_key()[i] { 0 => z == 0, 1 => z == 1, s => s == 1023 && z == 256 }, 38); }
  let m: u8 = any(); assume(m >= 4);
  panic_ok(true);
  let c = pack.encrypt::<u8, _>(m, &mut rng); check!(false, 39); out(c.b() as u64);
}
//@ c18_ops_* ; every mask, body, scalar; dimension 3; power-of-two moduli 2, 16, half the type range and every bit below; results compared component by component, so the phase relation holds for every key
macro_rules! ops { ($($h:ident, $t:ty, $w:ty, $md:ty, [$($q:expr),*]);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let qs: &[$t] = &[$($q),*]; let q = qs[pick(qs.len())]; let md = <$md>::new(q); let qw = q as $w;
    let ct = || -> LWE<$t> { LWE::new((0..3).map(|_| below(q)).collect(), below(q)) };
    let (c, d) = (ct(), ct()); let k: $t = below(q);
    let cs = |l: &LWE<$t>| -> [$t; 4] { check!(l.a().len() == 3, 40); [l.a()[0], l.a()[1], l.a()[2], l.b()] };
    let (x, y) = (cs(&c), cs(&d));
    macro_rules! eq { ($r:expr, $f:expr, $id:expr) => { { let r = cs(&$r); for i in 0..4 { let w: $w = $f(x[i] as $w, y[i] as $w); check!(r[i] as $w == w % qw, $id); out(r[i] as u64); } } } }
    let add = |a: $w, b: $w| a + b; let sub = |a: $w, b: $w| a + qw - b; let neg = |a: $w, _: $w| qw - a;
    eq!(c.add_reduce_component_wise_ref(&d, md), add, 41); eq!(c.clone().add_reduce_component_wise(&d, md), add, 42);
    let mut e = c.clone(); e.add_reduce_inplace_component_wise(&d, md); eq!(e, add, 43);
    eq!(c.sub_reduce_component_wise_ref(&d, md), sub, 44); eq!(c.clone().sub_reduce_component_wise(&d, md), sub, 45);
    let mut e = c.clone(); e.sub_reduce_inplace_component_wise(&d, md); eq!(e, sub, 46);
    eq!(c.neg_reduce(md), neg, 47); let mut e = c.clone(); e.neg_reduce_assign(md); eq!(e, neg, 48);
    // constants
    let mut e = c.clone(); e.b_mut().add_reduce_assign(k, md); check!(e.b() as $w == (x[3] as $w + k as $w) % qw, 49);
    // the original is untouched
    check!(cs(&c) == x && cs(&d) == y, 50);
  }
)* } }
ops! { c18_ops_u8, u8, u16, PowOf2Modulus<u8>, [2, 4, 8, 16, 32, 64, 128]; c18_ops_u16, u16, u32, PowOf2Modulus<u16>, [2, 4, 16, 1024, 2048, 32768]; c18_ops_u32, u32, u64, PowOf2Modulus<u32>, [2, 1024, 1 << 20, 1 << 31]; c18_ops_u64, u64, u128, PowOf2Modulus<u64>, [2, 1024, 1 << 40, 1 << 63];
  c18_ops_b8, u8, u16, BarrettModulus<u8>, [3, 61, 37]; c18_ops_b32, u32, u64, BarrettModulus<u32>, [3, 12289, 132120577, 1073707009]; c18_ops_b64, u64, u128, BarrettModulus<u64>, [5, 1125899906826241] }
//@ c18_mul_* ; every mask, body and scalar; dimension 2; moduli per harness
macro_rules! muls { ($($h:ident, $t:ty, $w:ty, $md:ty, [$($q:expr),*]);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let qs: &[$t] = &[$($q),*]; let q = qs[pick(qs.len())]; let md = <$md>::new(q); let qw = q as $w;
    let ct = || -> LWE<$t> { LWE::new((0..2).map(|_| below(q)).collect(), below(q)) };
    let (c, d) = (ct(), ct()); let k: $t = below(q);
    let cs = |l: &LWE<$t>| -> [$t; 3] { check!(l.a().len() == 2, 40); [l.a()[0], l.a()[1], l.b()] };
    let (x, y) = (cs(&c), cs(&d));
    let mut e = c.clone(); e.scalar_mul_reduce_inplace(k, md); let r = cs(&e); for i in 0..3 { check!(r[i] as $w == x[i] as $w * k as $w % qw, 51); out(r[i] as u64); }
    let mut e = c.clone(); e.add_assign_rhs_mul_scalar_reduce(&d, k, md); let r = cs(&e); for i in 0..3 { check!(r[i] as $w == (x[i] as $w + y[i] as $w * k as $w % qw) % qw, 52); out(r[i] as u64); }
  }
)* } }
muls! { c18_mul_u8, u8, u16, PowOf2Modulus<u8>, [2, 4, 8, 16, 32, 64, 128]; c18_mul_u16, u16, u32, PowOf2Modulus<u16>, [2, 16, 1024, 32768]; c18_mul_u32, u32, u64, PowOf2Modulus<u32>, [1024, 1 << 31]; c18_mul_u64, u64, u128, PowOf2Modulus<u64>, [1024, 1 << 40]; c18_mul_b8, u8, u16, BarrettModulus<u8>, [3, 61, 37] }
//@ c18_field_* ; every mask and body, dimension 3, symbolic elements of a prime field
#[no_mangle] pub extern "C" fn c18_field_ops() {
  let (a, b, c, d): (Vec<Fp>, Fp, Vec<Fp>, Fp) = (elems(3), elem(), elems(3), elem());
  let (x, y) = (LWE::new(a.clone(), b), LWE::from_ref(&c, d));
  let eq = |l: LWE<Fp>, neg: bool, id: u32| { check!(l.a().len() == 3, 60); for i in 0..3 { check!(l.a()[i] == if neg { a[i] - c[i] } else { a[i] + c[i] }, id); } check!(l.b() == if neg { b - d } else { b + d }, id); };
  eq(x.add_component_wise_ref(&y), false, 61); eq(x.clone().add_component_wise(&y), false, 62); let mut z = x.clone(); z.add_inplace_component_wise(&y); eq(z, false, 63);
  eq(x.sub_component_wise_ref(&y), true, 64); eq(x.clone().sub_component_wise(&y), true, 65); let mut z = x.clone(); z.sub_inplace_component_wise(&y); eq(z, true, 66);
  out((b + d).0);
}
//@ c18_zero_* nomerge=1; every mask and every key (dimension 2), Gaussian draw rounding to zero
macro_rules! zeros { ($($h:ident, $t:ty, $w:ty, $md:ty, [$($q:expr),*]);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let qs: &[$t] = &[$($q),*]; let q = qs[pick(qs.len())]; let md = <$md>::new(q);
    let s: Vec<$t> = (0..2).map(|_| below(q)).collect();
    let mut rng = R18 { first: vec![], free: if <$t>::BITS == 64 { 2 } else { 0 }, c: 5 };
    let c = LWE::<$t>::generate_random_zero_sample(&s, q, md, lattice::DiscreteGaussian::new(q, 0.0, 0.01).unwrap(), &mut rng);
    check!(c.a().len() == 2, 70); let mut w: $w = 0; for i in 0..2 { check!(c.a()[i] < q, 71); w += c.a()[i] as $w * s[i] as $w; }
    check!(c.b() < q, 72); check!(c.b() as $w == w % q as $w, 73); out(c.b() as u64);
  }
)* } }
zeros! { c18_zero_u8, u8, u32, PowOf2Modulus<u8>, [4, 128]; c18_zero_u16, u16, u64, PowOf2Modulus<u16>, [1024, 32768]; c18_zero_u64, u64, u128, PowOf2Modulus<u64>, [1 << 20] }
