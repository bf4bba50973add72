//! C26: parameter validation
use crate::sym::*;
use algebra::{derive::*, *};
use fhe_core::*;

macro_rules! par { ($($c:ty, $f:ident, $v:ty, $bits:literal, $h:ident, $a:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let ns = [0usize, 1, 10, 11, 31, 61]; let n: usize = 1 << ns[pick(ns.len())]; let p: $v = any();
    let (t, q): ($c, $c) = (any(), any());
    let dim: usize = any();
    // 2N must be representable and the modulus positive
    assume(p != 0);
    let k: [bool; 2] = [any::<u8>() & 1 == 1, any::<u8>() & 1 == 1];
    let j = pick(3);
    let st = [Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs][j];
    let (bb, kb) = ([1, 7, $bits][j], any::<u32>());
    let lk = if k[0] { LWESecretKeyType::Binary } else { LWESecretKeyType::Ternary };
    let rk = if k[1] { RingSecretKeyType::Binary } else { RingSecretKeyType::Ternary };
    let good = ((p as u64 - 1) % (2 * n as u64) == 0) & (t.count_ones() == 1) & (q.count_ones() == 1) & (t <= q);
    panic_ok(!good);
    let r = Parameters::<$c, $f>::new(ConstParameters {
      lwe_dimension: dim, lwe_plain_modulus: t, lwe_cipher_modulus: q, lwe_noise_standard_deviation: 3.5, lwe_secret_key_type: lk,
      ring_dimension: n, ring_modulus: p, ring_noise_standard_deviation: 4.25, ring_secret_key_type: rk, blind_rotation_basis_bits: bb,
      steps: st, key_switching_basis_bits: kb, key_switching_standard_deviation: 5.125 });
    match r {
      Err(_) => { check!(!good); out(1); }
      Ok(x) => {
        check!(good);
        check!(x.lwe_dimension() == dim); check!(x.lwe_plain_modulus() == t as u64); check!(x.lwe_cipher_modulus_value() == q);
        check!(x.ring_dimension() == n); check!(x.ring_modulus() == p); check!(x.key_switching_basis_bits() == kb);
        check!(x.blind_rotation_basis().bits() == bb);
        check!(x.lwe_secret_key_type() == lk); check!(x.ring_secret_key_type() == rk);
        check!(core::mem::discriminant(&x.steps()) == core::mem::discriminant(&st));
        check!(x.lwe_noise_standard_deviation() == 3.5); check!(x.ring_noise_standard_deviation() == 4.25); check!(x.key_switching_noise_standard_deviation() == 5.125);
        let l = x.lwe_params();
        check!(l.dimension == dim); check!(l.plain_modulus == t as u64); check!(l.cipher_modulus == q); check!(l.secret_key_type == lk); check!(l.noise_standard_deviation == 3.5);
        let d = x.lwe_noise_distribution(); check!(d.mean() == 0.0 && d.std_dev() == 3.5 && d.max_std_dev() == 21.0);
        let d = x.key_switching_noise_distribution_for_lwe(); check!(d.mean() == 0.0 && d.std_dev() == 5.125 && d.max_std_dev() == 30.75);
        let d = x.ring_noise_distribution(); check!(d.mean() == 0.0 && d.std_dev() == 4.25 && d.max_std_dev() == 25.5);
        let d = x.key_switching_noise_distribution_for_ring(); check!(d.mean() == 0.0 && d.std_dev() == 5.125 && d.max_std_dev() == 30.75);
        if q > 1 { let m = x.lwe_cipher_modulus(); check!(m.value() == q); check!(m.mask() == q - 1); }
        out(x.lwe_plain_modulus());
      }
    }
  }
  // a ring dimension that is not a power of two is refused
  #[no_mangle] pub extern "C" fn $a() {
    let n: usize = any(); let p: $v = any();
    assume(n < 1 << 62 && n.count_ones() != 1 && p != 0);
    panic_ok(true);
    let r = Parameters::<$c, $f>::new(ConstParameters {
      lwe_dimension: any(), lwe_plain_modulus: 4, lwe_cipher_modulus: 64, lwe_noise_standard_deviation: 3.5, lwe_secret_key_type: LWESecretKeyType::Binary,
      ring_dimension: n, ring_modulus: p, ring_noise_standard_deviation: 4.25, ring_secret_key_type: RingSecretKeyType::Binary, blind_rotation_basis_bits: 1,
      steps: Steps::BrKsMs, key_switching_basis_bits: 1, key_switching_standard_deviation: 5.125 });
    check!(r.is_err()); out(0);
  }
)* } }
macro_rules! fields { ($($n:ident $t:ident, $m:tt);* $(;)?) => { $(
    #[derive(Field, Prime, DecomposableField, FheField, NTT)]
    #[modulus = $m]
    pub struct $n($t);
)* } }
fields! { U64a u64, 1125899906826241; U16a u16, 12289; }
//@ c26_* ; ring dimensions 2^0 2^1 2^10 2^11 2^31 2^61, every positive ring modulus, every plaintext and ciphertext modulus of the word type, every LWE dimension, every key switching base, all key types and step orders, three blind rotation bases
par! { u16, DefaultFieldU32, u32, 27, c26_u16, c26_dim_u16; u32, U64a, u64, 50, c26_u32, c26_dim_u32; u64, U16a, u16, 14, c26_u64, c26_dim_u64; u8, DefaultQks, u32, 14, c26_u8, c26_dim_u8 }
//@ c26_dim_* ; every ring dimension below 2^62 that is not a power of two, every positive ring modulus
// a blind rotation base wider than the modulus is refused
#[no_mangle] pub extern "C" fn c26_wide() {
    let bb = 28 + pick(4) as u32;
    panic_ok(true);
    let r = Parameters::<u16, DefaultFieldU32>::new(ConstParameters {
      lwe_dimension: any(), lwe_plain_modulus: 4, lwe_cipher_modulus: 1024, lwe_noise_standard_deviation: 3.5, lwe_secret_key_type: LWESecretKeyType::Binary,
      ring_dimension: 1024, ring_modulus: 132120577, ring_noise_standard_deviation: 4.25, ring_secret_key_type: RingSecretKeyType::Binary, blind_rotation_basis_bits: bb,
      steps: Steps::BrKsMs, key_switching_basis_bits: 1, key_switching_standard_deviation: 5.125 });
    check!(r.is_err());
    out(0);
}
//@ c26_wide nocheck=1 ; four base widths above the bit length of the modulus
