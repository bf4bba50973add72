//! C22: ring key switching
use crate::sym::*;
use crate::symf::*;
use algebra::*;
use fhe_core::*;
use lattice::{LWE, RLWE};
type Fp = SymF<257>;
fn params(n: usize, big: usize, bits: u32, ternary: bool) -> Parameters<u16, Fp> {
  Parameters::new(ConstParameters { lwe_dimension: n, lwe_plain_modulus: 4u16, lwe_cipher_modulus: 16, lwe_noise_standard_deviation: 3.2,
    lwe_secret_key_type: if ternary { LWESecretKeyType::Ternary } else { LWESecretKeyType::Binary }, ring_dimension: big, ring_modulus: 257, ring_noise_standard_deviation: 3.2,
    ring_secret_key_type: RingSecretKeyType::Ternary, blind_rotation_basis_bits: 4, steps: Steps::BrKsMs, key_switching_basis_bits: bits, key_switching_standard_deviation: 3.2 }).unwrap()
}
//@ c22_* nomerge=1; every ciphertext, mask and ring secret key (symbolic elements of a 257-element prime field, polynomial identities); every LWE secret explored path by path; dimensions and digit width per harness; keys generated by the real generator, noise-free
fn switch(n: usize, big: usize, bits: u32, ternary: bool) {
  let par = params(n, big, bits, ternary);
  let w = if ternary { ternary_word(n) } else { binary_word(n) };
  let mut rng = SymRng::new(true, true, false).seeded(&[w]);
  let pack = SecretKeyPack::<u16, Fp>::new(par, &mut rng);
  let key = KeySwitchingRLWEKey::<Fp>::generate(&pack, &mut rng);
  let s: Vec<Fp> = pack.lwe_secret_key().iter().map(|&v| match v { 0 => SymF(0), 1 => SymF(1), _ => { check!(v == 15, 5); SymF(256) } }).collect();
  let z = pack.ring_secret_key().as_slice().to_vec();
  let (a, b): (Vec<Fp>, Vec<Fp>) = (elems(big), elems(big));
  let phase = |c: &LWE<Fp>| { check!(c.a().len() == n, 6); let mut r = c.b(); for i in 0..n { r -= c.a()[i] * s[i]; } r };
  let cmp = |x: Fp, y: Fp, id: u32| { let d = x - y; check!(d == SymF(0), id); };
  // ring form: the constant coefficient of b - a z
  let want = b[0] - negacyclic(&a, &z)[0];
  cmp(phase(&key.key_switch_for_rlwe(RLWE::new(Polynomial::new(a.clone()), Polynomial::new(b.clone())))), want, 10);
  // LWE form: b - <a, z>
  let mut w = b[0]; for i in 0..big { w -= a[i] * z[i]; }
  cmp(phase(&key.key_switch_for_lwe(LWE::new(a.clone(), b[0]))), w, 11);
  out(want.0); out(w.0);
}
#[no_mangle] pub extern "C" fn c22_n1_1() { switch(1, 1, 4, false) }
#[no_mangle] pub extern "C" fn c22_n1_4() { switch(1, 4, 3, true) }
#[no_mangle] pub extern "C" fn c22_n2_2() { switch(2, 2, 4, true) }
#[no_mangle] pub extern "C" fn c22_n2_8() { switch(2, 8, 5, true) }
#[no_mangle] pub extern "C" fn c22_n3_4() { switch(3, 4, 3, true) }
#[no_mangle] pub extern "C" fn c22_n3_8() { switch(3, 8, 8, false) }
#[no_mangle] pub extern "C" fn c22_n4_4() { switch(4, 4, 1, false) }
#[no_mangle] pub extern "C" fn c22_n4_8() { switch(4, 8, 4, false) }
#[no_mangle] pub extern "C" fn c22_n5_16() { switch(5, 16, 4, false) }
//@ c22_*_all tier=thorough nomerge=1; as c22_*
#[no_mangle] pub extern "C" fn c22_n3_16_all() { switch(3, 16, 4, true) }
#[no_mangle] pub extern "C" fn c22_n4_8_all() { switch(4, 8, 2, true) }
#[no_mangle] pub extern "C" fn c22_n6_8_all() { switch(6, 8, 3, false) }
