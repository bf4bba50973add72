//! C23: blind rotation
use crate::sym::*;
use crate::symf::*;
use algebra::*;
use fhe_core::*;
use lattice::LWE;
type Fp = SymF<257>;
fn params(n: usize, big: usize, bits: u32, ternary: bool) -> Parameters<u16, Fp> {
  Parameters::new(ConstParameters { lwe_dimension: n, lwe_plain_modulus: 4u16, lwe_cipher_modulus: 16, lwe_noise_standard_deviation: 3.2,
    lwe_secret_key_type: if ternary { LWESecretKeyType::Ternary } else { LWESecretKeyType::Binary }, ring_dimension: big, ring_modulus: 257, ring_noise_standard_deviation: 3.2,
    ring_secret_key_type: RingSecretKeyType::Ternary, blind_rotation_basis_bits: bits, steps: Steps::BrMsKs, key_switching_basis_bits: 2, key_switching_standard_deviation: 3.2 }).unwrap()
}
//@ c23_* nomerge=1; every test polynomial, every mask, every ring secret key (symbolic elements of a 257-element prime field); every LWE secret, mask and body modulo 2N explored path by path; dimensions and digit width per harness; noise-free keys generated by the real generator
fn rotate(n: usize, big: usize, bits: u32, ternary: bool, bodies: &[usize], last: &[usize]) {
  let par = params(n, big, bits, ternary);
  let w = if ternary { ternary_word(n) } else { binary_word(n) };
  let mut rng = SymRng::new(true, true, false).seeded(&[w]);
  let pack = SecretKeyPack::<u16, Fp>::new(par, &mut rng);
  let key = BlindRotationKey::<Fp>::generate(&pack, &mut rng);
  let two = 2 * big; let a: Vec<u16> = (0..n).map(|i| if i > 0 && i == n - 1 && last.len() > 0 { last[pick(last.len())] as u16 } else { pick(two) as u16 }).collect(); let b = bodies[pick(bodies.len())];
  let mut e = two - b;
  for i in 0..n { match pack.lwe_secret_key()[i] { 0 => {} 1 => e += a[i] as usize, s => { check!(s == 15, 5); e += two - a[i] as usize; } } }
  let lut: Vec<Fp> = elems(big);
  let r = key.blind_rotate(Polynomial::new(lut.clone()), &LWE::new(a, b as u16), par.blind_rotation_basis());
  let t = negacyclic(r.a_slice(), pack.ring_secret_key().as_slice()); let want = shift(&lut, e % two);
  for i in 0..big { check!(r.b_slice()[i] - t[i] == want[i], 10); out(want[i].0); }
}
#[no_mangle] pub extern "C" fn c23_binary_n1_2() { rotate(1, 2, 4, false, &[0, 1, 2, 3], &[]) }
#[no_mangle] pub extern "C" fn c23_ternary_n1_2() { rotate(1, 2, 4, true, &[0, 1, 2, 3], &[]) }
#[no_mangle] pub extern "C" fn c23_binary_n1_4() { rotate(1, 4, 4, false, &[0, 1, 2, 3, 4, 5, 6, 7], &[]) }
#[no_mangle] pub extern "C" fn c23_ternary_n1_4() { rotate(1, 4, 4, true, &[0, 1, 2, 3, 4, 5, 6, 7], &[]) }
#[no_mangle] pub extern "C" fn c23_binary_n2_2() { rotate(2, 2, 3, false, &[0, 3], &[]) }
#[no_mangle] pub extern "C" fn c23_ternary_n2_2() { rotate(2, 2, 3, true, &[0, 3], &[]) }
#[no_mangle] pub extern "C" fn c23_ternary_n2_4() { rotate(2, 4, 5, true, &[3], &[1, 6]) }
#[no_mangle] pub extern "C" fn c23_binary_n2_4() { rotate(2, 4, 2, false, &[6], &[3, 4]) }
//@ c23_*_all tier=thorough nomerge=1; as c23_*
#[no_mangle] pub extern "C" fn c23_ternary_n2_4_all() { rotate(2, 4, 4, true, &[0, 5], &[]) }
#[no_mangle] pub extern "C" fn c23_binary_n2_4_all() { rotate(2, 4, 4, false, &[1, 4], &[]) }
#[no_mangle] pub extern "C" fn c23_ternary_n3_2_all() { rotate(3, 2, 4, true, &[0], &[1, 2]) }
#[no_mangle] pub extern "C" fn c23_ternary_n1_8_all() { rotate(1, 8, 4, true, &[0, 1, 7, 8, 9, 15], &[]) }
