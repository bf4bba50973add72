//! C21: LWE key switching
use crate::sym::*;
use crate::symf::*;
use algebra::*;
use fhe_core::*;
use lattice::LWE;
type Fp = SymF<257>;
/// noise of the switching key: standard deviation too small for any draw to round away from zero, or large
fn params<C: LWEModulusType>(n: usize, big: usize, q: C, bits: u32, ternary: bool, binring: bool, sd: f64) -> Parameters<C, Fp> {
  Parameters::new(ConstParameters { lwe_dimension: n, lwe_plain_modulus: C::ONE + C::ONE, lwe_cipher_modulus: q, lwe_noise_standard_deviation: 3.2,
    lwe_secret_key_type: if ternary { LWESecretKeyType::Ternary } else { LWESecretKeyType::Binary }, ring_dimension: big, ring_modulus: 257, ring_noise_standard_deviation: 3.2,
    ring_secret_key_type: if binring { RingSecretKeyType::Binary } else { RingSecretKeyType::Ternary }, blind_rotation_basis_bits: 4, steps: Steps::BrMsKs, key_switching_basis_bits: bits, key_switching_standard_deviation: sd }).unwrap()
}
//@ c21_* nomerge=1; every mask of the switching key, every body; ciphertext mask elements and both secret keys explored path by path (all values); dimensions, modulus and digit width per harness; keys generated by the real generator, noise-free (standard deviation 0.01: every draw rounds to zero)
macro_rules! sw { ($h:ident, $c:ty, $n:expr, $big:expr, $q:expr, $bits:expr, $tern:expr, $binring:expr, $dig:expr) => {
  #[no_mangle] pub extern "C" fn $h() {
    let (n, big, q): (usize, usize, $c) = ($n, $big, $q);
    let par = params::<$c>(n, big, q, $bits, $tern, $binring, 0.01);
    let ws = if $tern { ternary_word(n) } else { binary_word(n) };
    let wz = if $binring { binary_word(big) } else { ternary_word(big) };
    let mut rng = SymRng::new(false, true, false).seeded(&[ws, wz]);
    let pack = SecretKeyPack::<$c, Fp>::new(par, &mut rng);
    let key = KeySwitchingLWEKey::<$c>::generate(&pack, &mut rng);
    let dig: &[usize] = &$dig;
    let a: Vec<$c> = (0..big).map(|_| if dig.len() == 0 { pick(q as usize) as $c } else { dig[pick(dig.len())] as $c }).collect();
    let b: $c = below(q);
    let z: Vec<u64> = pack.ring_secret_key().iter().map(|v| match v.0 { 0 => 0, 1 => 1, x => { check!(x == 256, 5); q as u64 - 1 } }).collect();
    let mut want = b as u64; for i in 0..big { want = want.wrapping_sub(a[i] as u64 * z[i]); }
    let r = key.key_switch_for_lwe(LWE::new(a, b));
    check!(r.a().len() == n, 6);
    let mut ph = r.b() as u64; for i in 0..n { check!(r.a()[i] < q, 7); ph = ph.wrapping_sub(r.a()[i] as u64 * pack.lwe_secret_key()[i] as u64); }
    check!(r.b() < q, 8);
    check!((ph.wrapping_sub(want)) & (q as u64 - 1) == 0, 10);
    out(r.b() as u64);
  }
} }
sw! { c21_u16_n1_1, u16, 1, 1, 16, 2, true, false, [] }
sw! { c21_u16_n2_2, u16, 2, 2, 16, 2, true, true, [0, 1, 6, 11] }
sw! { c21_u16_b1, u16, 2, 2, 8, 1, false, false, [0, 3, 5, 7] }
sw! { c21_u16_b3, u16, 1, 2, 16, 3, false, false, [0, 1, 8, 9, 15] }
sw! { c21_u16_b4, u16, 1, 1, 16, 4, true, false, [] }
sw! { c21_u32_n3_2, u32, 3, 2, 64, 3, false, true, [0, 9, 35, 63] }
