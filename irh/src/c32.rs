//! C32: key packs
use crate::sym::*;
use crate::streams::*;
use crate::symf::*;
use algebra::{derive::*, transformation::*, *};
use fhe_core::*;
use num_traits::{One, Zero};
use zkfhe::KeyGen;
#[derive(Field, Prime, DecomposableField, FheField, NTT)]
#[modulus = 12289]
pub struct U16a(u16);
#[derive(Field, Prime, DecomposableField, FheField, NTT)]
#[modulus = 132120577]
pub struct U32a(u32);
#[derive(Clone, Copy)]
struct K { n: usize, big: usize, steps: Steps, lt: bool, rt: bool }
fn lk(t: bool) -> LWESecretKeyType { if t { LWESecretKeyType::Ternary } else { LWESecretKeyType::Binary } }
fn rk(t: bool) -> RingSecretKeyType { if t { RingSecretKeyType::Ternary } else { RingSecretKeyType::Binary } }
fn params<C: LWEModulusType, Q: NTTField>(k: K, q: C, t: C, p: Q::Value, r: RingSecretKeyType) -> Parameters<C, Q> {
  Parameters::new(ConstParameters { lwe_dimension: k.n, lwe_plain_modulus: t, lwe_cipher_modulus: q, lwe_noise_standard_deviation: 3.5, lwe_secret_key_type: lk(k.lt),
    ring_dimension: k.big, ring_modulus: p, ring_noise_standard_deviation: 2.5, ring_secret_key_type: r, blind_rotation_basis_bits: 3,
    steps: k.steps, key_switching_basis_bits: 3, key_switching_standard_deviation: 3.5 }).unwrap()
}
/// LWE secret then ring secret, minus one written as 2; shared: the ring secret has to be the image of the LWE
/// secret and is left out
fn keys<C: LWEModulusType + Into<u64>, Q: NTTField>(k: K, q: C, t: C, p: Q::Value, r: &mut Tape) -> Vals where Q::Value: Into<u64> {
  let pack = KeyGen::generate_secret_key::<C, Q, _>(params(k, q, t, p, rk(k.rt)), r);
  let (q, p): (u64, u64) = (q.into(), p.into());
  check!(pack.lwe_secret_key().len() == k.n && pack.ring_secret_key().coeff_count() == k.big && pack.ntt_ring_secret_key().coeff_count() == k.big, 70);
  let code = |v: u64, m: u64| { let minus = v == m - 1; check!((v <= 1) | minus, 71); v.wrapping_sub(minus as u64 * (m - 3)) };
  let l: Vals = pack.lwe_secret_key().iter().map(|&v| code(v.into(), q)).collect();
  let z: Vals = pack.ring_secret_key().iter().map(|&v| code(v.value().into(), p)).collect();
  if let Steps::BrMs = k.steps { for i in 0..k.n { check!(l[i] == z[i], 72); } z } else { l.into_iter().chain(z).collect() }
}
//@ c32_ind_* nomerge=1 weight=2; every random stream; every position of the LWE secret followed by the ring secret: binary values own one stream bit each, ternary values two; dimensions per harness
macro_rules! ind { ($($h:ident, $c:ty, $f:ident, $q:expr, $p:expr, $n:expr, $big:expr, $st:ident, $tern:expr, $w:expr);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let k = K { n: $n, big: $big, steps: Steps::$st, lt: $tern, rt: $tern };
    let tot = if let Steps::BrMs = k.steps { k.n } else { k.n + k.big }; let j = pick(tot);
    let f = |r: &mut Tape| keys::<$c, $f>(k, $q, 4, $p, r);
    if $tern { ternary(tot, $w, j, 2, &f) } else { binary(tot, $w, j, &f) }
  }
)* } }
ind! {
  c32_ind_bin_ks_ms, u16, U16a, 1024, 12289, 3, 4, BrKsMs, false, 2;
  c32_ind_bin_ms_ks, u32, U32a, 512, 132120577, 2, 4, BrMsKs, false, 2;
  c32_ind_bin_ms, u16, U16a, 1024, 12289, 4, 4, BrMs, false, 1;
  c32_ind_ter_ks_ms, u32, U16a, 4096, 12289, 2, 4, BrKsMs, true, 2;
  c32_ind_ter_ms_ks, u16, U16a, 1024, 12289, 3, 2, BrMsKs, true, 2;
  c32_ind_ter_ms, u64, U32a, 1 << 40, 132120577, 2, 2, BrMs, true, 1;
}
type Fp = SymF<257>;
fn val(tab: &SymTab<257>, a: &[Fp]) -> Vec<Fp> { (0..a.len()).map(|k| { let z = tab.node(k); let mut r = SymF(0); for j in 0..a.len() { r += a[j] * SymF(pw(z, j as u64, 257)); } r }).collect() }
//@ c32_ntt_* nomerge=1; every random stream, all secrets; the stored transform consists of the values of the ring secret at the transform's nodes; the pack keeps its parameters
macro_rules! ntts { ($($h:ident, $n:expr, $big:expr, $st:ident, $lt:expr, $rt:expr);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let k = K { n: $n, big: $big, steps: Steps::$st, lt: $lt, rt: $rt };
    let w: Vec<u32> = (0..4).map(|_| any()).collect();
    let pack = SecretKeyPack::<u16, Fp>::new(params(k, 1024, 4, 257, rk($rt)), &mut Tape::new(&w));
    let tab = Fp::get_ntt_table($big.trailing_zeros()).unwrap();
    let v = val(&tab, pack.ring_secret_key().as_slice());
    for i in 0..$big { check!(pack.ntt_ring_secret_key()[i] == v[i], 80); out(v[i].0); }
    let x = pack.parameters();
    check!(x.lwe_dimension() == $n && x.ring_dimension() == $big && x.lwe_cipher_modulus_value() == 1024 && x.lwe_plain_modulus() == 4, 81);
    check!(x.lwe_secret_key_type() == lk($lt) && x.ring_secret_key_type() == rk($rt), 82);
    for &s in pack.lwe_secret_key() { check!(s <= 1 || $lt && s == 1023, 83); }
    for &s in pack.ring_secret_key().iter() { check!(s.0 <= 1 || $rt && s.0 == 256, 84); }
  }
)* } }
ntts! { c32_ntt_ks_ms, 2, 4usize, BrKsMs, false, true; c32_ntt_ms_ks, 2, 4usize, BrMsKs, true, false; c32_ntt_ms, 4, 4usize, BrMs, true, true }
/// Gaussian ring secrets: any kept draw per coefficient
//@ c32_gauss nomerge=1 timeout=120; every double as draw of each of two coefficients
#[no_mangle] pub extern "C" fn c32_gauss() {
  rand_distr::DRAW.store(true, core::sync::atomic::Ordering::Relaxed);
  let k = K { n: 1, big: 2, steps: Steps::BrKsMs, lt: false, rt: true };
  let (x, y): (u64, u64) = (any(), any()); let kept = |x: u64| x << 1 >> 1 <= 15f64.to_bits(); assume(kept(x) && kept(y));
  let mut t = Tape::new(&[0, x as u32, (x >> 32) as u32, y as u32, (y >> 32) as u32]);
  let pack = SecretKeyPack::<u16, U16a>::new(params(k, 1024, 4, 12289, RingSecretKeyType::Gaussian), &mut t);
  let near = |b: u64| { let e = b >> 52 & 0x7ff; let m = b & ((1 << 52) - 1) | 1 << 52; let r = if e < 1022 { 0 } else if e == 1022 { 1 } else { let s = 1075 - e; (m + (1 << (s - 1))) >> s };
    (if b >> 63 == 1 && r != 0 { 12289 - r } else { r }) as u16 };
  check!(pack.ring_secret_key()[0].value() == near(x), 90); check!(pack.ring_secret_key()[1].value() == near(y), 91);
  rand_distr::DRAW.store(false, core::sync::atomic::Ordering::Relaxed); out(near(x) as u64);
}
