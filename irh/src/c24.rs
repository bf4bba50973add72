//! C24: boolean gates
use crate::sym::*;
use crate::symf::*;
use algebra::*;
use fhe_core::*;
use lattice::LWE;
use zkfhe::bfhe::Evaluator;
type Fp = SymF<12289>;
#[derive(Clone, Copy)]
/// dimensions; secrets: words explored (empty: every secret); masks, span: intervals mask elements are taken from (empty: any value)
struct P { n: usize, big: usize, q: u16, steps: Steps, ternary: bool, secrets: &'static [u32], masks: &'static [u16], span: u16 }
fn params(p: P) -> Parameters<u16, Fp> {
  Parameters::new(ConstParameters { lwe_dimension: p.n, lwe_plain_modulus: 4u16, lwe_cipher_modulus: p.q, lwe_noise_standard_deviation: 3.2,
    lwe_secret_key_type: if p.ternary { LWESecretKeyType::Ternary } else { LWESecretKeyType::Binary }, ring_dimension: p.big, ring_modulus: 12289, ring_noise_standard_deviation: 3.2,
    ring_secret_key_type: RingSecretKeyType::Ternary, blind_rotation_basis_bits: 7, steps: p.steps, key_switching_basis_bits: 3, key_switching_standard_deviation: if let Steps::BrMsKs = p.steps { 0.01 } else { 3.2 } }).unwrap()
}
struct W { p: P, ev: Evaluator<u16, Fp>, pack: SecretKeyPack<u16, Fp>, s: Vec<u16>, tol: u16 }
/// LWE secret explored, ring secret of weight two, pseudo-random masks, no noise
fn world(p: P) -> W {
  let par = params(p);
  let ws = if p.secrets.len() > 0 { p.secrets[pick(p.secrets.len())] } else if p.ternary { ternary_word(p.n) } else { binary_word(p.n) };
  let wz = if p.big >= 4 { 0b01_01_11_10u32 | 0x5555_0000 | 0x5500 } else { 0b0110 };
  let mut rng = SymRng::new(false, false, false).seeded(&[ws, wz]);
  let pack = SecretKeyPack::<u16, Fp>::new(par, &mut rng);
  let ev = Evaluator::new(&pack, &mut rng);
  let s = pack.lwe_secret_key().to_vec();
  let zw = pack.ring_secret_key().iter().filter(|v| v.0 != 0).count();
  let sw = s.iter().filter(|&&v| v != 0).count();
  // half a unit per rounded component the output phase depends on, half a unit for Q/8
  let tol = match p.steps { Steps::BrKsMs => sw as u16, _ => zw as u16 } / 2 + 1;
  W { p, ev, pack, s, tol }
}
impl W {
  /// any encryption of m: every mask, every noise; returns the noise biased by h
  fn ct(&self, m: u16, lo: u16, hi: u16) -> (LWECiphertext<u16>, u16) {
    let q = self.p.q; let e: u16 = below(lo + hi);
    let a: Vec<u16> = (0..self.p.n).map(|i| if self.p.masks.len() == 0 { below(q) } else if i > 1 { self.p.masks[i % self.p.masks.len()] } else { self.p.masks[pick(self.p.masks.len())] + below(self.p.span) }).collect();
    let mut b = m * (q / 4) + e + q - lo; for i in 0..self.p.n { b = b.wrapping_add(a[i].wrapping_mul(self.s[i])); }
    (LWE::new(a, b & (q - 1)), e)
  }
  fn phase(&self, c: &LWECiphertext<u16>) -> u16 {
    check!(c.a().len() == self.p.n, 6); check!(c.b() < self.p.q, 7);
    let mut r = c.b(); for i in 0..self.p.n { check!(c.a()[i] < self.p.q, 8); r = r.wrapping_sub(c.a()[i].wrapping_mul(self.s[i])); }
    r & (self.p.q - 1)
  }
  fn expect(&self, c: &LWECiphertext<u16>, f: bool, id: u32) {
    let q = self.p.q; let d = self.phase(c).wrapping_sub(if f { q / 4 } else { 0 }).wrapping_add(self.tol) & (q - 1);
    check!(d <= 2 * self.tol, id);
    if self.tol < q / 8 { check!(self.pack.decrypt::<bool>(c) == f, id + 1); }
    out(c.b() as u64);
  }
  /// half-width of the noise window, in ciphertext units: [-w, w)
  fn w(&self, full: u16) -> u16 {
    let two = 2 * self.p.big as u16;
    if two >= self.p.q { full } else { let k = self.s.iter().filter(|&&v| v != 0).count() as u16 + 1; full - (k * (self.p.q / two) + 1) / 2 }
  }
}
//@ c24_* nomerge=1 concargs=1; every truth-table row, every noise whose combination lies in the half-open window of the gate, every LWE secret and every mask (exceptions per harness); keys noise-free from the real generator, fixed pseudo-random key masks, ring secret of weight two
fn gate(p: P, g: usize, ms: &[u16]) {
  let w = world(p); let q = p.q;
  let m = ms[pick(ms.len())]; let (x, y, z) = (m & 1, m >> 1 & 1, m >> 2 & 1);
  let h = q / 8;
  match g {
    0..=3 => { // and, nand, or, nor: noise sum in the window
      let (c, e) = w.ct(x, h, h); let (d, f) = w.ct(y, h, h); let l = w.w(h);
      assume(e + f + l >= 2 * h && e + f < 2 * h + l);
      let (r, t) = match g { 0 => (w.ev.and(&c, &d), x & y == 1), 1 => (w.ev.nand(&c, &d), x & y == 0), 2 => (w.ev.or(&c, &d), x | y == 1), _ => (w.ev.nor(&c, &d), x | y == 0) };
      w.expect(&r, t, 10 + 2 * g as u32);
    }
    4 | 5 => { // xor, xnor: twice the noise difference in the window
      let (c, e) = w.ct(x, h, h); let (d, f) = w.ct(y, h, h); let l = w.w(2 * h);
      assume(2 * e + l >= 2 * f && 2 * e < 2 * f + l);
      let (r, t) = if g == 4 { (w.ev.xor(&c, &d), x != y) } else { (w.ev.xnor(&c, &d), x == y) };
      w.expect(&r, t, 10 + 2 * g as u32);
    }
    6 => {
      let (c, e) = w.ct(x, h, h); let (d, f) = w.ct(y, h, h); let (k, i) = w.ct(z, h, h); let l = w.w(h);
      assume(e + f + i + l >= 3 * h && e + f + i < 3 * h + l);
      w.expect(&w.ev.majority(&c, &d, &k), x + y + z >= 2, 22);
    }
    _ => {
      let (c, e) = w.ct(x, h, h); let (d, f) = w.ct(y, h, h); let (k, i) = w.ct(z, h, h); let l = w.w(h);
      // -e, because the negated selector is used
      assume(e + f + l >= 2 * h && e + f < 2 * h + l); assume(i + l >= e && i < e + l);
      unsafe { rayon::FLIP = pick(2) == 1 }
      w.expect(&w.ev.mux(&c, &d, &k), if x == 1 { y == 1 } else { z == 1 }, 24);
    }
  }
}

macro_rules! gates { ($($h:ident, $g:expr, $n:expr, $big:expr, $q:expr, $st:ident, $t:expr, [$($s:expr),*], [$($m:expr),*], $span:expr, [$($ms:expr),*]);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() { gate(P { n: $n, big: $big, q: $q, steps: Steps::$st, ternary: $t, secrets: &[$($s),*], masks: &[$($m),*], span: $span }, $g, &[$($ms),*]) }
)* } }
gates! {
  c24_and_ms_ks, 0, 1, 8, 16, BrMsKs, true, [2, 3], [3], 2, [0, 1, 2, 3];
  c24_nand_ks_ms, 1, 1, 8, 1024, BrKsMs, false, [1], [200], 64, [0, 1, 2, 3];
  c24_or_ms, 2, 8, 8, 16, BrMs, true, [0x5775], [5], 1, [0, 1, 2, 3];
  c24_nor_ks_ms_16, 3, 1, 16, 16, BrKsMs, true, [3], [13], 2, [0, 1, 2, 3];
  c24_xor_ms_ks, 4, 1, 8, 64, BrMsKs, false, [1], [30], 4, [0, 1, 2, 3];
  c24_xnor_ks_ms, 5, 1, 8, 16, BrKsMs, true, [2, 3], [6], 2, [0, 1, 2, 3];
  c24_majority_ks_ms, 6, 1, 8, 16, BrKsMs, false, [1], [7], 1, [0, 1, 2, 3, 4, 5, 6, 7];
  c24_mux_ks_ms, 7, 1, 8, 64, BrKsMs, true, [3], [9], 1, [0, 1, 2, 3, 4, 5, 6, 7];
}
//@ c24_*_all tier=thorough nomerge=1 concargs=1; as c24_*, every mask and secret
gates! {
  c24_and_ms_ks_all, 0, 1, 8, 16, BrMsKs, true, [], [], 1, [0, 1, 2, 3];
  c24_nand_ks_ms_all, 1, 1, 8, 64, BrKsMs, false, [], [], 1, [0, 1, 2, 3];
  c24_or_ms_all, 2, 8, 8, 16, BrMs, true, [0x5775, 0x5559], [0, 5, 11], 1, [0, 1, 2, 3];
  c24_nor_ks_ms_16_all, 3, 1, 16, 16, BrKsMs, true, [2, 3], [0, 5, 8], 2, [0, 1, 2, 3];
  c24_xor_ms_ks_all, 4, 1, 8, 64, BrMsKs, false, [], [0, 30], 8, [0, 1, 2, 3];
  c24_xnor_ks_ms_all, 5, 1, 8, 16, BrKsMs, true, [], [], 1, [0, 1, 2, 3];
  c24_majority_ks_ms_all, 6, 1, 8, 16, BrKsMs, false, [1], [0, 7], 2, [0, 1, 2, 3, 4, 5, 6, 7];
  c24_mux_ks_ms_all, 7, 1, 8, 64, BrKsMs, true, [2, 3], [38], 1, [0, 1, 2, 3, 4, 5, 6, 7];
}
//@ c24_boot_* nomerge=1 concargs=1; every phase of the input; a lookup table of pairwise different values; 2N/q = 1 and 2; keys as for the gates
fn boot(p: P) {
  let w = world(p); let (q, n) = (p.q, p.big);
  let (c, _) = w.ct(0, q / 2, q / 2); let ph = w.phase(&c);
  let lut: Vec<Fp> = (0..n).map(|j| Fp::new((j as u64 * 1531 + 77) % 12289)).collect();
  // the value at index i of the table extended by X^N = -1, raised by Q/8 (the constant that makes gate outputs 0 or q/4), scaled to the LWE modulus
  let step = 2 * n / q as usize;
  let want: Vec<u16> = (0..q as usize).map(|k| { let i = k * step; let v = (if i < n { lut[i].0 } else { 12289 - lut[i - n].0 }) + 12289 / 8; ((v as u64 * q as u64 + 6144) / 12289) as u16 & (q - 1) }).collect();
  let r = w.ev.bootstrap(c, Polynomial::new(lut));
  let d = w.phase(&r).wrapping_sub(want[ph as usize]).wrapping_add(w.tol) & (q - 1);
  check!(d <= 2 * w.tol, 40); out(r.b() as u64);
}
macro_rules! boots { ($($h:ident, $n:expr, $big:expr, $q:expr, $st:ident, $t:expr, [$($s:expr),*], [$($m:expr),*], $span:expr);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() { boot(P { n: $n, big: $big, q: $q, steps: Steps::$st, ternary: $t, secrets: &[$($s),*], masks: &[$($m),*], span: $span }) }
)* } }
boots! {
  c24_boot_ms_ks, 1, 8, 16, BrMsKs, true, [3], [5], 2;
  c24_boot_ks_ms, 1, 16, 32, BrKsMs, false, [1], [11], 2;
  c24_boot_ks_ms_2, 1, 16, 16, BrKsMs, true, [2, 3], [9], 2;
  c24_boot_ms, 8, 8, 16, BrMs, true, [0x5775], [5], 1;
}
//@ c24_not_* ; every ciphertext, every secret key of every value (not only short ones); dimension 3; power-of-two moduli 4, 16, 1024 and the largest of the type
macro_rules! nots { ($($h:ident, $c:ty, [$($q:expr),*]);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let qs: &[$c] = &[$($q),*]; let q = qs[pick(qs.len())];
    let par = Parameters::<$c, Fp>::new(ConstParameters { lwe_dimension: 1, lwe_plain_modulus: 4, lwe_cipher_modulus: q, lwe_noise_standard_deviation: 3.2,
      lwe_secret_key_type: LWESecretKeyType::Ternary, ring_dimension: 2, ring_modulus: 12289, ring_noise_standard_deviation: 3.2,
      ring_secret_key_type: RingSecretKeyType::Ternary, blind_rotation_basis_bits: 7, steps: Steps::BrKsMs, key_switching_basis_bits: 7, key_switching_standard_deviation: 3.2 }).unwrap();
    let mut rng = SymRng::new(false, false, false).seeded(&[0x55555555, 0x55555555]);
    let pack = SecretKeyPack::<$c, Fp>::new(par, &mut rng); let ev = Evaluator::new(&pack, &mut rng);
    let (a, b): (Vec<$c>, $c) = ((0..3).map(|_| below(q)).collect(), below(q));
    let r = ev.not(&LWE::new(a.clone(), b));
    check!(r.a().len() == 3, 30);
    // phase(r) = q/4 - phase(c) for every key: the masks are negated, the bodies sum to q/4
    for i in 0..3 { check!(r.a()[i] < q, 31); check!(r.a()[i].wrapping_add(a[i]) & (q - 1) == 0, 32); }
    check!(r.b() < q, 33); check!(r.b().wrapping_add(b) & (q - 1) == q / 4, 34); out(r.b() as u64);
  }
)* } }
nots! { c24_not_u8, u8, [4, 16, 128]; c24_not_u16, u16, [4, 16, 1024, 32768]; c24_not_u32, u32, [4, 1024, 1 << 31]; c24_not_u64, u64, [4, 1024, 1 << 63] }
