//! C25: samplers
use crate::sym::*;
use crate::streams::*;
use algebra::{derive::*, utils::*, *};
use lattice::{sample_binary_values, sample_ternary_values, BinarySampler, DiscreteGaussian, TernarySampler};
use rand::distributions::Distribution;
use rand::RngCore;
macro_rules! fields { ($($n:ident $t:ident, $m:tt);* $(;)?) => { $(
    #[derive(Field, Prime)]
    #[modulus = $m]
    pub struct $n($t);
)* } }
fields! { U8a u8, 61; U16a u16, 12289; U32a u32, 132120577; U32b u32, 1073707009; U64a u64, 1125899906826241; U64b u64, 2305843009213693951; U8s u8, 17; U32s u32, 257 }
//@ c25_bin_* nomerge=1 weight=2; every random stream; lengths around the blocks of 32 words per harness; every position (path by path)
macro_rules! bins { ($($h:ident, [$($n:expr),*], $w:expr, |$len:ident, $r:ident| $e:expr);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() { let ns: &[usize] = &[$($n),*]; let n = ns[pick(ns.len())]; let j = pick(n);
    binary(n, $w, j, &|$r: &mut Tape| { let $len = n; $e }) }
)* } }
fn fv<F: Field>(v: Vec<F>) -> Vals where F::Value: Into<u64> { v.into_iter().map(|x| x.value().into()).collect() }
bins! {
  c25_bin_field_u32, [1, 5], 1, |n, r| fv(sample_binary_field_vec::<U32a, _>(n, r));
  c25_bin_field_u8, [7], 1, |n, r| fv(sample_binary_field_vec::<U8a, _>(n, r));
  c25_bin_values_u16, [3, 8], 1, |n, r| sample_binary_values::<u16, _>(n, r).into_iter().map(|x| x as u64).collect();
  c25_bin_values_u64, [4], 1, |n, r| sample_binary_values::<u64, _>(n, r);
  c25_bin_poly, [4], 1, |n, r| fv(Polynomial::<U32b>::random_with_binary(n, r).data());
  c25_bin_one, [1], 1, |n, r| vec![<FieldBinarySampler as Distribution<U64a>>::sample(&FieldBinarySampler, r).value(); n];
  c25_bin_one_u32, [1], 1, |n, r| vec![<BinarySampler as Distribution<u32>>::sample(&BinarySampler, r) as u64; n];
}
macro_rules! binl { ($($h:ident, $n:expr, [$($j:expr),*], $w:expr, |$len:ident, $r:ident| $e:expr);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() { let js: &[usize] = &[$($j),*]; let n: usize = $n; let j = js[pick(js.len())];
    binary(n, $w, j, &|$r: &mut Tape| { let $len = n; $e }) }
)* } }
//@ c25_binl_* nomerge=1 weight=2; every random stream; lengths beyond a block of 32, positions at the block edges
binl! {
  c25_binl_field_32, 32, [0, 15, 16, 31], 2, |n, r| fv(sample_binary_field_vec::<U32a, _>(n, r));
  c25_binl_field_33, 33, [0, 16, 31, 32], 2, |n, r| fv(sample_binary_field_vec::<U16a, _>(n, r));
  c25_binl_field_70, 70, [31, 32, 63, 64, 69], 3, |n, r| fv(sample_binary_field_vec::<U64a, _>(n, r));
  c25_binl_values_32, 32, [0, 15, 16, 31], 2, |n, r| sample_binary_values::<u32, _>(n, r).into_iter().map(|x| x as u64).collect();
  c25_binl_values_69, 69, [31, 32, 63, 64, 68], 3, |n, r| sample_binary_values::<u8, _>(n, r).into_iter().map(|x| x as u64).collect();
}
macro_rules! tern { ($($h:ident, $n:expr, [$($j:expr),*], $w:expr, $minus:expr, |$len:ident, $r:ident| $e:expr);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() { let js: &[usize] = &[$($j),*]; let n: usize = $n; let j = js[pick(js.len())];
    ternary(n, $w, j, $minus, &|$r: &mut Tape| { let $len = n; $e }) }
)* } }
//@ c25_ter_* nomerge=1 weight=2; every random stream; lengths around the blocks of 16, positions at the block edges
tern! {
  c25_ter_field_5, 5, [0, 1, 2, 3, 4], 1, 132120576, |n, r| fv(sample_ternary_field_vec::<U32a, _>(n, r));
  c25_ter_field_16, 16, [0, 7, 15], 2, 60, |n, r| fv(sample_ternary_field_vec::<U8a, _>(n, r));
  c25_ter_field_17, 17, [0, 8, 15, 16], 2, 12288, |n, r| fv(sample_ternary_field_vec::<U16a, _>(n, r));
  c25_ter_field_35, 35, [15, 16, 31, 32, 34], 3, 1125899906826240, |n, r| fv(sample_ternary_field_vec::<U64a, _>(n, r));
  c25_ter_values_6, 6, [0, 1, 2, 3, 4, 5], 1, 1023, |n, r| sample_ternary_values::<u16, _>(1024, n, r).into_iter().map(|x| x as u64).collect();
  c25_ter_values_33, 33, [0, 15, 16, 31, 32], 3, 127, |n, r| sample_ternary_values::<u8, _>(128, n, r).into_iter().map(|x| x as u64).collect();
  c25_ter_values_20, 20, [0, 15, 16, 19], 2, (1 << 40) - 1, |n, r| sample_ternary_values::<u64, _>(1 << 40, n, r);
  c25_ter_poly, 4, [0, 3], 1, 1073707008, |n, r| fv(Polynomial::<U32b>::random_with_ternary(n, r).data());
  c25_ter_one, 1, [0], 1, 1125899906826240, |n, r| vec![<FieldTernarySampler as Distribution<U64a>>::sample(&FieldTernarySampler, r).value(); n];
  c25_ter_one_u32, 1, [0], 1, 4095, |n, r| vec![TernarySampler::<u32>::new(4096).sample(r) as u64; n];
}
/// centred binomial: each value is the number of ones among 21 stream bits minus the number among 21 others, all
/// of its own
fn cbd<F: Field>(n: usize, f: &dyn Fn(&mut Tape) -> Vec<F>) where F::Value: Into<u64> {
  let words = 2 * n; let p: u64 = F::MODULUS_VALUE.into();
  let mut owner = vec![0usize; 32 * words]; let mut sign = vec![0u8; 32 * words]; let mut cnt = vec![(0u32, 0u32); n];
  for v in fv(f(&mut Tape::new(&vec![0; words]))) { check!(v == 0, 21); }
  for k in 0..32 * words { let v = fv(f(&mut Tape::new(&unit(words, k)))); check!(v.len() == n, 22);
    for j in 0..n { if v[j] != 0 { check!((v[j] == 1) | (v[j] == p - 1), 23); check!(sign[k] == 0, 24); owner[k] = j; if v[j] == 1 { sign[k] = 1; cnt[j].0 += 1; } else { sign[k] = 2; cnt[j].1 += 1; } } } }
  for j in 0..n { check!(cnt[j].0 == 21 && cnt[j].1 == 21, 25); }
  let r: Vec<u32> = (0..words).map(|_| any()).collect(); let v = fv(f(&mut Tape::new(&r)));
  for j in 0..n { let (mut a, mut b) = (0u64, 0u64);
    for k in 0..4 * words { let byte = (r[k / 4] >> (8 * (k % 4))) as u8; let (mut ma, mut mb) = (0u8, 0u8);
      for i in 0..8 { if owner[8 * k + i] == j { if sign[8 * k + i] == 1 { ma |= 1 << i; } if sign[8 * k + i] == 2 { mb |= 1 << i; } } }
      a += (byte & ma).count_ones() as u64; b += (byte & mb).count_ones() as u64; }
    check!(v[j] == if a >= b { a - b } else { p + a - b }, 26); out(v[j]); }
}
//@ c25_cbd_* timeout=120; every random stream
#[no_mangle] pub extern "C" fn c25_cbd_u32() { cbd::<U32a>(1, &|r| sample_cbd_field_vec(1, r)) }
#[no_mangle] pub extern "C" fn c25_cbd_u8() { cbd::<U8a>(1, &|r| sample_cbd_field_vec(1, r)) }
#[no_mangle] pub extern "C" fn c25_cbd_u64() { cbd::<U64a>(2, &|r| sample_cbd_field_vec(2, r)) }
#[no_mangle] pub extern "C" fn c25_cbd_poly() { cbd::<U16a>(2, &|r| Polynomial::<U16a>::random_with_gaussian(2, r, FieldDiscreteGaussianSampler::new(0.0, 3.2).unwrap()).data()) }
/// uniform residues: one word is drawn per attempt; its multiple by P (or its remainder by P) decides.  When the
/// result is the high word of the product, each residue has the same number of accepted words exactly when the
/// accepted low words form an interval whose length is a multiple of P; likewise for remainders
fn uniform<F: Field>(wide: bool, f: &dyn Fn(&mut Tape) -> F) where F::Value: Into<u64> {
  let p = { let p: u64 = F::MODULUS_VALUE.into(); p as u128 }; let bits = if wide { 64 } else { 32 }; let full = 1u128 << bits;
  let draw = |x: u64, second: u64| { let mut w = vec![x as u32]; if wide { w.push((x >> 32) as u32); } w.push(second as u32); if wide { w.push((second >> 32) as u32); }
    let mut t = Tape::new(&w); let v: u64 = f(&mut t).value().into(); (v, t.used) };
  let one = bits / 32;
  // a word every scheme accepts and its result, then any word
  let good = (full / 2 + full / 5) as u64; let (g, u) = draw(good, 0); check!(u == one, 31);
  let x: u64 = if wide { any() } else { any::<u32>() as u64 };
  let (v, used) = draw(x, good);
  check!((v as u128) < p, 32);
  check!((used == one) | (used == 2 * one), 33);
  if used != one { check!(v == g, 34); }
  let accepted = used == one;
  let prod = x as u128 * p; let low = prod & (full - 1);
  if g as u128 == good as u128 * p >> bits {
    if accepted { check!(v as u128 == prod >> bits, 35); }
    let thresh = full % p; let zone = p << ((full - 1).leading_zeros() as i32 * 0 + bits as i32 - (128 - p.leading_zeros()) as i32);
    if draw(0, good).1 == one { check!(accepted == (low < zone), 36); } else { check!(accepted == (low >= thresh), 37); }
  } else if g as u128 == good as u128 % p {
    if accepted { check!(v as u128 == x as u128 % p, 38); }
    if draw(0, good).1 == one { check!(accepted == ((x as u128) < full - full % p), 39); } else { check!(accepted == (x as u128 >= full % p), 40); }
  }
  out(v);
}
//@ c25_uni_* timeout=120; every first word, a fixed accepted word after a rejection
#[no_mangle] pub extern "C" fn c25_uni_u8() { uniform::<U8a>(false, &|r| U8a::random(r)); }
#[no_mangle] pub extern "C" fn c25_uni_u16() { uniform::<U16a>(false, &|r| FieldUniformSampler::<U16a>::new().sample(r)); }
#[no_mangle] pub extern "C" fn c25_uni_u32() { uniform::<U32a>(false, &|r| U32a::random(r)); }
#[no_mangle] pub extern "C" fn c25_uni_u32b() { uniform::<U32b>(false, &|r| FieldUniformSampler::<U32b>::new().sample(r)); }
#[no_mangle] pub extern "C" fn c25_uni_u64() { uniform::<U64a>(true, &|r| U64a::random(r)); }
#[no_mangle] pub extern "C" fn c25_uni_u64b() { uniform::<U64b>(true, &|r| FieldUniformSampler::<U64b>::default().sample(r)); }
#[no_mangle] pub extern "C" fn c25_uni_poly() { uniform::<U32a>(false, &|r| Polynomial::<U32a>::random(1, r).data()[0]); }
//@ c25_gauss_* timeout=120 nomerge=1; every integer mean of the stated range, fractional parts 0, 1/4, -2/5; standard deviation zero, so the draw is the mean whatever the stream: the value is the residue of the rounded draw
//@ c25_gauss_field_u32 tier=thorough
//@ c25_gauss_field_u64 tier=thorough
//@ c25_gauss_u64 tier=thorough
macro_rules! gauss { ($($h:ident, $p:expr, $k:expr, |$m:ident, $r:ident| $e:expr);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let k: u32 = below(2 * $k + 1); let fr = [0.0, 0.25, -0.4][pick(3)];
    let $m = k as f64 - $k as f64 + fr;
    let mut t = Limit(0); let $r: &mut Limit = &mut t;
    let v: u64 = $e; let p: u64 = $p;
    check!(v == (k as u64 + p - $k as u64) % p, 45); out(v);
  }
)* } }
/// a stream that is cut off: a sampler that still asks for more does not terminate
struct Limit(u32);
impl RngCore for Limit {
  fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
  fn next_u64(&mut self) -> u64 { self.0 += 1; check!(self.0 < 200, 46); if self.0 >= 200 { cutoff(); } 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(self.0 as u64) }
  fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = self.next_u32() as u8; } }
  fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand::CryptoRng for Limit {}
fn cutoff() { assume(false); }
gauss! {
  c25_gauss_field_u32, 132120577, 1000u32, |m, r| FieldDiscreteGaussianSampler::new(m, 0.0).unwrap().sample_f::<U32a>(r) as u64;
  c25_gauss_field_u8, 61, 28u32, |m, r| FieldDiscreteGaussianSampler::new(m, 0.0).unwrap().sample_f::<U8a>(r);
  c25_gauss_field_u64, 1125899906826241, 100000u32, |m, r| FieldDiscreteGaussianSampler::new(m, 0.0).unwrap().sample_f::<U64a>(r);
  c25_gauss_u16, 1024, 500u32, |m, r| { let v: u16 = DiscreteGaussian::<u16>::new(1024, m, 0.0).unwrap().sample(r); v as u64 };
  c25_gauss_u64, 1 << 40, 100000u32, |m, r| DiscreteGaussian::<u64>::new(1 << 40, m, 0.0).unwrap().sample(r);
}
trait SampleF { fn sample_f<F: Field>(&self, r: &mut Limit) -> u64 where F::Value: Into<u64>; }
impl SampleF for FieldDiscreteGaussianSampler { fn sample_f<F: Field>(&self, r: &mut Limit) -> u64 where F::Value: Into<u64> { let x: F = self.sample(r); x.value().into() } }
/// real draws of fixed streams stay within the cut; construction refuses impossible parameters
//@ c25_draw* nomerge=1; fixed streams (sampled, not decided): truncation of the tail; refused parameters
#[no_mangle] pub extern "C" fn c25_draws() {
  let sd = [0.5, 3.2, 20.0][pick(3)]; let mut r = Limit(pick(4) as u32 * 17);
  let g = FieldDiscreteGaussianSampler::new(0.0, sd).unwrap(); let h = DiscreteGaussian::<u32>::new(1 << 20, 0.0, sd).unwrap();
  let lim = (sd * 6.0) as u64 + 1;
  for _ in 0..8 { let v = g.sample_f::<U32a>(&mut r); let c = if v > 132120577 / 2 { 132120577 - v } else { v }; check!(c <= lim, 51);
    let v: u32 = h.sample(&mut r); let c = if v > 1 << 19 { (1 << 20) - v } else { v }; check!(c as u64 <= lim, 52); out(v as u64); }
  check!(FieldDiscreteGaussianSampler::new(0.0, -1.0).is_err() && DiscreteGaussian::<u32>::new(16, 0.0, -1.0).is_err(), 53);
  check!(FieldDiscreteGaussianSampler::new_with_max(0.0, 2.0, 2.0).is_err() && DiscreteGaussian::<u32>::new_with_max_limit(16, 0.0, 2.0, 1.0).is_err(), 54);
  let g = FieldDiscreteGaussianSampler::new_with_max(0.0, sd, sd * 1.5).unwrap(); let lim = (sd * 1.5) as u64 + 1;
  for _ in 0..8 { let v = g.sample_f::<U32a>(&mut r); let c = if v > 132120577 / 2 { 132120577 - v } else { v }; check!(c <= lim, 55); }
}
/// the integer nearest to a finite double's absolute value (halves upwards), from its bits
fn nearest(bits: u64) -> u64 {
  let e = (bits >> 52 & 0x7ff) as u32; let m = bits & ((1 << 52) - 1) | 1 << 52;
  if e < 1022 { 0 } else if e == 1022 { 1 } else if e < 1075 { let s = 1075 - e; (m + (1 << (s - 1))) >> s } else { u64::MAX }
}
/// a draw is any double: it is kept exactly when it deviates from the mean by at most the limit and gives the
/// residue of the nearest integer; otherwise a fresh draw decides
fn drawn(mean: f64, max: f64, q: u64, f: &dyn Fn(&mut Tape) -> u64) {
  rand_distr::DRAW.store(true, core::sync::atomic::Ordering::Relaxed);
  let (lo, hi): (u32, u32) = (any(), any()); let x = lo as u64 | (hi as u64) << 32;
  let good = (mean + 1.75).to_bits();
  let mut t = Tape::new(&[lo, hi, good as u32, (good >> 32) as u32]);
  let v = f(&mut t);
  let kept = if mean == 0.0 { (x << 1) >> 1 <= max.to_bits() } else { (f64::from_bits(x) - mean).abs() <= max };
  let y = if kept { x } else { good };
  check!(t.used == if kept { 2 } else { 4 }, 61);
  let r = nearest(y); let neg = y >> 63 == 1;
  check!(v == if neg && r != 0 { q - r } else { r }, 62);
  rand_distr::DRAW.store(false, core::sync::atomic::Ordering::Relaxed); out(v);
}
//@ c25_normal_* timeout=120 nomerge=1; every double as first normal draw (infinities and NaN included), an accepted second draw; the stated means and limits
macro_rules! drawns { ($($h:ident, $mean:expr, $max:expr, $q:expr, |$r:ident| $e:expr);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() { drawn($mean, $max, $q, &|$r: &mut Tape| $e) }
)* } }
fn one<F: Field>(g: FieldDiscreteGaussianSampler, r: &mut Tape) -> u64 where F::Value: Into<u64> { let x: F = g.sample(r); x.value().into() }
drawns! {
  c25_normal_field_u32, 0.0, 3.2 * 6.0, 132120577, |r| one::<U32a>(FieldDiscreteGaussianSampler::new(0.0, 3.2).unwrap(), r);
  c25_normal_field_u8, 0.0, 4.5 * 6.0, 61, |r| one::<U8a>(FieldDiscreteGaussianSampler::new(0.0, 4.5).unwrap(), r);
  c25_normal_field_u16, 0.0, 9.5, 12289, |r| one::<U16a>(FieldDiscreteGaussianSampler::new_with_max(0.0, 2.0, 9.5).unwrap(), r);
  c25_normal_field_u64, 0.0, 1000.0 * 6.0, 1125899906826241, |r| one::<U64a>(FieldDiscreteGaussianSampler::new(0.0, 1000.0).unwrap(), r);
  c25_normal_field_mean, -7.5, 2.0 * 6.0, 1073707009, |r| one::<U32b>(FieldDiscreteGaussianSampler::new(-7.5, 2.0).unwrap(), r);
  c25_normal_u16, 0.0, 3.5 * 6.0, 1024, |r| { let v: u16 = DiscreteGaussian::<u16>::new(1024, 0.0, 3.5).unwrap().sample(r); v as u64 };
  c25_normal_u32, 0.0, 31.5, 1 << 20, |r| { let v: u32 = DiscreteGaussian::<u32>::new_with_max_limit(1 << 20, 0.0, 3.5, 31.5).unwrap().sample(r); v as u64 };
  c25_normal_u64, 0.0, 500.0 * 6.0, 1 << 40, |r| DiscreteGaussian::<u64>::new(1 << 40, 0.0, 500.0).unwrap().sample(r);
  c25_normal_mean, 4.25, 3.0 * 6.0, 1 << 40, |r| DiscreteGaussian::<u64>::new(1 << 40, 4.25, 3.0).unwrap().sample(r);
  c25_normal_poly, 0.0, 2.5 * 6.0, 132120577, |r| Polynomial::<U32a>::random_with_gaussian(1, r, FieldDiscreteGaussianSampler::new(0.0, 2.5).unwrap()).data()[0].value() as u64;
  c25_normal_dist, 0.0, 2.5 * 6.0, 132120577, |r| Polynomial::<U32a>::random_with_distribution(1, r, FieldDiscreteGaussianSampler::new(0.0, 2.5).unwrap()).data()[0].value() as u64;
  c25_normal_ntt, 0.0, 2.5 * 6.0, 132120577, |r| NTTPolynomial::<U32a>::random_with_distribution(1, r, FieldDiscreteGaussianSampler::new(0.0, 2.5).unwrap()).data()[0].value() as u64;
}
/// what a sampler says about itself is what it was built with; 3.2 is the deviation of the centred binomial
//@ c25_says nomerge=1; every deviation between 2^-4 and 2^4 in steps of 2^-4 and 3.2, means 0 and 1.5
#[no_mangle] pub extern "C" fn c25_says() {
  let k = below(257u32); let sd = if k == 0 { 3.2 } else { k as f64 / 16.0 }; let mean = [0.0, 1.5][pick(2)];
  let g = FieldDiscreteGaussianSampler::new(mean, sd).unwrap(); let h = DiscreteGaussian::<u32>::new(1 << 20, mean, sd).unwrap();
  check!(g.mean() == mean && g.std_dev() == sd && g.max_std_dev() == sd * 6.0, 71);
  check!(h.mean() == mean && h.std_dev() == sd && h.max_std_dev() == sd * 6.0, 72);
  check!(g.gaussian().mean() == mean && g.gaussian().std_dev() == sd, 73);
  if g.cbd_enable() { check!(mean == 0.0 && sd == 3.2, 74); }
  let g = FieldDiscreteGaussianSampler::new_with_max(mean, sd, sd * 4.0).unwrap(); let h = DiscreteGaussian::<u32>::new_with_max_limit(1 << 20, mean, sd, sd * 4.0).unwrap();
  check!(g.mean() == mean && g.std_dev() == sd && g.max_std_dev() == sd * 4.0, 75);
  check!(h.mean() == mean && h.std_dev() == sd && h.max_std_dev() == sd * 4.0, 76);
  out(k as u64);
}
