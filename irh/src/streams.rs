//! random streams given as words; independence of sampled values by single-bit flips
use crate::sym::*;
use rand::RngCore;
/// a random stream given as words; words beyond its end are zero
pub struct Tape { pub w: Vec<u32>, pub pos: usize, pub used: usize }
impl Tape { pub fn new(w: &[u32]) -> Self { Tape { w: w.to_vec(), pos: 0, used: 0 } } }
impl RngCore for Tape {
  fn next_u32(&mut self) -> u32 { let x = if self.pos < self.w.len() { self.w[self.pos] } else { 0 }; self.pos += 1; self.used += 1; x }
  fn next_u64(&mut self) -> u64 { let l = self.next_u32() as u64; l | (self.next_u32() as u64) << 32 }
  fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(4) { let x = self.next_u32(); for i in 0..c.len() { c[i] = (x >> (8 * i)) as u8; } } }
  fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand::CryptoRng for Tape {}
pub fn unit(words: usize, k: usize) -> Vec<u32> { let mut w = vec![0; words]; w[k / 32] = 1 << (k % 32); w }
pub fn flip(w: &[u32], k: usize) -> Vec<u32> { let mut w = w.to_vec(); w[k / 32] ^= 1 << (k % 32); w }
pub type Vals = Vec<u64>;
/// n values in {0, 1}: each is governed by a stream bit of its own, whose flip swaps the value and no other,
/// whatever the stream; so all 2^n outcomes are equally likely
pub fn binary(n: usize, words: usize, j: usize, f: &dyn Fn(&mut Tape) -> Vals) {
  let zero = f(&mut Tape::new(&vec![0; words])); check!(zero.len() == n, 1);
  let mut own = None;
  for k in 0..32 * words { if f(&mut Tape::new(&unit(words, k)))[j] != zero[j] { own = Some(k); break; } }
  check!(own.is_some(), 2); let k = own.unwrap();
  let r: Vec<u32> = (0..words).map(|_| any()).collect();
  let (a, b) = (f(&mut Tape::new(&r)), f(&mut Tape::new(&flip(&r, k))));
  check!(a.len() == n && b.len() == n, 3);
  for i in 0..n { check!(a[i] <= 1, 4); if i == j { check!(a[i] + b[i] == 1, 5); } else { check!(a[i] == b[i], 6); } }
  out(a[j]);
}
/// n values in {0, 1, -1}: each is governed by two stream bits of its own; over their four settings, whatever
/// the rest of the stream, it is 0 twice and 1 and -1 once, and no other value changes
pub fn ternary(n: usize, words: usize, j: usize, minus: u64, f: &dyn Fn(&mut Tape) -> Vals) {
  let (zero, ones) = (vec![0u32; words], vec![!0u32; words]);
  let (z, o) = (f(&mut Tape::new(&zero))[j], f(&mut Tape::new(&ones))[j]);
  let mut own = vec![];
  for k in 0..32 * words { if f(&mut Tape::new(&unit(words, k)))[j] != z || f(&mut Tape::new(&flip(&ones, k)))[j] != o { own.push(k); } }
  check!(own.len() == 2, 11); let (k, l) = (own[0], own[1]);
  let r: Vec<u32> = (0..words).map(|_| any()).collect();
  let s = [r.clone(), flip(&r, k), flip(&r, l), flip(&flip(&r, k), l)];
  let v: Vec<Vals> = s.iter().map(|w| f(&mut Tape::new(w))).collect();
  let (mut n0, mut n1, mut nm) = (0u32, 0u32, 0u32);
  for x in &v { check!(x.len() == n, 12); n0 += (x[j] == 0) as u32; n1 += (x[j] == 1) as u32; nm += (x[j] == minus) as u32;
    for i in 0..n { check!((x[i] == 0) | (x[i] == 1) | (x[i] == minus), 13); if i != j { check!(x[i] == v[0][i], 14); } } }
  check!((n0 == 2) & (n1 == 1) & (nm == 1), 15); out(v[0][j]);
}
