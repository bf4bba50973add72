//! C13: transforms of monomials
use crate::sym::*;
use algebra::{derive::*, transformation::*, *};
macro_rules! fields { ($($n:ident $t:ident, $m:tt);* $(;)?) => { $(
    #[derive(Field, Prime, DecomposableField, FheField, NTT)]
    #[modulus = $m]
    pub struct $n($t);
)* } }
fields! { U8a u8, 17; U8b u8, 41; U16a u16, 12289; U32a u32, 132120577; U64a u64, 1125899906826241; U32z u32, 1073741441; U64z u64, 4611686018427387329; }
fn pw(g: u64, mut e: u64, p: u64) -> u64 { let (mut r, mut b) = (1u64, g); while e > 0 { if e & 1 == 1 { r = (r as u128 * b as u128 % p as u128) as u64; } b = (b as u128 * b as u128 % p as u128) as u64; e >>= 1; } r }
/// the documented position k of the transform holds the value at root^(2*bitrev(k)+1)
fn node(g: u64, k: usize, l: u32, p: u64) -> u64 {
  let r = if l == 0 { 0 } else { (k as u64).reverse_bits() >> (64 - l) };
  pw(g, (2 * r + 1) % (2u64 << l), p)
}
macro_rules! mono { ($($f:ident, $t:ty, $l:expr, $h:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let l: u32 = $l;
    let n = 1usize << l;
    let p = $f::MODULUS_VALUE as u64;
    let tab = $f::get_ntt_table(l).unwrap();
    let g = tab.root().value() as u64;
    let deg = pick(2 * n);
    let c: $t = below($f::MODULUS_VALUE);
    let dirty: $t = below($f::MODULUS_VALUE);
    let mut v = vec![$f::new(dirty); n];
    tab.transform_monomial($f::new(c), deg, &mut v);
    let mut w = vec![$f::new(0); n];
    w[deg % n] = if deg < n { $f::new(c) } else { -$f::new(c) };
    tab.transform_slice(&mut w);
    let mut one = vec![$f::new(dirty); n];
    let mut neg = vec![$f::new(dirty); n];
    tab.transform_coeff_one_monomial(deg, &mut one);
    tab.transform_coeff_neg_one_monomial(deg, &mut neg);
    for k in 0..n {
      let z = pw(node(g, k, l, p), deg as u64, p);
      check!(v[k].value() as u128 == c as u128 * z as u128 % p as u128);
      check!(v[k] == w[k]);
      check!(one[k].value() as u64 == z);
      check!(neg[k].value() as u64 == p - z);
      out(v[k].value() as u64); out(one[k].value() as u64); out(neg[k].value() as u64);
    }
  }
)* } }
//@ c13_t_* nomerge=1 tier=thorough ; every degree below twice the dimension, every coefficient
//@ c13_* nomerge=1 ; every degree below twice the dimension, every coefficient (zero, one and minus one included), any previous content of the destination
mono! { U8a, u8, pick(4) as u32, c13_u8; U8b, u8, pick(3) as u32, c13_u8b; U16a, u16, pick(4) as u32, c13_u16; U32a, u32, pick(4) as u32, c13_u32; U64a, u64, pick(4) as u32, c13_u64;
  U16a, u16, 4, c13_t_u16_4; U32a, u32, 4, c13_t_u32_4; U64a, u64, 4, c13_t_u64_4;
  U32z, u32, 3, c13_u32z; U64z, u64, 3, c13_u64z; }
