//! C12: number-theoretic transform
use crate::sym::*;
use algebra::modulus::ShoupFactor;
use algebra::{derive::*, transformation::*, *};
macro_rules! fields { ($($n:ident $t:ident, $m:tt);* $(;)?) => { $(
    #[derive(Field, Prime, DecomposableField, FheField, NTT)]
    #[modulus = $m]
    pub struct $n($t);
)* } }
fields! { U8a u8, 17; U8b u8, 41; U16a u16, 12289; U32a u32, 132120577; U64a u64, 1125899906826241; U16z u16, 16193; U32z u32, 1073741441; U64z u64, 4611686018427387329; }
fn pw(g: u64, mut e: u64, p: u64) -> u64 { let (mut r, mut b) = (1u64, g); while e > 0 { if e & 1 == 1 { r = (r as u128 * b as u128 % p as u128) as u64; } b = (b as u128 * b as u128 % p as u128) as u64; e >>= 1; } r }

/// the documented position k of the transform holds the value at root^(2*bitrev(k)+1)
fn node(g: u64, k: usize, l: u32, p: u64) -> u64 {
  let e = (2 * (k as u64).reverse_bits().wrapping_shr(64 - l) + 1) % (2u64 << l);
  pw(g, e, p)
}
fn primitive(g: u64, n: u64, p: u64) -> bool { pw(g, n, p) == p - 1 }
macro_rules! fwd { ($($f:ident, $t:ty, $w:ty, $l:literal, $m:literal, $h:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    const N: usize = 1 << $l;
    let p = $f::MODULUS_VALUE as u64;
    let tab = $f::get_ntt_table($l).unwrap();
    let g = tab.root().value() as u64;
    check!(primitive(g, N as u64, p));
    let mut x = [0 as $t; N]; for v in x.iter_mut() { *v = below((p * $m) as $t); }
    let mut v: Vec<$f> = x.iter().map(|&a| $f::lazy_new(a)).collect();
    tab.transform_slice(&mut v);
    for k in 0..N {
      let z = node(g, k, $l, p);
      let mut s: $w = 0;
      for j in 0..N { s += x[j] as $w * pw(z, j as u64, p) as $w; }
      check!(v[k].value() as $w == s % p as $w);
      out(v[k].value() as u64);
    }
  }
)* } }
//@ c12_fwd_* ; every vector of canonical coefficients
//@ c12_fwdlazy_* ; every vector of coefficients below four times the prime (the documented input range)
fwd! { U8a, u8, u32, 1, 1, c12_fwd_u8_1; U8a, u8, u32, 2, 1, c12_fwd_u8_2; U32a, u32, u64, 2, 1, c12_fwd_u32_2; U64a, u64, u128, 2, 1, c12_fwd_u64_2;
 U32a, u32, u64, 3, 1, c12_fwd_u32_3; U64a, u64, u128, 4, 1, c12_fwd_u64_4; U16a, u16, u64, 5, 1, c12_fwd_u16_5;
 U8a, u8, u32, 2, 4, c12_fwdlazy_u8_2; U16a, u16, u64, 3, 4, c12_fwdlazy_u16_3; U32a, u32, u64, 3, 4, c12_fwdlazy_u32_3; U64a, u64, u128, 3, 4, c12_fwdlazy_u64_3;
 U16z, u16, u64, 3, 4, c12_fwdlazy_u16z_3; U32z, u32, u128, 3, 4, c12_fwdlazy_u32z_3; U64z, u64, u128, 2, 4, c12_fwdlazy_u64z_2; U8b, u8, u64, 2, 4, c12_fwdlazy_u8b_2; }
macro_rules! inv { ($($f:ident, $t:ty, $w:ty, $l:literal, $m:literal, $h:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    const N: usize = 1 << $l;
    let p = $f::MODULUS_VALUE as u64;
    let tab = $f::get_ntt_table($l).unwrap();
    let g = tab.root().value() as u64;
    check!(primitive(g, N as u64, p));
    let ninv = pw(N as u64, p - 2, p);
    let mut x = [0 as $t; N]; for v in x.iter_mut() { *v = below((p * $m) as $t); }
    let mut v: Vec<$f> = x.iter().map(|&a| $f::lazy_new(a)).collect();
    tab.inverse_transform_slice(&mut v);
    for j in 0..N {
      let mut s: $w = 0;
      for k in 0..N {
        let zi = pw(node(g, k, $l, p), 2 * N as u64 - 1, p);
        s += x[k] as $w * ((pw(zi, j as u64, p) as u128 * ninv as u128 % p as u128) as $w);
      }
      check!(v[j].value() as $w == s % p as $w);
      out(v[j].value() as u64);
    }
  }
)* } }
//@ c12_inv_* ; every vector of canonical values
//@ c12_invlazy_* ; every vector of values below twice the prime (the documented input range)
inv! { U8a, u8, u32, 1, 1, c12_inv_u8_1; U8a, u8, u32, 2, 1, c12_inv_u8_2; U32a, u32, u64, 2, 1, c12_inv_u32_2; U64a, u64, u128, 2, 1, c12_inv_u64_2;
 U32a, u32, u64, 3, 1, c12_inv_u32_3; U64a, u64, u128, 4, 1, c12_inv_u64_4; U16a, u16, u64, 4, 1, c12_inv_u16_4;
 U8a, u8, u32, 2, 2, c12_invlazy_u8_2; U16a, u16, u64, 3, 2, c12_invlazy_u16_3; U32a, u32, u64, 3, 2, c12_invlazy_u32_3; U64a, u64, u128, 3, 2, c12_invlazy_u64_3;
 U16z, u16, u64, 3, 2, c12_invlazy_u16z_3; U32z, u32, u64, 3, 2, c12_invlazy_u32z_3; U64z, u64, u128, 3, 2, c12_invlazy_u64z_3; U8b, u8, u64, 2, 2, c12_invlazy_u8b_2; }
macro_rules! round { ($($f:ident, $t:ty, $l:literal, $h:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    const N: usize = 1 << $l;
    let p = $f::MODULUS_VALUE;
    let tab = $f::get_ntt_table($l).unwrap();
    let mut x = [0 as $t; N]; for v in x.iter_mut() { *v = below(p); }
    let poly = Polynomial::<$f>::from_slice(&x.map($f::new));
    let mut sl: Vec<$f> = x.iter().map(|&a| $f::new(a)).collect();
    tab.transform_slice(&mut sl);
    let a = tab.transform(&poly);
    let b = tab.transform_inplace(poly.clone());
    for i in 0..N { check!(a.as_slice()[i] == sl[i]); check!(b.as_slice()[i] == sl[i]); }
    let back = tab.inverse_transform(&a);
    let back2 = tab.inverse_transform_inplace(b);
    tab.inverse_transform_slice(&mut sl);
    for i in 0..N {
      check!(back.as_slice()[i].value() == x[i]);
      check!(back2.as_slice()[i].value() == x[i]);
      check!(sl[i].value() == x[i]);
      out(sl[i].value() as u64);
    }
  }
)* } }
//@ c12_round_* ; owned, borrowed and slice forms; every vector of canonical coefficients
round! { U8a, u8, 0, c12_round_u8_0; U32a, u32, 0, c12_round_u32_0; U8a, u8, 2, c12_round_u8_2; U16a, u16, 2, c12_round_u16_2; U32a, u32, 2, c12_round_u32_2; U64a, u64, 2, c12_round_u64_2; U32a, u32, 3, c12_round_u32_3; }


macro_rules! prod { ($($f:ident, $t:ty, $l:literal, $j:expr, $h:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    const N: usize = 1 << $l;
    let p = $f::MODULUS_VALUE;
    let tab = $f::get_ntt_table($l).unwrap();
    let mut x = [0 as $t; N]; for v in x.iter_mut() { *v = below(p); }
    // second operand: one basis vector (products are bilinear), or a fixed dense vector for j = N
    let j: usize = $j;
    let mut y = [0 as $t; N]; for (i, v) in y.iter_mut().enumerate() { *v = if j == N { (p - 3) / (i as $t + 1) } else { (i == j) as $t }; }
    let a = tab.transform(&Polynomial::<$f>::from_slice(&x.map($f::new)));
    let b = tab.transform(&Polynomial::<$f>::from_slice(&y.map($f::new)));
    let mut d = vec![$f::new(0); N];
    // the exact product of residues (that field multiplication computes it is C01)
    for k in 0..N { d[k] = $f::new((a.as_slice()[k].value() as u128 * b.as_slice()[k].value() as u128 % p as u128) as $t); }
    tab.inverse_transform_slice(&mut d);
    for k in 0..N {
      let mut s: u128 = 0;
      for i in 0..N { for j in 0..N {
        if (i + j) % N == k { s += x[i] as u128 * if i + j < N { y[j] as u128 } else { p as u128 - y[j] as u128 }; }
      } }
      check!(d[k].value() as u128 == s % p as u128);
      out(d[k].value() as u64);
    }
  }
)* } }
//@ c12_prod_* ; first operand arbitrary, second operand each basis vector and one dense vector
prod! { U8a, u8, 2, 4, c12_prod_u8_2; U32a, u32, 2, 4, c12_prod_u32_2; U64a, u64, 2, 4, c12_prod_u64_2; U16a, u16, 3, 8, c12_prod_u16_3;
  U32a, u32, 2, pick(4), c12_prod_u32_2e; U16a, u16, 3, pick(8), c12_prod_u16_3e; }

// roots and tables
/// the next n words of the thread generator are arbitrary, split by the residue they select
fn draws(p: u64, n: usize) {
  let r = p - 2; // candidates 2..p
  for i in 0..n {
    let k = pick(r as usize) as u64;
    let lo = ((k << 32) + r - 1) / r;
    let hi = (((k + 1) << 32) + r - 1) / r;
    unsafe { rand_chacha::WORDS[i] = lo as u32 + below((hi - lo) as u32); }
  }
  unsafe { rand_chacha::CORE = n; }
}
macro_rules! isroot { ($($f:ident, $t:ty, $h:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let p = $f::MODULUS_VALUE;
    let r = fork(below(p as usize)) as $t;
    let l = 1 + pick(4);
    let is = <$f as NTTField>::is_primitive_root($f::new(r), 1 << l);
    check!(is == primitive(r as u64, 1 << (l - 1), p as u64));
    out(is as u64);
  }
)* } }
//@ c12_isroot_* ; every residue, degrees 2 to 16
isroot! { U8a, u8, c12_isroot_u8; U8b, u8, c12_isroot_u8b; }
macro_rules! tryroot { ($($f:ident, $t:ty, $l:expr, $h:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    draws($f::MODULUS_VALUE as u64, 2);
    let p = $f::MODULUS_VALUE as u64;
    let d: $t = 1 << ($l);
    match <$f as NTTField>::try_primitive_root(d) {
      Ok(w) => { check!((p - 1) % d as u64 == 0); check!(primitive(w.value() as u64, d as u64 / 2, p)); }
      Err(_) => { check!((p - 1) % d as u64 != 0); out(1) }
    }
  }
)* } }
//@ c12_root_* nomerge=1 ; two arbitrary words of the thread generator, then a fixed stream; all degrees up to 32
tryroot! { U8a, u8, 1 + pick(5), c12_root_u8; }
macro_rules! minroot { ($($f:ident, $t:ty, $l:expr, $h:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    draws($f::MODULUS_VALUE as u64, 1);
    let p = $f::MODULUS_VALUE as u64;
    let l = $l;
    let d: $t = 1 << l;
    let w = <$f as NTTField>::try_minimal_primitive_root(d).unwrap().value() as u64;
    let mut m = 0u64;
    let mut i = p - 1;
    while i > 0 { if primitive(i, d as u64 / 2, p) { m = i; } i -= 1; }
    check!(w == m);
    out(w);
  }
)* } }
//@ c12_minroot_* nomerge=1 ; one arbitrary word of the thread generator
minroot! { U8a, u8, 1 + pick(4), c12_minroot_u8; U8b, u8, 3, c12_minroot_u8b; }
macro_rules! table { ($($f:ident, $t:ty, $max:literal, $h:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    draws($f::MODULUS_VALUE as u64, 1);
    let p = $f::MODULUS_VALUE as u64;
    let l = pick($max) as u32;
    let n = 1usize << l;
    let q = |f: ShoupFactor<$t>| -> bool { f.quotient() as u128 == ((f.value() as u128) << <$t>::BITS) / p as u128 };
    let t = $f::get_ntt_table(l).unwrap();
    let g = t.root().value() as u64;
    check!(primitive(g, n as u64, p));
    check!(AbstractNTT::root(&*t).value() as u64 == g);
    check!(t.inv_root().value() as u64 == pw(g, p - 2, p));
    check!(t.coeff_count() == n && t.coeff_count_power() == l);
    check!(t.inv_degree().value() as u64 * n as u64 % p == 1 && q(t.inv_degree()));
    check!(t.ordinal_root_powers().len() == 2 * n);
    for i in 0..2 * n { let r = t.ordinal_root_powers()[i]; check!(r.value() as u64 == pw(g, i as u64, p) && q(r)); }
    check!(t.root_powers().len() == n && t.inv_root_powers().len() == n);
    let rev = |i: usize| if l == 0 { 0 } else { i.reverse_bits() >> (64 - l) };
    for i in 1..n {
      check!(t.root_powers()[rev(i)].value() as u64 == pw(g, i as u64, p) && q(t.root_powers()[rev(i)]));
      let r = t.inv_root_powers()[1 + rev(i - 1)];
      check!(r.value() as u64 == pw(g, 2 * n as u64 - i as u64, p) && q(r));
    }
    // a second request returns the same table
    let t2 = $f::get_ntt_table(l).unwrap();
    check!(std::sync::Arc::ptr_eq(&t, &t2));
    out(g);
  }
)* } }
//@ c12_table_* nomerge=1 ; one arbitrary word of the thread generator; every dimension up to the largest the small prime admits
table! { U8a, u8, 4, c12_table_u8; U8b, u8, 3, c12_table_u8b; }
macro_rules! inits { ($($f:ident, $t:ty, $a:expr, $b:expr, $h:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let a = [pick($a) as u32, pick($a) as u32];
    check!($f::init_ntt_table(&a).is_ok());
    let b = [pick($a) as u32];
    check!($f::init_ntt_table(&b).is_ok());
    for l in [a[0], a[1], b[0]] {
      let t = $f::get_ntt_table(l).unwrap();
      check!(t.coeff_count_power() == l && primitive(t.root().value() as u64, 1 << l, $f::MODULUS_VALUE as u64));
    }
    // a dimension the prime does not admit is refused
    check!($f::get_ntt_table($b).is_err());
    out(0);
  }
)* } }
//@ c12_init_* ; every pair of dimensions, then a third
inits! { U8a, u8, 3, 4, c12_init_u8; }
