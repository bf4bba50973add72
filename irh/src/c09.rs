//! C09: gcd, extended gcd, modular inverses
use crate::sym::*;
use algebra::{modulus::BarrettModulus, reduce::*, utils::ExtendedGCD};

macro_rules! gcd { ($h:ident, $t:ty, $x:expr, $y:expr) => {
  #[no_mangle] pub extern "C" fn $h() {
    let (x, y): ($t, $t) = ($x, $y);
    let g = x.gcd(y);
    let d: $t = $y; assume(d != 0);
    if x == 0 && y == 0 { check!(g == 0); out(0); return; }
    check!(g != 0);
    check!(x % g == 0); check!(y % g == 0);
    // any common divisor divides the result
    check!(!((x % d == 0) & (y % d == 0)) | (g % d == 0));
    check!(x.coprime(y) == (g == 1)); check!(x.not_coprime(y) == (g > 1));
    out(g as u64);
  }
} }
//@ c09_gcd_* enc=["bv"] loopmerge=1 ; all pairs (x, y), every candidate divisor: u8 any x, y <= 127 (thorough: 255); wider words x, y <= 31, and x within 8 of the word maximum with y <= 7
gcd!(c09_gcd_u8, u8, any(), upto(127));
//@ c09_gcd_u8t tier=thorough
gcd!(c09_gcd_u8t, u8, any(), any());
gcd!(c09_gcd_u16, u16, upto(31), upto(31));
gcd!(c09_gcd_u32, u32, upto(31), upto(31));
gcd!(c09_gcd_u64, u64, upto(31), upto(31));
gcd!(c09_gcd_u16b, u16, !0 - upto(7), upto(7));

macro_rules! egcd { ($h:ident, $t:ty, $w:ty, $x:expr, $y:expr) => {
  #[no_mangle] pub extern "C" fn $h() {
    let (x, y): ($t, $t) = ($x, $y);
    assume(x != 0 && y != 0);
    let (a, b, g) = <$t>::extended_gcd(x, y);
    check!(g != 0);
    let d: $t = $y; assume(d != 0);
    check!(x % g == 0); check!(y % g == 0);
    check!(!((x % d == 0) & (y % d == 0)) | (g % d == 0));
    check!(a as $w * x as $w + b as $w * y as $w == g as $w);
    out(a as u64); out(b as u64); out(g as u64);
  }
} }
//@ c09_egcd_* enc=["bv"] loopmerge=1 ; all pairs of positive words up to 31 (u8 thorough: up to 63, the largest range for which the coefficients fit the signed type)
egcd!(c09_egcd_u8, u8, i32, upto(31), upto(31));
//@ c09_egcd_u8t tier=thorough
egcd!(c09_egcd_u8t, u8, i32, upto(63), upto(63));
egcd!(c09_egcd_u16, u16, i64, upto(15), upto(15));
egcd!(c09_egcd_u32, u32, i64, upto(7), upto(15));
egcd!(c09_egcd_u64, u64, i128, upto(7), upto(7));
egcd!(c09_egcd_u8m, u8, i32, 56 + upto(7), 56 + upto(7));
//@ c09_egcd_u16m tier=thorough
egcd!(c09_egcd_u16m, u16, i64, (1 << 14) - 1 - upto(3), upto(7));

macro_rules! inv { ($h:ident, $g:ident, $t:ty, $b:expr) => {
  #[no_mangle] pub extern "C" fn $h() {
    let (m, x): ($t, $t) = (upto($b), upto($b));
    assume(m > 1 && x < m);
    match x.try_inv_reduce(m) {
      Ok(i) => { check!(i < m); check!(i as u64 * x as u64 % m as u64 == 1); out(i as u64); }
      Err(_) => {
        // no inverse exists
        let i: $t = upto($b);
        check!(i as u64 * x as u64 % m as u64 != 1); out(999);
      }
    }
  }
  #[no_mangle] pub extern "C" fn $g() {
    let (m, x): ($t, $t) = (2 + pick($b - 1) as $t, upto($b));
    assume(x < m);
    // a witness that an inverse exists
    let j: $t = upto($b); assume(j as u64 * x as u64 % m as u64 == 1);
    let i: $t = x.inv_reduce(m);
    check!(i < m); check!(i as u64 * x as u64 % m as u64 == 1);
    let md = BarrettModulus::<$t>::new(m);
    let k: $t = x.inv_reduce(md); check!(k == i);
    let mut k: $t = x; k.inv_reduce_assign(md); check!(k == i);
    let a: $t = upto($b); assume(a < m);
    let q: $t = a.div_reduce(x, md); check!(q < m); check!(q as u64 * x as u64 % m as u64 == a as u64);
    let mut q2: $t = a; q2.div_reduce_assign(x, md); check!(q2 == q);
    out(i as u64); out(q as u64);
  }
} }
//@ c09_tryinv_* enc=["bv"] loopmerge=1 ; every modulus up to 15 (wider words: 7; thorough: 31 and 15), every residue
//@ c09_inv_* enc=["bv"] loopmerge=1 ; every modulus up to 15 (wider words: 7; thorough: 31 and 15), every invertible residue, every dividend
//@ c09_tryinv_u8t tier=thorough
//@ c09_tryinv_u32t tier=thorough
//@ c09_inv_u8t tier=thorough
//@ c09_inv_u32t tier=thorough
inv!(c09_tryinv_u8, c09_inv_u8, u8, 15);
inv!(c09_tryinv_u16, c09_inv_u16, u16, 7);
inv!(c09_tryinv_u32, c09_inv_u32, u32, 7);
inv!(c09_tryinv_u64, c09_inv_u64, u64, 7);
inv!(c09_tryinv_u8t, c09_inv_u8t, u8, 31);
inv!(c09_tryinv_u32t, c09_inv_u32t, u32, 15);
// a non-invertible residue must not yield a value
macro_rules! noinv { ($h:ident, $t:ty, $b:expr) => {
  #[no_mangle] pub extern "C" fn $h() {
    let (m, x): ($t, $t) = (upto($b), upto($b));
    assume(m > 1 && x < m);
    let d: $t = upto($b); assume(d > 1 && x % d == 0 && m % d == 0);
    panic_ok(true);
    let i: $t = x.inv_reduce(m);
    check!(false); out(i as u64);
  }
} }
//@ c09_noinv_* enc=["bv"] loopmerge=1 nocheck=1 ; every modulus up to 15, every residue sharing a factor with it
noinv!(c09_noinv_u8, u8, 15);
