//! C04: multiplication by a precomputed factor (Shoup)
use crate::sym::*;
use algebra::{modulus::ShoupFactor, reduce::*, *};

macro_rules! shoup { ($h:ident, $t:ty, $w:ty, $mexp:expr) => {
  #[no_mangle] pub extern "C" fn $h() {
    let m: $t = { let m: u64 = $mexp; fork(m as usize) as $t };
    let mw = m as $w;
    let a: $t = below(m);
    let x: $t = any();
    let f = ShoupFactor::<$t>::new(a, m);
    check!(f.value() == a);
    let q = ((a as $w) << <$t>::BITS) / mw;
    check!(f.quotient() as $w == q);
    cut(f.quotient());
    let l = f.mul_reduce_lazy(x, m);
    let e = a as $w * x as $w % mw;
    check!((l as $w) < 2 * mw); check!(l as $w % mw == e);
    cut(l);
    let r = f.mul_reduce(x, m); check!(r as $w == l as $w % mw);
    let r2 = x.mul_reduce(f, m); check!(r2 as $w == l as $w % mw);
    let mut z = x; z.mul_reduce_assign(f, m); check!(z as $w == l as $w % mw);
    out(f.quotient() as u64); out(l as u64); out(r as u64);
  }
} }
// re-targeting an existing factor gives the factor that a fresh construction gives
macro_rules! set { ($h:ident, $t:ty, $w:ty, $m:expr, $m2:expr) => {
  #[no_mangle] pub extern "C" fn $h() {
    let (m, m2): ($t, $t) = (fork($m) as $t, fork($m2) as $t);
    let a: $t = below(m.min(m2)); let b: $t = below(m2);
    let mut f = ShoupFactor::<$t>::new(a, m);
    f.set_modulus(m2);
    check!(f.value() == a); check!(f.quotient() as $w == ((a as $w) << <$t>::BITS) / m2 as $w);
    f.set(b, m2);
    check!(f.value() == b); check!(f.quotient() as $w == ((b as $w) << <$t>::BITS) / m2 as $w);
    out(f.quotient() as u64);
  }
} }
//@ c04_shoup_* ; every factor, every operand word (u8: every modulus up to 2^7; others: the stated modulus, below half the word range)
shoup!(c04_shoup_u8_all, u8, u32, 1 + upto(127u64));
shoup!(c04_shoup_u16_2, u16, u64, 2);
shoup!(c04_shoup_u16_12289, u16, u64, 12289);
shoup!(c04_shoup_u16_max, u16, u64, 32768);
shoup!(c04_shoup_u32_3, u32, u128, 3);
shoup!(c04_shoup_u32_65537, u32, u128, 65537);
shoup!(c04_shoup_u32_132120577, u32, u128, 132120577);
shoup!(c04_shoup_u32_max, u32, u128, 2147483647);
shoup!(c04_shoup_u64_7, u64, u128, 7);
shoup!(c04_shoup_u64_4294967297, u64, u128, 4294967297);
shoup!(c04_shoup_u64_50, u64, u128, 1125899906826241);
shoup!(c04_shoup_u64_max, u64, u128, 9223372036854775783);
//@ c04_set_* ; every factor
set!(c04_set_u8, u8, u32, 61, 127);
set!(c04_set_u16, u16, u64, 12289, 257);
set!(c04_set_u32, u32, u128, 132120577, 2147483647);
set!(c04_set_u64, u64, u128, 1125899906826241, 4611686018427387847);
