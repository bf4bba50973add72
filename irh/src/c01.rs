//! C01: derived prime-field arithmetic equals arithmetic modulo the declared prime
use crate::sym::*;
use algebra::{derive::*, modulus::*, *};
use num_traits::{Inv, One, Pow, Zero, ConstOne, ConstZero};

macro_rules! fields { ($($n:ident $t:ident, $m:tt);* $(;)?) => { $(
    #[derive(Field, Prime, DecomposableField, FheField)]
    #[modulus = $m]
    pub struct $n($t);
)* } }
fields! {
    U8a u8, 61; U8b u8, 3; U8c u8, 37;
    U16a u16, 12289; U16b u16, 16381; U16c u16, 257;
    U32a u32, 132120577; U32b u32, 1073741789; U32c u32, 7681;
    U64a u64, 1125899906826241; U64b u64, 4611686018427387847; U64c u64, 17;
}

macro_rules! ops { ($($f:ident, $t:ty, $w:ty, $m:literal, $h:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    const M: $w = $m;
    // every raw value maps to its residue
    let raw: $t = any();
    let fr = $f::new(raw);
    check!(fr.value() as $w == raw as $w % M);
    let (a, b): ($t, $t) = (below($m), below($m));
    let (x, y) = ($f::new(a), $f::new(b));
    check!(x.value() == a);
    let s = ((a as $w + b as $w) % M) as $t;
    let d = ((a as $w + M - b as $w) % M) as $t;
    let p = ((a as $w * b as $w) % M) as $t;
    let n = ((M - a as $w) % M) as $t;
    check!((x + y).value() == s); check!((x + &y).value() == s);
    check!((x - y).value() == d); check!((x - &y).value() == d);
    check!((x * y).value() == p); check!((x * &y).value() == p);
    let mut z = x; z += y; check!(z.value() == s); let mut z = x; z += &y; check!(z.value() == s);
    let mut z = x; z -= y; check!(z.value() == d); let mut z = x; z -= &y; check!(z.value() == d);
    let mut z = x; z *= y; check!(z.value() == p); let mut z = x; z *= &y; check!(z.value() == p);
    check!((-x).value() == n);
    check!((x == y) == (a == b)); check!((x < y) == (a < b)); check!(x.is_zero() == (a == 0)); check!(x.is_one() == (a == 1));
    check!($f::ZERO.value() == 0); check!($f::ONE.value() == 1); check!($f::NEG_ONE.value() == $m - 1);
    check!($f::zero().value() == 0); check!($f::one().value() == 1); check!($f::neg_one().value() == $m - 1);
    check!($f::max().value() == $m - 1); check!($f::MODULUS_VALUE == $m); check!(x.is_neg_one() == (a == $m - 1));
    let mut q = x; q.set_zero(); check!(q.value() == 0); q.set_one(); check!(q.value() == 1); q.set_neg_one(); check!(q.value() == $m - 1);
    check!($f::default().value() == 0);
    out((x * y).value() as u64); out((x - y).value() as u64); out(fr.value() as u64);
  }
)* } }
//@ c01_ops_* ; all residue pairs and all raw values of the word type, straight-line, no loop bound
ops! {
    U8a, u8, u32, 61, c01_ops_u8_61; U8b, u8, u32, 3, c01_ops_u8_3; U8c, u8, u32, 37, c01_ops_u8_37;
    U16a, u16, u32, 12289, c01_ops_u16_12289; U16b, u16, u32, 16381, c01_ops_u16_16381; U16c, u16, u32, 257, c01_ops_u16_257;
    U32a, u32, u64, 132120577, c01_ops_u32_132120577; U32b, u32, u64, 1073741789, c01_ops_u32_max; U32c, u32, u64, 7681, c01_ops_u32_7681;
    U64a, u64, u128, 1125899906826241, c01_ops_u64_50; U64b, u64, u128, 4611686018427387847, c01_ops_u64_max; U64c, u64, u128, 17, c01_ops_u64_17;
}

macro_rules! inv { ($($f:ident, $t:ty, $m:literal, $eb:literal, $h:ident, $g:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let (a, b): ($t, $t) = (below($m), below($m));
    assume(b != 0);
    let (x, y) = ($f::new(a), $f::new(b));
    let i = y.inv().value();
    check!(i < $m);
    check!((i as u32 * b as u32) % $m == 1);
    let q = (x / y).value();
    check!(q < $m);
    check!((q as u32 * b as u32) % $m == a as u32);
    check!((x / &y).value() == q);
    let mut z = x; z /= y; check!(z.value() == q);
    let mut z = x; z /= &y; check!(z.value() == q);
    out(i as u64); out(q as u64);
  }
  #[no_mangle] pub extern "C" fn $g() {
    let a: $t = below($m);
    let e: $t = any(); assume(e <= $eb);
    let x = $f::new(a);
    let r = x.pow(e).value();
    // reference: left-to-right square and multiply with plain remainders
    let mut s: u32 = 1;
    for k in (0..<$t>::BITS).rev() { s = s * s % $m; let t = s * a as u32 % $m; s = if (e >> k) & 1 == 1 { t } else { s }; }
    check!(r as u32 == s);
    out(r as u64);
  }
)* } }
//@ c01_inv_* enc=["bv"] ; every dividend, every non-zero divisor (word 8 bit); Fermat exponent loop unrolled completely
//@ c01_pow_* enc=["bv"] ; every base; every exponent up to the bound (61: 31, 37: 63, 3: 255)
//@ c01_powl_* enc=["bv"] tier=thorough ; every base and every 8-bit exponent
inv! { U8a, u8, 61, 31, c01_inv_61, c01_pow_61; U8b, u8, 3, 255, c01_inv_3, c01_pow_3; U8c, u8, 37, 63, c01_inv_37, c01_pow_37 }
inv! { U8a, u8, 61, 255, c01_invl_61, c01_powl_61; U8c, u8, 37, 255, c01_invl_37, c01_powl_37 }

// square-and-multiply over the free cyclic monoid: an element is the exponent it stands for
#[derive(Clone, Copy, PartialEq, PartialOrd)]
#[repr(transparent)]
pub struct Free(u64);
impl core::ops::Mul for Free { type Output = Free; fn mul(self, o: Free) -> Free { Free(self.0 + o.0) } }
impl One for Free { fn one() -> Free { Free(0) } }
impl reduce::MulReduce<BarrettModulus<Free>> for Free { type Output = Free; #[inline(always)] fn mul_reduce(self, o: Free, _: BarrettModulus<Free>) -> Free { Free(self.0 + o.0) } }
fn free_modulus() -> BarrettModulus<Free> { unsafe { core::mem::transmute(BarrettModulus::<u64>::new(1 << 60)) } }
use reduce::{ExpPowOf2Reduce, ExpReduce};
macro_rules! freepow { ($($h:ident, $t:ty);*) => { $( harness!($h, {
    let e: $t = any();
    assume((e as u64) < 1 << 59);
    let r = Free(1).exp_reduce(e, free_modulus());
    check!(r.0 == e as u64);
    out(r.0);
}); )* } }
//@ c01_invl_* tier=thorough enc=["bv"] ; as c01_inv
//@ c01_exp* enc=["bv"] ; every exponent of the word type; the group is the free cyclic monoid, so the result holds for every modulus and base
//@ c01_expl_u64 tier=thorough ; every exponent below 2^59
freepow!(c01_exp_u8, u8; c01_exp_u16, u16; c01_exp_u32, u32; c01_expl_u64, u64);
harness!(c01_exp_pow2, {
    let k = pick(58);
    check!(Free(1).exp_power_of_2_reduce(k as u32, free_modulus()).0 == 1u64 << k);
    out(k as u64);
});
