//! C08: wide word arithmetic
use crate::sym::*;
use algebra::*;

macro_rules! wide { ($h:ident, $t:ty, $w:ty) => {
  #[no_mangle] pub extern "C" fn $h() {
    let (a, b, k): ($t, $t, $t) = (any(), any(), any());
    let c = any::<u8>() & 1 == 1;
    let (aw, bw, kw, b2) = (a as $w, b as $w, k as $w, 1 as $w << <$t>::BITS);
    let (s, o) = CarryingAdd::carrying_add(a, b, c);
    let e = aw + bw + c as $w;
    check!(s as $w == e % b2); check!(o == (e >= b2));
    let (d, o2) = BorrowingSub::borrowing_sub(a, b, c);
    let e = b2 + aw - bw - c as $w;
    check!(d as $w == e % b2); check!(o2 == (e < b2));
    let (l, h) = WideningMul::widening_mul(a, b);
    check!(l as $w == aw * bw % b2); check!(h as $w == aw * bw / b2);
    check!(WideningMul::widening_mul_hw(a, b) == h);
    let (l2, h2) = CarryingMul::carrying_mul(a, b, k);
    check!(l2 as $w == (aw * bw + kw) % b2); check!(h2 as $w == (aw * bw + kw) / b2);
    check!(CarryingMul::carrying_mul_hw(a, b, k) == h2);
    out(s as u64); out(o as u64); out(d as u64); out(o2 as u64); out(l as u64); out(h as u64); out(l2 as u64); out(h2 as u64);
    // generic wrapping operations
    fn w<T: WrappingOps>(a: T, b: T, n: u32) -> [T; 6] { [a.wrapping_add(b), a.wrapping_sub(b), a.wrapping_mul(b), a.wrapping_neg(), a.wrapping_shl(n), a.wrapping_shr(n)] }
    let n: u32 = any();
    let r = w(a, b, n);
    check!(r[0] as $w == (aw + bw) % b2); check!(r[1] as $w == (b2 + aw - bw) % b2); check!(r[2] as $w == aw * bw % b2);
    check!(r[3] as $w == (b2 - aw) % b2);
    let sh = n % <$t>::BITS;
    check!(r[4] as $w == (aw << sh) % b2); check!(r[5] as $w == aw >> sh);
    out(r[4] as u64); out(r[5] as u64);
    let q = w(core::num::Wrapping(a), core::num::Wrapping(b), n);
    let mut i = 0; while i < 6 { check!(q[i].0 == r[i], 900 + i as u32); i += 1; }
    check!(<$t as Bits>::BITS == <$t>::BITS); check!(<$t as ConstBounded>::MAX == !0); check!(<$t as ConstBounded>::MIN == 0);
  }
} }
//@ c08_wide_* ; every operand word, carry and borrow bit, straight-line
wide!(c08_wide_u8, u8, u32);
wide!(c08_wide_u16, u16, u64);
wide!(c08_wide_u32, u32, u128);
wide!(c08_wide_u64, u64, u128);

// primitive casts keep the value modulo the target range
macro_rules! casts { ($h:ident, $t:ty) => {
  #[no_mangle] pub extern "C" fn $h() {
    let a: $t = any();
    fn c<T: AsCast>(a: T) -> [u64; 6] { [as_cast::<T, u8>(a) as u64, as_cast::<T, u16>(a) as u64, as_cast::<T, u32>(a) as u64, as_cast::<T, u64>(a), as_cast::<T, usize>(a) as u64, as_cast::<T, u128>(a) as u64] }
    let r = c(a); let v = a as u64;
    check!(r[0] == v % 256); check!(r[1] == v % 65536); check!(r[2] == v % (1 << 32)); check!(r[3] == v); check!(r[4] == v); check!(r[5] == v);
    check!(as_cast::<$t, i64>(a) == v as i64); check!(as_cast::<$t, i8>(a) == a as i8); check!(as_cast::<$t, i128>(a) == v as i128);
    out(r[0]);
  }
} }
//@ c08_cast_* ; every word
casts!(c08_cast_u8, u8); casts!(c08_cast_u16, u16); casts!(c08_cast_u32, u32); casts!(c08_cast_u64, u64);

harness!(c08_wrap128, {
    let f = || any::<u64>() as u128 | (any::<u64>() as u128) << 64;
    let (a, b) = (f(), f()); let n: u32 = any();
    check!(WrappingAdd::wrapping_add(a, b) == a.wrapping_add(b));
    check!(WrappingSub::wrapping_sub(a, b) == a.wrapping_sub(b));
    check!(WrappingNeg::wrapping_neg(a) == 0u128.wrapping_sub(a));
    check!(WrappingShl::wrapping_shl(a, n) == a << (n % 128)); check!(WrappingShr::wrapping_shr(a, n) == a >> (n % 128));
    out(WrappingShr::wrapping_shr(a, n) as u64);
});
