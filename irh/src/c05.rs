//! C05: arithmetic modulo a power of two
use crate::sym::*;
use algebra::{modulus::PowOf2Modulus, reduce::*};

macro_rules! pow2 { ($h:ident, $c:ident, $e:ident, $d:ident, $t:ty, $w:ty, $n:literal) => {
  #[no_mangle] pub extern "C" fn $h() {
    let k = 1 + pick(<$t>::BITS as usize - 1);
    let m: $t = 1 << k; let mw = m as $w;
    let md = PowOf2Modulus::<$t>::new(m);
    check!(md.value() == m); check!(md.mask() == m - 1);
    let x: $t = any();
    check!(x.reduce(md) as $w == x as $w % mw);
    let mut z = x; z.reduce_assign(md); check!(z as $w == x as $w % mw);
    let (a, b): ($t, $t) = (below(m), below(m));
    let (aw, bw) = (a as $w, b as $w);
    check!(a.add_reduce(b, md) as $w == (aw + bw) % mw);
    check!(a.sub_reduce(b, md) as $w == (aw + mw - bw) % mw);
    check!(a.neg_reduce(md) as $w == (mw - aw) % mw);
    check!(a.mul_reduce(b, md) as $w == (aw * bw) % mw);
    let mut z = a; z.add_reduce_assign(b, md); check!(z as $w == (aw + bw) % mw);
    let mut z = a; z.sub_reduce_assign(b, md); check!(z as $w == (aw + mw - bw) % mw);
    let mut z = a; z.neg_reduce_assign(md); check!(z as $w == (mw - aw) % mw);
    let mut z = a; z.mul_reduce_assign(b, md); check!(z as $w == (aw * bw) % mw);
    out(a.mul_reduce(b, md) as u64);
  }
  #[no_mangle] pub extern "C" fn $c() {
    let v: $t = any();
    let mut good = false;
    for k in 1..<$t>::BITS { good |= v == 1 << k; }
    panic_ok(!good);
    let md = PowOf2Modulus::<$t>::new(v);
    check!(good); check!(md.mask() == v - 1);
    out(md.mask() as u64);
  }
  #[no_mangle] pub extern "C" fn $d() {
    let k = 1 + pick(<$t>::BITS as usize - 1);
    let md = PowOf2Modulus::<$t>::new(1 << k);
    let (a, b): ([$t; $n], [$t; $n]) = (arr(), arr());
    let len = pick($n + 1);
    let mut e: $t = 0;
    for i in 0..len { e = e.wrapping_add(a[i].wrapping_mul(b[i])); }
    let r = <$t>::dot_product_reduce(&a[..len], &b[..len], md);
    check!(r == e % (1 << k));
    out(r as u64);
  }
  #[no_mangle] pub extern "C" fn $e() {
    let k = 1 + pick(<$t>::BITS as usize - 1);
    let md = PowOf2Modulus::<$t>::new(1 << k);
    let a: $t = below(1 << k); let n = pick(17) as u32;
    let mut s: $t = 1; for _ in 0..n { s = s.wrapping_mul(a) & md.mask(); }
    let r: $t = a.exp_reduce(n, md); check!(r == s);
    let mut s: $t = a; for _ in 0..n { s = s.wrapping_mul(s) & md.mask(); }
    let r: $t = a.exp_power_of_2_reduce(n, md); check!(r == s);
    out(r as u64);
  }
} }
//@ c05_ops_* ; every operand, every power-of-two modulus of the word type
//@ c05_new_* enc=["bv"] ; every word
//@ c05_dot_* ; vector lengths 0..=n (u8/u16/u32: 6; u64: 4), arbitrary words, every modulus
//@ c05_exp_* tier=thorough ; exponents 0..=16, every base, every modulus
pow2!(c05_ops_u8, c05_new_u8, c05_exp_u8, c05_dot_u8, u8, u32, 6);
pow2!(c05_ops_u16, c05_new_u16, c05_exp_u16, c05_dot_u16, u16, u64, 6);
pow2!(c05_ops_u32, c05_new_u32, c05_exp_u32, c05_dot_u32, u32, u64, 6);
pow2!(c05_ops_u64, c05_new_u64, c05_exp_u64, c05_dot_u64, u64, u128, 4);

// u128 and "no modulus" (native wrap-around) forms
harness!(c05_ops_u128, {
    let k = 1 + pick(127);
    let m = 1u128 << k; let md = PowOf2Modulus::<u128>::new(m);
    let (x, y) = (any::<u64>() as u128 | (any::<u64>() as u128) << 64, any::<u64>() as u128 | (any::<u64>() as u128) << 64);
    check!(x.reduce(md) == x % m);
    let (a, b) = (x & (m - 1), y & (m - 1));
    check!(a.add_reduce(b, md) == a.wrapping_add(b) % m);
    check!(a.sub_reduce(b, md) == if a >= b { a - b } else { m - (b - a) });
    check!(a.neg_reduce(md) == if a == 0 { 0 } else { m - a });
    check!(a.mul_reduce(b, md) == a.wrapping_mul(b) % m);
    out(a.mul_reduce(b, md) as u64);
});
macro_rules! native { ($h:ident, $t:ty, $w:ty) => {
  #[no_mangle] pub extern "C" fn $h() {
    let (a, b): ($t, $t) = (any(), any());
    let (aw, bw, mw) = (a as $w, b as $w, 1 as $w << <$t>::BITS);
    check!(a.reduce(()) == a);
    check!(a.add_reduce(b, ()) as $w == (aw + bw) % mw);
    check!(a.sub_reduce(b, ()) as $w == (aw + mw - bw) % mw);
    check!(a.neg_reduce(()) as $w == (mw - aw) % mw);
    check!(a.mul_reduce(b, ()) as $w == (aw * bw) % mw);
    let mut z = a; z.add_reduce_assign(b, ()); check!(z as $w == (aw + bw) % mw);
    let mut z = a; z.sub_reduce_assign(b, ()); check!(z as $w == (aw + mw - bw) % mw);
    let mut z = a; z.neg_reduce_assign(()); check!(z as $w == (mw - aw) % mw);
    let mut z = a; z.mul_reduce_assign(b, ()); check!(z as $w == (aw * bw) % mw);
    let mut z = a; z.reduce_assign(()); check!(z == a);
    out(a.mul_reduce(b, ()) as u64);
  }
} }
//@ c05_native_* ; every operand pair
native!(c05_native_u8, u8, u32); native!(c05_native_u16, u16, u64); native!(c05_native_u32, u32, u128); native!(c05_native_u64, u64, u128);
// exponentiation over the free monoid cannot be used here (mask arithmetic), so: every exponent up to 255 for a u8 base
//@ c05_pow_u8 enc=["bv"] ; every base, every 8-bit exponent, every modulus of the word type
harness!(c05_pow_u8, {
    let k = 1 + pick(7);
    let md = PowOf2Modulus::<u8>::new(1 << k);
    let a: u8 = below(1 << k); let e: u8 = any();
    let r = a.exp_reduce(e, md);
    let mut s = 1u8; for i in (0..8).rev() { s = s.wrapping_mul(s); let t = s.wrapping_mul(a); s = if e >> i & 1 == 1 { t } else { s }; }
    check!(r == s & md.mask());
    out(r as u64);
});
