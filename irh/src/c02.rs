//! C02: Barrett modular arithmetic
use crate::sym::*;
use algebra::{modulus::BarrettModulus, reduce::*, *};
use num_traits::{One, Zero};

macro_rules! core_ops { ($h:ident, $t:ty, $w:ty, $ww:ty, $mexp:expr) => {
  #[no_mangle] pub extern "C" fn $h() {
    let m: $t = { let m: u64 = $mexp; fork(m as usize) as $t };
    let md = BarrettModulus::<$t>::new(m);
    let mw = m as $w;
    check!(md.value() == m);
    check!(md.bit_count() == <$t>::BITS - m.leading_zeros());
    let x: $t = any();
    check!(x.reduce(md) as $w == x as $w % mw);
    let mut y = x; y.reduce_assign(md); check!(y as $w == x as $w % mw);
    let h: $t = any();
    let full = ((h as $w) << <$t>::BITS) | x as $w;
    check!([x, h].reduce(md) as $w == full % mw);
    check!((x, h).reduce(md) as $w == full % mw);
    let (a, b): ($t, $t) = (below(m), below(m));
    let s = ((a as $w + b as $w) % mw) as $t;
    let d = ((a as $w + mw - b as $w) % mw) as $t;
    let p = ((a as $w * b as $w) % mw) as $t;
    let n = ((mw - a as $w) % mw) as $t;
    check!(a.add_reduce(b, md) == s); check!(a.add_reduce(b, m) == s);
    check!(a.sub_reduce(b, md) == d); check!(a.sub_reduce(b, m) == d);
    check!(a.mul_reduce(b, md) == p);
    check!(a.neg_reduce(md) == n); check!(a.neg_reduce(m) == n);
    let mut z = a; z.add_reduce_assign(b, md); check!(z == s); let mut z = a; z.add_reduce_assign(b, m); check!(z == s);
    let mut z = a; z.sub_reduce_assign(b, md); check!(z == d); let mut z = a; z.sub_reduce_assign(b, m); check!(z == d);
    let mut z = a; z.mul_reduce_assign(b, md); check!(z == p);
    let mut z = a; z.neg_reduce_assign(md); check!(z == n); let mut z = a; z.neg_reduce_assign(m); check!(z == n);
    out(a.mul_reduce(b, md) as u64); out([x, h].reduce(md) as u64);
  }
} }
//@ c02_core_* ; every word, every word pair, every residue pair for the stated modulus (u8: for every admissible modulus)
core_ops!(c02_core_u8_all, u8, u16, u32, 2 + below(62u64));
core_ops!(c02_core_u16_2, u16, u32, u64, 2);
core_ops!(c02_core_u16_3, u16, u32, u64, 3);
core_ops!(c02_core_u16_255, u16, u32, u64, 255);
core_ops!(c02_core_u16_256, u16, u32, u64, 256);
core_ops!(c02_core_u16_257, u16, u32, u64, 257);
core_ops!(c02_core_u16_12289, u16, u32, u64, 12289);
core_ops!(c02_core_u16_max, u16, u32, u64, 16383);
core_ops!(c02_core_u32_2, u32, u64, u128, 2);
core_ops!(c02_core_u32_3, u32, u64, u128, 3);
core_ops!(c02_core_u32_65535, u32, u64, u128, 65535);
core_ops!(c02_core_u32_65536, u32, u64, u128, 65536);
core_ops!(c02_core_u32_132120577, u32, u64, u128, 132120577);
core_ops!(c02_core_u32_max, u32, u64, u128, 1073741823);
core_ops!(c02_core_u64_2, u64, u128, u128, 2);
core_ops!(c02_core_u64_7, u64, u128, u128, 7);
core_ops!(c02_core_u64_4294967295, u64, u128, u128, 4294967295);
core_ops!(c02_core_u64_4294967297, u64, u128, u128, 4294967297);
core_ops!(c02_core_u64_50, u64, u128, u128, 1125899906826241);
core_ops!(c02_core_u64_max, u64, u128, u128, 4611686018427387903);

// multi-word little-endian values: one more low word on top of an already verified reduction
macro_rules! slices { ($h:ident, $t:ty, $w:ty, $m:expr, $n:literal) => {
  #[no_mangle] pub extern "C" fn $h() {
    let m: $t = fork($m) as $t;
    let md = BarrettModulus::<$t>::new(m);
    let v: [$t; $n] = arr();
    let r0: $t = (&v[$n - 1..]).reduce(md);
    check!(r0 as $w == v[$n - 1] as $w % m as $w);
    cut(r0);
    let mut r = r0; let mut l = v[$n - 1];
    for i in (0..$n - 1).rev() {
      let r2: $t = (&v[i..]).reduce(md);
      let w = ((r as $w) << <$t>::BITS) | v[i] as $w;
      if i == $n - 2 { check!(r2 as $w == (((v[$n - 1] as $w) << <$t>::BITS) | v[i] as $w) % m as $w); } else { check!(r2 as $w == w % m as $w); }
      let l2: $t = (&v[i..]).lazy_reduce(md);
      let w = ((l as $w) << <$t>::BITS) | v[i] as $w;
      check!((l2 as $w) < 2 * m as $w);
      check!(l2 as $w % m as $w == w % m as $w);
      r = r2; l = l2; cut(r); cut(l);
    }
    out(r as u64); out(l as u64);
  }
} }
//@ c02_slice_* batch=1 ; slices of 1..=n words (n = 4, u64: 3), every content; each length is reduced to the verified result for one word less
slices!(c02_slice_u8, u8, u16, 61, 4);
slices!(c02_slice_u16, u16, u32, 12289, 4);
slices!(c02_slice_u32, u32, u64, 132120577, 4);
slices!(c02_slice_u64, u64, u128, 1125899906826241, 3);

// dot products of every length up to n
macro_rules! dots { ($h:ident, $t:ty, $w:ty, $m:expr, $n:literal) => {
  #[no_mangle] pub extern "C" fn $h() {
    let m: $t = fork($m) as $t;
    let md = BarrettModulus::<$t>::new(m);
    let (mut a, mut b) = ([0 as $t; $n], [0 as $t; $n]);
    for i in 0..$n { a[i] = below(m); b[i] = below(m); }
    let len = pick($n + 1);
    let mut e: $w = 0;
    for i in 0..len { e += a[i] as $w * b[i] as $w; }
    let r = <$t>::dot_product_reduce(&a[..len], &b[..len], md);
    check!(r as $w == e % m as $w);
    out(r as u64);
  }
} }
//@ c02_dot_* ; vector lengths 0..=20 (u32max: 0..=14), every residue content
//@ c02_dotl_* tier=thorough ; vector lengths 0..=34, every residue content
dots!(c02_dot_u8, u8, u32, 61, 20);
dots!(c02_dot_u16, u16, u64, 16381, 20);
dots!(c02_dot_u32, u32, u128, 132120577, 20);
dots!(c02_dot_u32max, u32, u128, 1073741789, 14);
dots!(c02_dot_u64, u64, u128, 288230376151711717, 20);
dots!(c02_dotl_u8, u8, u32, 61, 34);
dots!(c02_dotl_u16, u16, u64, 16381, 34);
dots!(c02_dotl_u32, u32, u128, 132120577, 34);
dots!(c02_dotl_u64, u64, u128, 288230376151711717, 34);
