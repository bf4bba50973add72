//! C20: modulus switching
use crate::sym::*;
use algebra::{derive::*, *};
use fhe_core::*;
use lattice::LWE;

macro_rules! fields { ($($n:ident $t:ident, $m:tt);* $(;)?) => { $(
    #[derive(Field, Prime, DecomposableField, FheField)]
    #[modulus = $m]
    pub struct $n($t);
)* } }
fields! { U8a u8, 61; U16a u16, 12289; U32q u32, 15361; U32a u32, 132120577; U32b u32, 1073707009; U64a u64, 1125899906826241; U64c u64, 274877562881; }

// |r * before - v * after| <= before / 2, where 0 may stand for after
fn near(r: u64, v: u64, before: u64, after: u64) -> bool {
    let d = |k: u64| { let (a, b) = (k as u128 * before as u128, v as u128 * after as u128); 2 * (if a > b { a - b } else { b - a }) <= before as u128 };
    r < after && (d(r) | (r == 0 && d(after)))
}
macro_rules! ring { ($($f:ident, $t:ty, $c:ty, [$($l:literal)*], $h:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let p = $f::MODULUS_VALUE;
    let ls = [$($l as u32),*]; let q: $c = 1 << ls[pick(ls.len())];
    let (a, b): ($t, $t) = (below(p), below(p));
    let c = lwe_modulus_switch::<$c, $f>(LWE::new(vec![$f::new(a)], $f::new(b)), q);
    check!(c.a().len() == 1);
    let (ra, rb) = (c.a()[0], c.b());
    check!(near(ra as u64, a as u64, p as u64, q as u64));
    check!(near(rb as u64, b as u64, p as u64, q as u64));
    let mut d = LWE::new(vec![any::<$c>()], any::<$c>());
    lwe_modulus_switch_inplace::<$c, $f>(LWE::new(vec![$f::new(a)], $f::new(b)), q, &mut d);
    check!(d.a()[0] == ra); check!(d.b() == rb); check!(d.a().len() == 1);
    out(ra as u64); out(rb as u64);
  }
)* } }
//@ c20_ring_* timeout=150 weight=3 ; every residue, the listed power-of-two target moduli
ring! { U16a, u16, u16, [1 10 15], c20_ring_u16; U32q, u32, u16, [10 11], c20_ring_u32q; U32a, u32, u16, [1 10 11], c20_ring_u32; U32b, u32, u32, [10], c20_ring_u32b; U64c, u64, u64, [10], c20_ring_u64;
  U16a, u16, u16, [5 8 11 12 14], c20_tring_u16; U32a, u32, u16, [9 12 15], c20_tring_u32; U32b, u32, u32, [1 11 20], c20_tring_u32b; U64c, u64, u64, [1 12], c20_tring_u64 }
macro_rules! lwe { ($($c:ty, [$($l:literal, $m:literal)*], $h:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let ls = [$(($l as u32, $m as u32)),*]; let (lb, la) = ls[pick(ls.len())];
    let (before, after): ($c, $c) = (1 << lb, 1 << la);
    let (a, b): ($c, $c) = (below(before), below(before));
    let mut c = LWE::new(vec![a], b);
    lwe_modulus_switch_assign_between_modulus(&mut c, before, after);
    check!(c.a().len() == 1);
    check!(near(c.a()[0] as u64, a as u64, before as u64, after as u64));
    check!(near(c.b() as u64, b as u64, before as u64, after as u64));
    out(c.a()[0] as u64); out(c.b() as u64);
  }
)* } }
//@ c20_tring_* timeout=150 tier=thorough ; every residue, further target moduli
//@ c20_lwe_* ; every component value, the listed pairs of moduli
lwe! { u8, [7, 3 3, 7 5, 5 6, 1], c20_lwe_u8; u16, [11, 10 10, 11 15, 1 12, 11 9, 9], c20_lwe_u16; u32, [20, 11 31, 10 11, 20], c20_lwe_u32; u64, [40, 12 12, 40 52, 1], c20_lwe_u64 }
