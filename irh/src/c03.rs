//! C03: lazy and fused modular operations
use crate::sym::*;
use algebra::{derive::*, modulus::BarrettModulus, reduce::*, *};

macro_rules! lazy { ($h:ident, $t:ty, $w:ty, $mexp:expr) => {
  #[no_mangle] pub extern "C" fn $h() {
    let m: $t = { let m: u64 = $mexp; fork(m as usize) as $t };
    let md = BarrettModulus::<$t>::new(m);
    let mw = m as $w;
    let x: $t = any();
    let r = x.lazy_reduce(md);
    check!((r as $w) < 2 * mw); check!(r as $w % mw == x as $w % mw);
    let mut y = x; y.lazy_reduce_assign(md); check!((y as $w) < 2 * mw); check!(y as $w % mw == x as $w % mw);
    let h: $t = any();
    let full = ((h as $w) << <$t>::BITS) | x as $w;
    let r = [x, h].lazy_reduce(md);
    check!((r as $w) < 2 * mw); check!(r as $w % mw == full % mw);
    let r2 = (x, h).lazy_reduce(md);
    check!((r2 as $w) < 2 * mw); check!(r2 as $w % mw == full % mw);
    // products of canonical, lazily reduced and arbitrary words
    let (a, b): ($t, $t) = (below(m), below(m));
    let l = a.lazy_mul_reduce(b, md);
    check!((l as $w) < 2 * mw); check!(l as $w % mw == a as $w * b as $w % mw);
    let mut z = a; z.lazy_mul_reduce_assign(b, md); check!((z as $w) < 2 * mw); check!(z as $w % mw == a as $w * b as $w % mw);
    let (c, d): ($t, $t) = (below(2 * m), below(2 * m));
    let l = c.lazy_mul_reduce(d, md);
    check!((l as $w) < 2 * mw); check!(l as $w % mw == c as $w * d as $w % mw);
    let p = c.mul_reduce(d, md);
    check!(p as $w == c as $w * d as $w % mw);
    out(r as u64); out(r2 as u64); out(l as u64); out(p as u64);
  }
} }
//@ c03_lazy_* ; every word, every word pair, every residue pair, every pair of lazily reduced residues (u8: every modulus)
lazy!(c03_lazy_u8_all, u8, u32, 2 + below(62u64));
lazy!(c03_lazy_u16_2, u16, u64, 2);
lazy!(c03_lazy_u16_257, u16, u64, 257);
lazy!(c03_lazy_u16_12289, u16, u64, 12289);
lazy!(c03_lazy_u16_max, u16, u64, 16383);
lazy!(c03_lazy_u32_3, u32, u128, 3);
lazy!(c03_lazy_u32_65536, u32, u128, 65536);
lazy!(c03_lazy_u32_132120577, u32, u128, 132120577);
lazy!(c03_lazy_u32_max, u32, u128, 1073741823);
lazy!(c03_lazy_u64_7, u64, u128, 7);
lazy!(c03_lazy_u64_4294967297, u64, u128, 4294967297);
lazy!(c03_lazy_u64_50, u64, u128, 1125899906826241);
lazy!(c03_lazy_u64_max, u64, u128, 4611686018427387903);

macro_rules! fields { ($($n:ident $t:ident, $w:ty, $m:tt, $h:ident);* $(;)?) => { $(
    #[derive(Field, Prime, DecomposableField, FheField)]
    #[modulus = $m]
    pub struct $n($t);
    #[no_mangle] pub extern "C" fn $h() {
        const M: $w = $m;
        let (a, b, s): ($t, $t, $t) = (below($m), below($m), below($m));
        let (x, y, z) = ($n::new(a), $n::new(b), $n::new(s));
        let p = a as $w * b as $w;
        let f = z.add_mul(x, y).value();
        check!(f as $w == (p + s as $w) % M);
        let mut q = z; q.add_mul_assign(x, y); check!(q.value() == f);
        let m = x.mul_fast(y).value(); check!((m as $w) < 2 * M); check!(m as $w % M == p % M);
        let mut q = x; q.mul_assign_fast(y); check!((q.value() as $w) < 2 * M); check!(q.value() as $w % M == p % M);
        // accumulation: the running sum is itself a lazily reduced value (below 2M)
        let l: $t = below(2 * $m); let lz = $n::lazy_new(l);
        check!(lz.value() == l);
        let g = lz.add_mul_fast(x, y).value(); check!((g as $w) < 2 * M); check!(g as $w % M == (p + l as $w) % M);
        let mut q = lz; q.add_mul_assign_fast(x, y); check!((q.value() as $w) < 2 * M); check!(q.value() as $w % M == (p + l as $w) % M);
        // lazily reduced factors
        let (c, d): ($t, $t) = (below(2 * $m), below(2 * $m));
        let (u, v) = ($n::lazy_new(c), $n::lazy_new(d));
        let pw = c as $w * d as $w;
        let k = u.mul_fast(v).value(); check!((k as $w) < 2 * M); check!(k as $w % M == pw % M);
        let e = lz.add_mul(u, v).value(); check!(e as $w == (pw + l as $w) % M);
        let e2 = lz.add_mul_fast(u, v).value(); check!((e2 as $w) < 2 * M); check!(e2 as $w % M == (pw + l as $w) % M);
        check!($n::new(l).value() as $w == l as $w % M);
        out(f as u64); out(m as u64); out(g as u64); out(e2 as u64);
    }
)* } }
//@ c03_field_* ; all residues and lazily reduced residues of the field
fields! {
    U8a u8, u32, 61, c03_field_u8; U8b u8, u32, 3, c03_field_u8_3;
    U16a u16, u64, 12289, c03_field_u16; U16b u16, u64, 16381, c03_field_u16_max;
    U32a u32, u128, 132120577, c03_field_u32; U32b u32, u128, 1073741789, c03_field_u32_max;
    U64a u64, u128, 1125899906826241, c03_field_u64; U64b u64, u128, 4611686018427387847, c03_field_u64_max;
}
