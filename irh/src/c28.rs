//! C28: bit reversal and bit utilities
use crate::sym::*;
use algebra::{utils::ReverseLsbs, Bits};

macro_rules! rev { ($($t:ty, $h:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let n = pick(<$t>::BITS as usize) as u32;
    let (x, j): ($t, u32) = (any(), below(<$t>::BITS));
    let r = x.reverse_lsbs(n);
    check!(<$t as Bits>::BITS as usize == 8 * core::mem::size_of::<$t>());
    // bit j of the result is bit n-1-j of the argument, and 0 from bit n on
    let want = if j < n { (x >> (n - 1 - j)) & 1 } else { 0 };
    check!((r >> j) & 1 == want);
    let low = x & (((1 as $t) << n) - 1);
    check!(r.reverse_lsbs(n) == low);
    check!(low.reverse_lsbs(n) == r);
    out(r as u64);
  }
)* } }
// two equal images come from equal indices: a permutation of every power-of-two length
macro_rules! inj { ($($t:ty, $h:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let n = pick(<$t>::BITS as usize) as u32;
    let (x, y): ($t, $t) = (below(1 << n), below(1 << n));
    let (a, b) = (x.reverse_lsbs(n), y.reverse_lsbs(n));
    check!(a < 1 << n); check!((a == b) == (x == y)); out(a as u64);
  }
)* } }
//@ c28_* enc=["bv"] ; every value and every number of low bits below the word width
rev! { u8, c28_rev_u8; u16, c28_rev_u16; u32, c28_rev_u32; u64, c28_rev_u64; usize, c28_rev_usize }
inj! { u8, c28_inj_u8; u16, c28_inj_u16; u32, c28_inj_u32; u64, c28_inj_u64; usize, c28_inj_usize }
#[no_mangle] pub extern "C" fn c28_rev_u128() {
    let n = pick(128) as u32;
    let (h, l, j): (u64, u64, u32) = (any(), any(), below(128));
    let x = (h as u128) << 64 | l as u128;
    let r = x.reverse_lsbs(n);
    let want = if j < n { (x >> (n - 1 - j)) & 1 } else { 0 };
    check!((r >> j) & 1 == want);
    check!(r.reverse_lsbs(n) == x & ((1u128 << n) - 1));
    out(r as u64); out((r >> 64) as u64);
}
macro_rules! bits { ($($t:ty)*) => { $( check!(<$t as Bits>::BITS as usize == 8 * core::mem::size_of::<$t>()); )* } }
#[no_mangle] pub extern "C" fn c28_width() { bits!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize); }
