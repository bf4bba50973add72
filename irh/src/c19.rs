//! C19: message encoding and decoding
use crate::sym::*;
use fhe_core::{decode, encode};

macro_rules! enc { ($($m:ty, $c:ty, $mt:literal, [$($l:literal)*], $h:ident, $d:ident);* $(;)?) => { $(
  // $mt: largest log t for which every message fits $m
  #[no_mangle] pub extern "C" fn $h() {
    let ls = [$($l as u32),*]; let lq = ls[pick(ls.len())];
    let lt = pick(if lq < $mt { lq as usize + 1 } else { $mt + 1 }) as u32;
    let (q, t) = (1u64 << lq, 1u64 << lt);
    let step = q / t;
    let mv: u64 = below(t);
    let m = <$m as M>::of(mv);
    let c: $c = encode::<$m, $c>(m, t, q);
    check!(c as u64 == mv * step);
    check!(decode::<$m, $c>(c, t, q).to() == mv);
    // noise of less than half a step, on either side, modulo q
    let e: u64 = below(step);
    assume(2 * (e as u128) < step as u128);
    let plus = ((c as u64).wrapping_add(e) & (q - 1)) as $c;
    let minus = ((c as u64).wrapping_sub(e) & (q - 1)) as $c;
    check!(decode::<$m, $c>(plus, t, q).to() == mv); check!(decode::<$m, $c>(minus, t, q).to() == mv);
    // every ciphertext value goes to a nearest multiple of the step, modulo t
    let v: u64 = below(q);
    let r = decode::<$m, $c>(v as $c, t, q).to();
    check!(r < t);
    let near = |k: u64| { let (a, b) = (v as u128, k as u128 * step as u128); 2 * (if a > b { a - b } else { b - a }) <= step as u128 };
    check!(near(r) | (r == 0 && near(t)));
    out(c as u64); out(r);
  }
  // a message outside the message space is refused
  #[no_mangle] pub extern "C" fn $d() {
    let ls = [$($l as u32),*]; let lq = ls[pick(ls.len())];
    let lt = pick(if lq < $mt { lq as usize + 1 } else { $mt + 1 }) as u32;
    let mv: u64 = any(); assume(mv >= 1 << lt && mv <= <$m as M>::TOP);
    panic_ok(true);
    let c: $c = encode::<$m, $c>(<$m as M>::of(mv), 1 << lt, 1 << lq);
    check!(false); out(c as u64);
  }
)* } }
trait M { const TOP: u64; fn of(x: u64) -> Self; fn to(self) -> u64; }
impl M for bool { const TOP: u64 = 1; fn of(x: u64) -> Self { x & 1 == 1 } fn to(self) -> u64 { self as u64 } }
macro_rules! mm { ($($t:ty)*) => { $( impl M for $t { const TOP: u64 = <$t>::MAX as u64; fn of(x: u64) -> Self { x as $t } fn to(self) -> u64 { self as u64 } } )* } }
mm!(u8 u16 u32 u64);
//@ c19_* enc=["bv"] ; every message, every ciphertext value, every noise below half a step; every power of two t <= q the message type can fill, for the listed log q (all of them for 8 and 16 bits and, in the thorough tier, 32 and 64)
//@ c19_*rej_* nocheck=1 ; every value not below t the message type can hold
//@ c19_t* tier=thorough
enc! { bool, u16, 1, [1 2 3 4 5 6 7 8 9 10 11 12 13 14 15], c19_enc_bool_u16, c19_rej_bool_u16;
  bool, u64, 1, [1 2 9 31 32 33 62 63], c19_enc_bool_u64, c19_rej_bool_u64;
  u8, u8, 7, [1 2 3 4 5 6 7], c19_enc_u8_u8, c19_rej_u8_u8;
  u8, u16, 8, [1 2 3 4 5 6 7 8 9 10 11 12 13 14 15], c19_enc_u8_u16, c19_rej_u8_u16;
  u16, u16, 15, [1 2 3 4 5 6 7 8 9 10 11 12 13 14 15], c19_enc_u16_u16, c19_rej_u16_u16;
  u8, u32, 8, [1 8 9 15 27 31], c19_enc_u8_u32, c19_rej_u8_u32;
  u32, u32, 31, [1 10 21 31], c19_enc_u32_u32, c19_rej_u32_u32;
  u64, u64, 63, [1 33 63], c19_enc_u64_u64, c19_rej_u64_u64;
  u16, u64, 16, [10 17 50 63], c19_enc_u16_u64, c19_rej_u16_u64;
  u32, u32, 31, [1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31], c19_tenc_u32_u32, c19_trej_u32_u32;
  u64, u64, 63, [1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63], c19_tenc_u64_u64, c19_trej_u64_u64;
  u16, u64, 16, [1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63], c19_tenc_u16_u64, c19_trej_u16_u64;
  u8, u32, 8, [1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31], c19_tenc_u8_u32, c19_trej_u8_u32; }
