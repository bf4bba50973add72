//! C10: primality testing
use crate::sym::*;
use algebra::{modulus::BarrettModulus, reduce::*, utils::Prime, *};
use rand_chacha as rc;

// primes pass for every choice of witnesses
macro_rules! primes { ($h:ident, $t:ty, $all:literal, $($p:literal)*) => {
  #[no_mangle] pub extern "C" fn $h() {
    let ps = [$($p as $t),*];
    let p = ps[pick(ps.len())];
    unsafe { rc::BUDGET = 1; rc::SPLIT = if $all { 12 } else { 20 }; rc::TOP = if $all { pick(4096) as u64 } else { (pick(16) * 69905) as u64 }; }
    let r = BarrettModulus::<$t>::new(p).probably_prime(2);
    check!(r); out(r as u64);
  }
} }
//@ c10_small_* ; every value the constructor accepts below 64
macro_rules! small { ($h:ident, $t:ty, $max:literal) => {
  #[no_mangle] pub extern "C" fn $h() {
    let p = 2 + pick($max - 1) as $t;
    let mut comp = false;
    for d in 2..8 as $t { comp |= p % d == 0 && p > d; }
    let r = BarrettModulus::<$t>::new(p).probably_prime(2);
    check!(r != comp); out(r as u64);
  }
} }
small!(c10_small_u8, u8, 63); small!(c10_small_u16, u16, 63); small!(c10_small_u32, u32, 63); small!(c10_small_u64, u64, 63);
//@ c10_prime_* timeout=20 enc=["bv"] ; the listed primes, two rounds, the second witness from a random word with 16 listed values of its top 20 bits and every value of the others
//@ c10_primet_* timeout=20 enc=["bv"] tier=thorough ; the listed prime, two rounds, every random word
primes!(c10_prime_u16, u16, false, 67 97 113 127 257 769);
primes!(c10_prime_u32, u32, false, 67 97 113 257);
primes!(c10_prime_u64, u64, false, 67 97 257);
primes!(c10_primet_u16, u16, true, 97);
primes!(c10_primet_u32, u32, true, 113);
primes!(c10_primet_u64, u64, true, 73);

// a composite is accepted only if every drawn witness is a strong liar
macro_rules! comps { ($h:ident, $t:ty, $w:ty, $word:ty, $rounds:literal, $all:literal, $($p:literal)*) => {
  #[no_mangle] pub extern "C" fn $h() {
    let ps = [$($p as $t),*];
    let n = ps[pick(ps.len())];
    let md = BarrettModulus::<$t>::new(n);
    unsafe { rc::BUDGET = $rounds - 1; if !$all { rc::SPLIT = 20; rc::TOP = (pick(16) * 69905) as u64; } }
    let r = md.probably_prime($rounds); // accepting with fewer independent witnesses than rounds breaks the (1/4)^rounds bound
    out(r as u64);
    let s = (n - 1).trailing_zeros(); let q = (n - 1) >> s;
    let mut all = true;
    for i in 0..$rounds {
      let a: $t = if i == 0 { 2 } else if i <= unsafe { rc::NLOG } { let v = unsafe { rc::LOG[i - 1] }; 3 + ((v as $w * (n - 3) as $w) >> <$word>::BITS) as $t } else { all = false; break };
      let mut x: $t = a.exp_reduce(q, md);
      let mut liar = x == 1 || x == n - 1;
      for _ in 1..s { x = WideningMul::widening_mul(x, x).reduce(md); liar |= x == n - 1; }
      all &= liar;
    }
    check!(!r | all);
  }
} }
//@ c10_comp_* timeout=20 unkfeas=1 nomerge=1 ; the listed composites (no factor below 59; among them strong pseudoprimes to base 2), every drawn witness
//@ c10_compt_* unkfeas=1 nomerge=1 timeout=20 tier=thorough ; as c10_comp, more composites
//@ c10_comps_* unkfeas=1 nomerge=1 timeout=20 ; the listed composites, random words with 16 listed values of the top 20 bits
comps!(c10_comp_u16, u16, u64, u32, 2, true, 3481 4087 8633 10403 16343);
comps!(c10_comp_u32, u32, u64, u32, 2, true, 42799 49141);
comps!(c10_comps_u64, u64, u128, u64, 2, false, 42799 49141 88357 90751);
comps!(c10_comps_u32r3, u32, u64, u32, 3, false, 49141 88357 90751);
comps!(c10_compt_u64, u64, u128, u64, 2, true, 49141);
comps!(c10_compt_u32, u32, u64, u32, 2, true, 88357 90751 104653 220729);
