//! C27: serialisation of field elements (bincode as the format)
use crate::sym::*;
use algebra::{derive::*, *};

macro_rules! fields { ($($n:ident $t:ident, $m:tt);* $(;)?) => { $(
    #[derive(Field, Prime, DecomposableField, FheField)]
    #[modulus = $m]
    pub struct $n($t);
)* } }
fields! { U8a u8, 61; U16a u16, 12289; U32a u32, 132120577; U32b u32, 1073707009; U64a u64, 1125899906826241; U64b u64, 4611686018427387847; }
macro_rules! ser { ($($f:ident, $t:ty, $h:ident, $d:ident, $v:ident, $w:ident);* $(;)?) => { $(
  #[no_mangle] pub extern "C" fn $h() {
    let x = $f::new(below($f::MODULUS_VALUE));
    let b = bincode::serialize(&x).unwrap();
    check!(b.len() == core::mem::size_of::<$t>());
    let mut v: u64 = 0; for i in 0..b.len() { v |= (b[i] as u64) << (8 * i); }
    check!(v == x.value() as u64);
    let y: $f = bincode::deserialize(&b).unwrap();
    check!(y == x); out(y.value() as u64);
  }
  // any byte string: an error, or a canonical element congruent to the encoded word
  #[no_mangle] pub extern "C" fn $d() {
    const S: usize = core::mem::size_of::<$t>();
    let b: [u8; S + 1] = arr();
    let len = pick(S + 2);
    let mut v: u64 = 0; for i in 0..S { v |= (b[i] as u64) << (8 * i); }
    match bincode::deserialize::<$f>(&b[..len]) {
      Ok(y) => { check!(len >= S); check!(y.value() < $f::MODULUS_VALUE); check!(y.value() as u64 == v % $f::MODULUS_VALUE as u64); out(y.value() as u64); }
      Err(_) => { check!(len < S); out(999); }
    }
  }
  #[no_mangle] pub extern "C" fn $v() {
    let n = pick(4);
    let x: Vec<$f> = (0..n).map(|_| $f::new(below($f::MODULUS_VALUE))).collect();
    let b = bincode::serialize(&x).unwrap();
    let y: Vec<$f> = bincode::deserialize(&b).unwrap();
    check!(y.len() == n);
    for i in 0..n { check!(y[i] == x[i]); out(y[i].value() as u64); }
    let z: ($f, Option<$f>) = ($f::new(below($f::MODULUS_VALUE)), if n > 1 { Some($f::new(below($f::MODULUS_VALUE))) } else { None });
    let b = bincode::serialize(&z).unwrap();
    let y: ($f, Option<$f>) = bincode::deserialize(&b).unwrap();
    check!(y == z);
  }
  #[no_mangle] pub extern "C" fn $w() {
    const S: usize = core::mem::size_of::<$t>();
    let b: [u8; 2 * S] = arr();
    let n = pick(3);
    let mut s = vec![0u8; 8]; s[0] = n as u8; s.extend_from_slice(&b[..n * S]);
    let y: Vec<$f> = bincode::deserialize(&s).unwrap();
    check!(y.len() == n);
    for k in 0..n {
      let mut v: u64 = 0; for i in 0..S { v |= (b[S * k + i] as u64) << (8 * i); }
      check!(y[k].value() < $f::MODULUS_VALUE); check!(y[k].value() as u64 == v % $f::MODULUS_VALUE as u64);
    }
    out(n as u64);
  }
)* } }
//@ c27_ser_* ; every field element
//@ c27_deser_* ; every byte string up to one byte longer than the word
//@ c27_vec_* ; every sequence of up to 3 elements, and a pair with an optional element
//@ c27_devec_* ; every byte string announcing up to 2 elements
ser! { U8a, u8, c27_ser_u8, c27_deser_u8, c27_vec_u8, c27_devec_u8; U16a, u16, c27_ser_u16, c27_deser_u16, c27_vec_u16, c27_devec_u16; U32a, u32, c27_ser_u32, c27_deser_u32, c27_vec_u32, c27_devec_u32;
  U32b, u32, c27_ser_u32b, c27_deser_u32b, c27_vec_u32b, c27_devec_u32b; U64a, u64, c27_ser_u64, c27_deser_u64, c27_vec_u64, c27_devec_u64; U64b, u64, c27_ser_u64b, c27_deser_u64b, c27_vec_u64b, c27_devec_u64b }
